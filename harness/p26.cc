#include "common.hh"
#include <memory>
// a model of an entity: positions, one optional direction, one optional radius
struct Mod { int k; vector<W> p; W d; double r; bool hd; };
static vector<W> get(acme::entity const & e, Mod & m)
{
  vector<W> o; m.hd = false; m.r = 0;
  if (auto q = dynamic_cast<point const *>(&e)) o = {W(*q)};
  else if (auto q = dynamic_cast<line const *>(&e)) { o = {W(q->origin())}; m.d = W(q->direction()); m.hd = true; }
  else if (auto q = dynamic_cast<ray const *>(&e)) { o = {W(q->origin())}; m.d = W(q->direction()); m.hd = true; }
  else if (auto q = dynamic_cast<plane const *>(&e)) { o = {W(q->origin())}; m.d = W(q->normal()); m.hd = true; }
  else if (auto q = dynamic_cast<segment const *>(&e)) o = {W(q->vertex(0)), W(q->vertex(1))};
  else if (auto q = dynamic_cast<triangle const *>(&e)) o = {W(q->vertex(0)), W(q->vertex(1)), W(q->vertex(2))};
  else if (auto q = dynamic_cast<disk const *>(&e)) { o = {W(q->center())}; m.d = W(q->normal()); m.hd = true; m.r = q->radius(); }
  else if (auto q = dynamic_cast<ball const *>(&e)) { o = {W(q->center())}; m.r = q->radius(); }
  return o;
}
static void same(acme::entity const & e, Mod const & m, string const & what, double tol)
{
  Mod g; auto o = get(e, g); REQ(o.size() == m.p.size(), "positions"); double s = tol; for (auto & q : m.p) s += tol * q.norm();
  for (size_t i = 0; i < o.size(); ++i) REQ((o[i] - m.p[i]).norm() <= s, what << ": " << e.type() << " position " << i << " is " << o[i].transpose() << " expected " << m.p[i].transpose());
  if (m.hd) REQ((g.d - m.d).norm() <= tol * (1e-3 + m.d.norm()), what << ": " << e.type() << " direction is " << g.d.transpose() << " expected " << m.d.transpose());
  REQ(bits(g.r, m.r), what << ": " << e.type() << " radius is " << g.r << " expected " << m.r);
}
static W dirv() { W d = unitv(); if (P(.5)) d *= pick({1e-4, .1, 2, 17, 300}); return d; }
static M3 rodr(W const & k, double a) { M3 m; for (int i = 0; i < 3; ++i) { W e = W::Unit(i); m.col(i) = e * cos(a) + k.cross(e) * sin(a) + k * k.dot(e) * (1 - cos(a)); } return m; }
void run_case()
{
  Ctx c; std::unique_ptr<acme::entity> e; W a = vec(), b = vec(), d = vec(); double r = std::abs(scalar()); if (P(.1)) b = a;
  Mod m; m.k = K(0, 7);
  switch (m.k) {
    case 0: e.reset(new point(pt(a))); break; case 1: e.reset(new line(pt(a), vec3(dirv()))); break; case 2: e.reset(new ray(pt(a), vec3(dirv()))); break; case 3: e.reset(new plane(pt(a), vec3(dirv()))); break;
    case 4: e.reset(new segment(pt(a), pt(b))); break; case 5: e.reset(new triangle(pt(a), pt(b), pt(d))); break; case 6: e.reset(new disk(r, pt(a), vec3(dirv()))); break; default: e.reset(new ball(r, pt(a)));
  }
  m.p = get(*e, m); c << e->type(); for (auto & q : m.p) c << q; if (m.hd) c << m.d;
  double tol = 1e-11;
  for (int n = K(1, 4); n > 0; --n, tol *= 4) {
    int op = K(0, 5); string what;
    if (op == 0) { W t = vec(); c << " transform-by "; affine A = P(.3) ? mkpose(rotz(U(-4, 4)) * rotx(U(-4, 4)), t) : P(.3) ? mkpose(M3::Identity(), t) : mkpose(M3::Random() * 2, t); c << A; what = "transform"; M3 L = lin(A); e->transform(A); for (auto & q : m.p) q = L * q + t; if (m.hd) m.d = L * m.d; }
    else if (op == 1) { W k = unitv(); double an = P(.3) ? K(-8, 8) * 3.14159265358979323846 / 4 : U(-7, 7); c << " rotate " << an << " about " << k; what = "rotate"; e->rotate(an, vec3(k)); M3 L = rodr(k, an); for (auto & q : m.p) q = L * q; if (m.hd) m.d = L * m.d; }
    else if (op == 2) { W t = vec(); c << " translate " << t; what = "translate"; e->translate(vec3(t)); for (auto & q : m.p) q += t; }
    else if (op == 3 && m.hd) { what = "reverse"; c << " reverse"; if (auto q = dynamic_cast<line *>(e.get())) q->reverse(); else if (auto q = dynamic_cast<ray *>(e.get())) q->reverse(); else if (auto q = dynamic_cast<plane *>(e.get())) q->reverse(); else dynamic_cast<disk &>(*e).reverse(); m.d = -m.d; }
    else if (op == 4 && m.hd) { if (!(m.d.norm() > 1e-6)) return; what = "normalize"; c << " normalize"; W u = m.d / m.d.norm(), t = m.d;
      if (auto q = dynamic_cast<line *>(e.get())) { W x = W(q->toVector()), y = W(q->toUnitVector()); REQ((x - t).norm() <= tol * (1e-3 + t.norm()), "line toVector"); REQ((y - u).norm() < 1e-9, "line toUnitVector"); q->normalize(); }
      else if (auto q = dynamic_cast<ray *>(e.get())) { W x = W(q->toVector()), y = W(q->toUnitVector()); REQ((x - t).norm() <= tol * (1e-3 + t.norm()), "ray toVector"); REQ((y - u).norm() < 1e-9, "ray toUnitVector"); q->normalize(); }
      else if (auto q = dynamic_cast<plane *>(e.get())) { W y = W(q->unitNormal()); REQ((y - u).norm() < 1e-9, "plane unitNormal"); q->normalize(); } else dynamic_cast<disk &>(*e).normalize();
      m.d = u; tol = std::max(tol, 1e-9); }
    else if (auto q = dynamic_cast<segment *>(e.get())) { what = "swap"; c << " swap"; q->swap(); std::swap(m.p[0], m.p[1]); }
    else if (auto q = dynamic_cast<triangle *>(e.get())) { int i = K(0, 2), j = K(0, 2); what = "swap"; c << " swap " << i << " " << j; q->swap(i, j); std::swap(m.p[i], m.p[j]); }
    else continue;
    same(*e, m, what, tol);
  }
  { enve::shell h(1, .3, 2, .1, 2, .1); M3 L0 = M3::Random(); W t0 = vec(), t = vec(), k = unitv(); double an = U(-7, 7); h.transform(mkpose(L0, t0)); c << " shell rotate " << an << " about " << k << " translate " << t; h.rotate(an, vec3(k)); M3 L = L0 * rodr(k, an);
    REQ((lin(h.transformation()) - L).norm() < 1e-11 && (org(h.transformation()) - t0).norm() <= 1e-12 * t0.norm(), "pose after shell::rotate is " << h.transformation().matrix()); h.translate(vec3(t)); REQ((lin(h.transformation()) - L).norm() < 1e-11 && (org(h.transformation()) - (t0 + L * t)).norm() <= 1e-11 * (1 + t0.norm() + t.norm()), "pose after shell::translate is " << h.transformation().matrix()); }
  W x = dirv(), y = P(.2) ? W(x * pick({-2, -1, 1, 3})) : dirv(); c << " vectors " << x << y; vec3 v(x); affine A = mkpose(M3::Random(), vec()); c << A; acme::Transform(v, A); REQ((W(v) - lin(A) * x).norm() <= 1e-12 * (1 + x.norm()), "Transform of a vector is " << W(v).transpose());
  double g = acme::Angle(vec3(x), vec3(y)), w = std::atan2(x.cross(y).norm(), x.dot(y)); if (std::abs(std::cos(w)) < 1 - 1e-9) REQ(std::abs(g - w) < 1e-6, "Angle " << g << " expected " << w);
}
