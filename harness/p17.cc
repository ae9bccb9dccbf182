#include "common.hh"
static double par() { double k[] = {0, 1, -TOL / 2, -2 * TOL, 1 + TOL / 2, 1 + 2 * TOL, 0.5, TOL, 1 - TOL}; if (P(.4)) return k[K(0, 8)]; return P(.5) ? U(-.2, 1.2) : U(-4, 4); }
static bool far(double a, double b) { return std::abs(a - b) > 2e-11; }
static W v3() { return P(.3) ? W(K(-2, 2), K(-2, 2), K(-2, 2)) : vec(3); }
static string nm[3] = {"line", "ray", "segment"};
// the same pair given as entities of unknown type, in both orders: the same result, away from collinear and coplanar pairs
static vector<W> nums(point const & x) { return {W(x)}; }
static vector<W> nums(segment const & x) { return {W(x.vertex(0)), W(x.vertex(1))}; }
static vector<W> nums(line const & x) { return {W(x.origin()), W(x.direction())}; }
template<class O> static void unknown(acme::entity const & e, acme::entity const & f, bool h, O const & o)
{
  for (int s = 0; s < 2; ++s) {
    acme::entity const * x = s ? &f : &e, * y = s ? &e : &f; if (acme::IsCollinear(x, y) || acme::IsCoplanar(x, y)) continue;
    acme::entity * r = acme::Intersection(x, y, TOL); O * q = dynamic_cast<O *>(r);
    REQ(h ? q != nullptr : r->isNone(), "given as entities the result is a " << r->type() << ", but the overload for the two types reported " << h);
    if (h && !(s && e.level() == f.level())) { auto a = nums(*q), b = nums(o); for (size_t i = 0; i < a.size(); ++i) REQ(near(a[i], b[i], 1e-9), "given as entities the result is " << a[i].transpose() << ", the overload yields " << b[i].transpose()); }
    delete r;
  }
}
template<class A, class B, class O> static bool meet(A const & x, B const & y, O & o, double t) { bool h = acme::Intersection(x, y, o, t); if (P(.3)) unknown(x, y, h, o); return h; }
// kind 0 line, 1 ray, 2 segment
static bool range(int k, double t) { return k == 0 || (t >= -TOL && (k == 1 || t <= 1 + TOL)); }
static bool edge(int k, double t) { return k == 0 ? false : (!far(t, -TOL) || (k == 2 && !far(t, 1 + TOL))); }
template<class E> static bool isect(int k, W const & o, W const & d, E const & e, point & out)
{
  if (k == 0) return meet(line(pt(o), vec3(d)), e, out, TOL);
  if (k == 1) return meet(ray(pt(o), vec3(d)), e, out, TOL);
  return meet(segment(pt(o), pt(o + d)), e, out, TOL);
}
template<> bool isect(int k, W const & o, W const & d, plane const & e, point & out)
{
  if (k == 0) return meet(line(pt(o), vec3(d)), e, out, TOL);
  if (k == 1) return meet(ray(pt(o), vec3(d)), e, out, TOL);
  return meet(e, segment(pt(o), pt(o + d)), out, TOL);
}
static void frame(W & a, W & b, W & n) { n = unitv(); W h = unitv(); while (std::abs(h.dot(n)) > .95) h = unitv(); a = (h - n * n.dot(h)).normalized(); b = n.cross(a); }
static void chordcheck(segment const & s, W const & e0, W const & e1, string const & what)
{
  W a(s.vertex(0)), b(s.vertex(1)); bool d = near(a, e0, 1e-5) && near(b, e1, 1e-5), r = near(a, e1, 1e-5) && near(b, e0, 1e-5);
  REQ(d || r, what << " yields " << a.transpose() << " / " << b.transpose() << ", expected " << e0.transpose() << " / " << e1.transpose());
}
void run_case()
{
  Ctx c; point out(9, 9, 9); int k = K(0, 2), z = K(0, 5);
  if (z == 0) { // straight and plane
    W a, b, n; frame(a, b, n); double len = P(.3) ? 1 : U(.2, 3); W d = P(.1) ? W(a * U(.5, 2)) : v3(); if (d.norm() < .05) return; double t = par(); W x = v3(), o = x - d * t, q = x + a * U(-2, 2) + b * U(-2, 2); if (P(.2)) q = x; double den = d.dot(n * len);
    c << nm[k] << " " << o << d << " plane " << q << n << "*" << len; if (std::abs(den) > 1e-12 && std::abs(den) < 1e-3) return; bool e = std::abs(den) > 1e-9 && range(k, t);
    if (edge(k, t)) return; bool h = isect(k, o, d, plane(pt(q), vec3(n * len)), out);
    REQ(h == e, "intersection of " << nm[k] << " and plane reported " << h << ", expected " << e << " (parameter " << t << ")"); if (h) REQ(near(W(out), x, 1e-9), "intersection " << W(out).transpose() << " expected " << x.transpose()); return;
  }
  if (z == 1) { // straight and triangle
    W A = v3(), B = v3(), C = v3(), n = (B - A).cross(C - A); if (n.norm() < .1) return; double u = par(), w = par(), t = par(); if (P(.4)) w = 1 - u + (P(.5) ? 0 : TOL * K(-4, 4) / 2); W d = P(.08) ? W((B - A) * U(-1, 1) + (C - A) * U(-1, 1)) : v3(); if (d.norm() < .05) return;
    if (!far(u, -TOL) || !far(w, -TOL) || !far(u + w, 1 + TOL) || edge(k, t)) return; double den = d.dot(n); if (std::abs(den) > 1e-12 && std::abs(den) < .02) return;
    W x = A + (B - A) * u + (C - A) * w, o = x - d * t; bool e = std::abs(den) > 1e-9 && u >= -TOL && w >= -TOL && u + w <= 1 + TOL && range(k, t); double cond = 1e-14 * (1 + A.norm() + B.norm() + C.norm() + o.norm()) * (1 + d.norm()) * 30 / std::max(1e-3, std::abs(den)); if (cond > 1e-9 && e != (u >= 0 && w >= 0 && u + w <= 1 && t >= 0 && t <= 1)) return;
    c << nm[k] << " " << o << d << " triangle " << A << B << C; bool h = isect(k, o, d, triangle(pt(A), pt(B), pt(C)), out);
    REQ(h == e, "intersection of " << nm[k] << " and triangle reported " << h << ", expected " << e << " (barycentric " << u << "," << w << " parameter " << t << ")"); if (h) REQ(near(W(out), x, 1e-8), "intersection " << W(out).transpose() << " expected " << x.transpose()); return;
  }
  W a, b, n; frame(a, b, n); W m = unitv(); W p = v3();
  if (z == 2) { // planes
    W q = v3(); double l0 = P(.5) ? 1 : U(.2, 3), l1 = P(.5) ? 1 : U(.2, 3); if (P(.15)) m = P(.5) ? n : W(-n); W x = n.cross(m); double s2 = x.squaredNorm(); if (s2 > 1e-14 && s2 < 1e-3) return; c << "planes " << p << n << "*" << l0 << " and " << q << m << "*" << l1;
    line l; bool h = meet(plane(pt(p), vec3(n * l0)), plane(pt(q), vec3(m * l1)), l, TOL), e = s2 > 1e-9; REQ(h == e, "intersection of planes reported " << h << ", expected " << e);
    if (h) { W o(l.origin()), d(l.direction()); double y = 1e-8 * (1 + o.norm() + p.norm() + q.norm()); REQ(std::abs(n.dot(o - p)) < y && std::abs(m.dot(o - q)) < y, "line origin " << o.transpose() << " is not on both planes"); REQ(std::abs(n.dot(d)) < 1e-9 && std::abs(m.dot(d)) < 1e-9 && d.norm() > 1e-6, "line direction " << d.transpose() << " is not in both planes"); } return;
  }
  double R = U(.1, 3); W ctr = v3(); disk D(R, pt(ctr), vec3(n));
  if (z == 3) { // plane and disk
    double f = P(.2) ? R : U(-1.4, 1.4) * R; if (P(.1)) m = n; W x = n.cross(m); double s2 = x.squaredNorm(); if (s2 > 1e-14 && s2 < 1e-2) return; // the plane passes at distance f from the centre, in the plane of the disk
    W dir = s2 > 1e-9 ? W(x.normalized()) : a, out_ = dir.cross(n), foot = ctr + out_ * f, q = foot + dir * U(-2, 2); W mm = m - dir * m.dot(dir); if (P(.5)) q += dir.cross(m) * U(-2, 2); c << "plane " << q << m << " disk " << R << ctr << n; (void)mm;
    double disc = s2 * (R * R - f * f); if (s2 > 1e-9 && std::abs(disc) < 1e-6 && std::abs(disc) > 1e-9) return; segment s(9, 9, 9, 9, 9, 9); bool h = meet(plane(pt(q), vec3(m)), D, s, TOL), e = s2 > 1e-9 && disc > -1e-8; REQ(h == e, "intersection of plane and disk reported " << h << ", expected " << e << " (distance " << f << ")");
    if (h) { double hl = std::sqrt(std::max(0., R * R - f * f)); if (std::abs(disc) < 1e-8) { REQ((W(s.vertex(0)) - foot).norm() < 1e-3 && (W(s.vertex(1)) - foot).norm() < 1e-3, "tangent point"); } else chordcheck(s, foot - dir * hl, foot + dir * hl, "chord of the disk"); } return;
  }
  if (z == 4) { // segment in the plane of a disk
    double f = P(.1) ? R : U(-1.3, 1.3) * R, an = U(-3.2, 3.2); W dir = a * cos(an) + b * sin(an), nn = dir.cross(n), foot = ctr + nn * f; double hl2 = R * R - f * f, s0, s1; if (std::abs(hl2) < 1e-5 && std::abs(hl2) > 1e-12) return; double hl = std::sqrt(std::max(0., hl2));
    s0 = U(-3, 3); s1 = P(.1) ? s0 : U(-3, 3); if (P(.15)) s0 = s1 + .5; if (std::abs(s0 - s1) < .01 && s0 != s1) return; W A = foot + dir * s0, B = foot + dir * s1; c << "segment " << A << B << " disk " << R << ctr << n;
    double lo = std::max(std::min(s0, s1), -hl), hi = std::min(std::max(s0, s1), hl); bool e = s0 != s1 && hl2 > -1e-9 && lo <= hi; if (hl2 > 1e-9 && std::abs(hi - lo) < 1e-4) return; if (std::abs(hl2) < 1e-9 && (std::abs(s0) < 1e-3 || std::abs(s1) < 1e-3)) return; if (std::abs(hl2) < 1e-9) e = s0 != s1 && s0 * s1 < 0;
    segment s(9, 9, 9, 9, 9, 9); bool h = meet(segment(pt(A), pt(B)), D, s, TOL); REQ(h == e, "intersection of segment and disk reported " << h << ", expected " << e); if (h && hl2 > 1e-9) chordcheck(s, foot + dir * lo, foot + dir * hi, "segment inside the disk"); return;
  }
  // triangle and disk
  W V[3]; double d[3]; for (int i = 0; i < 3; ++i) { d[i] = P(.15) ? 0 : U(-1.5, 1.5); V[i] = ctr + a * U(-3, 3) + b * U(-3, 3) + n * d[i]; if (d[i] != 0 && std::abs(d[i]) < .02) return; } if ((V[1] - V[0]).cross(V[2] - V[0]).norm() < .2) return; W N = (V[1] - V[0]).cross(V[2] - V[0]).normalized(); if (N.cross(n).squaredNorm() < .02) return;
  if (P(.2)) { W sh = V[K(0, 2)]; for (W & v : V) v -= sh; ctr -= sh; D = disk(R, pt(ctr), vec3(n)); } // a corner at the origin
  c << "triangle " << V[0] << V[1] << V[2] << " disk " << R << ctr << n; vector<W> q; for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; if (d[i] == 0) q.push_back(V[i]); if (d[i] * d[j] < 0) q.push_back(V[i] + (V[j] - V[i]) * (d[i] / (d[i] - d[j]))); }
  segment s(9, 9, 9, 9, 9, 9); triangle T(pt(V[0]), pt(V[1]), pt(V[2]));
  if (K(0, 1)) { if (q.size() == 1) return; bool h = meet(plane(pt(ctr), vec3(n)), T, s, TOL), e = q.size() >= 2; REQ(h == e, "intersection of plane and triangle reported " << h << ", expected " << e); if (h) chordcheck(s, q[0], q[1], "section of the triangle"); return; }
  bool e = false; W A(0, 0, 0), B(0, 0, 0);
  if (q.size() == 1) return;
  if (q.size() >= 2) { W g = q[1] - q[0], f = q[0] - ctr; double L = g.norm(); if (L < .02) return; g /= L; double t = -f.dot(g), h2 = R * R - (f + g * t).squaredNorm(); if (std::abs(h2) < 1e-4) return; if (h2 > 0) { double lo = std::max(0., t - std::sqrt(h2)), hi = std::min(L, t + std::sqrt(h2)); if (std::abs(lo - hi) < 1e-4) return; e = lo < hi; A = q[0] + g * lo; B = q[0] + g * hi; } }
  bool h = meet(T, D, s, TOL); REQ(h == e, "intersection of triangle and disk reported " << h << ", expected " << e); if (h) chordcheck(s, A, B, "part of the triangle inside the disk");
}
