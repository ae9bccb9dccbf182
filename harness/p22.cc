#include "common.hh"
static double TL;
static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)) + 1e-13; }
static void judge(acme::entity const & e, point const & x, bool want, bool got, std::function<bool(point &)> overload)
{
  string n = e.type(); REQ(got == want, n << "::isInside reported " << got << ", expected " << want);
  point out(7, 7, 7); bool h = overload(out); REQ(h == want, "intersection of point and " << n << " reported " << h << ", expected " << want); if (h) REQ(bits(out[0], x[0]) && bits(out[1], x[1]) && bits(out[2], x[2]), "intersection of point and " << n << " is " << W(out).transpose());
  for (int s = 0; s < 2; ++s) { acme::entity * r = s ? acme::Intersection(&e, (acme::entity const *)&x, TL) : acme::Intersection((acme::entity const *)&x, &e, TL); point * q = dynamic_cast<point *>(r); REQ(want ? q != nullptr && near(W(*q), W(x), 0) : r->isNone(), "entities point and " << n << (s ? " (swapped)" : "") << ": a " << r->type()); delete r; }
}
#define JUDGE(E, X, WANT) do { auto const & e_ = E; judge(e_, X, WANT, e_.isInside(X, TL), [&](point & o_) { return acme::Intersection(X, e_, o_, TL); }); } while (0)
static W across(W const & n) { W h = unitv(); while (std::abs(h.dot(n)) > .95) h = unitv(); return (h - n * n.dot(h)).normalized(); }
static double eps() { return P(.4) ? 0 : pick({.2, .5, .9, 1.1, 2, 20}) * TL * pick({-1, 1}); }
void run_case()
{
  Ctx c; TL = pick({TOL, 1e-5, 1e-3, .05}); W o = vec(), d = unitv(); int z = K(0, 7); c << "kind " << z << " tolerance " << TL;
  if (z <= 1) { // line, ray
    double t = P(.1) ? 0 : U(-4, 4), L = std::abs(t); W x = o + d * t + across(d) * (eps() * L + (P(.2) ? U(-1, 1) : 0)); c << o << d << x; point X = pt(x); W w = W(X) - o; L = w.norm();
    if (L > 0 && L < 1e-3) return; double s = L ? (w / L).cross(d).norm() : 0; if (close(s, TL) || std::abs(s - TL) < 1e-12 * (1 + o.norm())) return; bool in = s < TL;
    if (z == 0) JUDGE(line(pt(o), vec3(d)), X, in); else { double f = w.dot(d); if (L > 0 && std::abs(f) < 1e-9) return; JUDGE(ray(pt(o), vec3(d)), X, in && f >= 0); } return;
  }
  if (z == 2) { // segment
    W b = o + d * (P(.3) ? 1 : U(.1, 5)); double l = (b - o).norm(), t = P(.2) ? K(0, 1) : U(-.3, 1.3), e = eps(); W x = o + d * (t * l) + across(d) * (P(.3) ? U(-1, 1) : std::sqrt(std::abs(e) * l * .5)); if (P(.3)) x = o + d * (t < .5 ? -e / 2 : l + e / 2); c << o << b << x; point X = pt(x);
    double s = (b - o).norm() - ((x - o).norm() + (x - b).norm()); if (std::abs(std::abs(s) - TL) < 1e-11 * (1 + o.norm())) return; JUDGE(segment(pt(o), pt(b)), X, std::abs(s) <= TL); return;
  }
  if (z == 3 || z == 4) { // plane, disk
    W a = across(d), b = d.cross(a); double R = P(.3) ? 1 : U(.1, 4), f = R * (P(.3) ? pick({0, .999, 1.001, 1 - 1e-7, 1 + 1e-7}) : U(0, 1.5)), an = U(-3.2, 3.2), h = P(.2) ? U(-1, 1) : eps(); W x = o + (a * cos(an) + b * sin(an)) * f + d * h; c << R << o << d << x; point X = pt(x);
    double s = std::abs(d.dot(W(X) - o)), q = (W(X) - o).norm(); if (std::abs(s - TL) < 1e-11 * (1 + o.norm())) return; if (z == 3) { JUDGE(plane(pt(o), vec3(d)), X, s < TL); return; }
    if (std::abs(q - R) < 1e-12 * (1 + o.norm())) return; JUDGE(disk(R, pt(o), vec3(d)), X, s < TL && q <= R); return;
  }
  if (z == 5) { double R = U(.1, 4); W x = o + unitv() * (R * (P(.3) ? pick({0, .999, 1.001, 1 - 1e-7, 1 + 1e-7}) : U(0, 2))); c << R << o << x; double q = (x - o).norm(); if (std::abs(q - R) < 1e-12 * (1 + o.norm())) return; bool g = ball(R, pt(o)).isInside(pt(x), TL); REQ(g == (q <= R), "ball::isInside reported " << g); return; }
  if (z == 6) { // triangle
    W B = o + vec(3), C = o + vec(3), n = (B - o).cross(C - o); if (n.norm() < .1) return; double v[3]; for (double & q : v) q = P(.3) ? eps() : P(.1) ? 1 + eps() : U(-.3, 1.3); v[2] = 1 - v[0] - v[1]; if (P(.3)) { v[2] = eps(); v[0] = 1 - v[1] - v[2]; }
    double h = P(.2) ? U(-1, 1) : eps(); W x = o * v[0] + B * v[1] + C * v[2] + n.normalized() * h; if (P(.1)) x = x + n.normalized() * (P(.5) ? .5 : -.5); c << o << B << C << x; point X = pt(x); double hh = std::abs(n.normalized().dot(x - o)), m = 1e-11 * (1 + o.norm()) * (1 + o.norm()); bool in = hh < TL; if (std::abs(hh - TL) < m) return;
    for (double q : v) { if (std::abs(q + TL) < m || std::abs(q - 1 - TL) < m) return; in = in && q >= -TL && q <= 1 + TL; }
    JUDGE(triangle(pt(o), pt(B), pt(C)), X, in); return;
  }
  // two points
  W x = o + unitv() * (eps() * o.norm()); if (P(.2)) x = vec(); c << o << x; point A = pt(o), X = pt(x); double s = (x - o).norm(), l = TL * std::min(x.norm(), o.norm()); if (s > 0 && close(s, l)) return; if (s > 0 && std::abs(s - l) < 1e-12 * l + 1e-15) return;
  bool want = s <= l; point out(7, 7, 7); bool h = acme::Intersection(X, A, out, TL); REQ(h == want, "two points " << o.transpose() << " and " << x.transpose() << " reported " << h); if (h) REQ(near(W(out), x, 2 * TL), "the reported point is " << W(out).transpose());
  acme::entity * r = acme::Intersection((acme::entity const *)&X, (acme::entity const *)&A, TL); REQ(want ? r->isPoint() : r->isNone(), "two points as entities: a " << r->type()); delete r;
}
