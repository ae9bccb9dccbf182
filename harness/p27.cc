#include "common.hh"
#include <memory>
static void box(acme::entity const & e, W const & lo, W const & hi, bool can)
{
  W s = vec(), t = vec(); vec3 a(s), b(t); bool h = e.clamp(a, b); REQ(h == can, e.type() << "::clamp returned " << h); double q[6]; for (int i = 0; i < 3; ++i) { q[i] = s[i]; q[3 + i] = t[i]; }
  bool h2 = e.clamp(q[0], q[1], q[2], q[3], q[4], q[5]); REQ(h2 == can, e.type() << "::clamp (numbers) returned " << h2); W l = can ? lo : s, u = can ? hi : t;
  for (int i = 0; i < 3; ++i) { REQ(near(a[i], l[i], 1e-14) && near(b[i], u[i], 1e-14), e.type() << " box along " << i << " is [" << a[i] << "," << b[i] << "] expected [" << l[i] << "," << u[i] << "]");
    REQ(near(q[i], l[i], 1e-14) && near(q[3 + i], u[i], 1e-14), e.type() << " box (numbers) along " << i << " is [" << q[i] << "," << q[3 + i] << "] expected [" << l[i] << "," << u[i] << "]"); }
}
static double gap(double tol) { return P(.3) ? 0 : tol * pick({.3, .9, .99, 1.01, 1.1, 3}); }
void run_case()
{
  Ctx c; int k = K(0, 8); double tol = pick({TOL, 1e-6, 1e-3, .1, 1}), r = P(.4) ? gap(tol) : U(0, 5), s = P(.4) ? gap(tol) : U(0, 5); bool small = P(.5); W a = small ? vec(1) : vec(), b = P(.4) ? W(a + unitv() * gap(tol)) : vec(), d = P(.3) ? W((P(.5) ? a : b) + unitv() * gap(tol)) : vec(), n = unitv() * s;
  std::unique_ptr<acme::entity> e; W lo(0, 0, 0), hi(0, 0, 0), R(r, r, r); bool can = false, deg = false, sure = true; double m = 1e-12 * (1 + a.norm() + b.norm() + d.norm());
  auto sm = [&](double x) { if (std::abs(x - tol) < m) sure = false; return x < tol; };
  const char * T[] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball"}; int LV[] = {0, 1, 3, 4, 5, 6, 7, 8, 9};
  switch (k) {
    case 0: e.reset(new acme::none()); break;
    case 1: e.reset(new point(pt(a))); lo = hi = a; can = true; break;
    case 2: e.reset(new line(pt(a), vec3(n))); deg = sm(n.norm()); break; case 3: e.reset(new ray(pt(a), vec3(n))); deg = sm(n.norm()); break; case 4: e.reset(new plane(pt(a), vec3(n))); deg = sm(n.norm()); break;
    case 5: e.reset(new segment(pt(a), pt(b))); lo = a.cwiseMin(b); hi = a.cwiseMax(b); can = true; deg = sm((a - b).norm()); break;
    case 6: { e.reset(new triangle(pt(a), pt(b), pt(d))); lo = a.cwiseMin(b).cwiseMin(d); hi = a.cwiseMax(b).cwiseMax(d); can = true; bool x = sm((a - b).norm()), y = sm((b - d).norm()), z = sm((d - a).norm()); deg = x || y || z; break; }
    case 7: { e.reset(new disk(r, pt(a), vec3(n))); lo = a - R; hi = a + R; can = true; bool x = sm(r), y = sm(n.norm()); deg = x || y; break; }
    default: e.reset(new ball(r, pt(a))); lo = a - R; hi = a + R; can = true; deg = sm(r);
  }
  c << T[k] << a << b << d << " normal " << n << " r " << r << " tolerance " << tol;
  bool is[] = {e->isNone(), e->isPoint(), e->isLine(), e->isRay(), e->isPlane(), e->isSegment(), e->isTriangle(), e->isDisk(), e->isBall()};
  for (int i = 0; i < 9; ++i) REQ(is[i] == (i == k), T[k] << " answers " << is[i] << " to being a " << T[i]);
  REQ(e->type() == T[k], T[k] << " has type " << e->type()); REQ(e->level() == LV[k], T[k] << " has level " << e->level());
  bool open = k >= 2 && k <= 4; REQ(e->isClampable() == can, T[k] << " isClampable"); REQ(e->isNonClampable() == open, T[k] << " isNonClampable");
  box(*e, lo, hi, can);
  if (k == 0) REQ(e->isDegenerated(tol) && e->isDegenerated(), "nothing is not degenerated");
  if (k > 0 && sure) { bool g = e->isDegenerated(tol); REQ(g == deg, T[k] << " isDegenerated answered " << g); if (tol == TOL) REQ(e->isDegenerated() == deg, T[k] << " isDegenerated with the default tolerance"); }
}
