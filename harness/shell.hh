// Independent oracle of the shell, used by the shell harnesses.
#pragma once
#include "ground.hh"
static struct NoEdge { NoEdge() { EDGE = false; } } NOEDGE;
struct Prof { double Rx, Mx, Ry, My, Ly; double rad(double y) const { return Rx * std::pow(1 - std::pow(std::abs(y) / Ry, My), 1 / Mx); }
  double slope(double y) const { if (std::abs(y) <= TOL) return 0; double t = std::pow(std::abs(y) / Ry, My); return -(y > 0 ? 1 : -1) * Rx / Mx * std::pow(1 - t, 1 / Mx - 1) * My * t / std::abs(y); } };
static Prof rndprof() { Prof p; p.Rx = U(.15, 1); p.Mx = P(.3) ? K(1, 12) : U(.8, 12); p.Ry = U(.1, .5); p.My = P(.3) ? K(1, 12) : U(.8, 12); p.Ly = U(.2, .95) * p.Ry; return p; }
static vector<Rib> ribsof(Prof const & p, int n) { vector<Rib> v(n); for (int i = 0; i < n; ++i) { v[i].y = -p.Ly + (2 * i + 1) * p.Ly / n; v[i].w = 2 * p.Ly / n; v[i].R = p.rad(v[i].y); } return v; }
static void put(Ctx & c, Prof const & p, int n) { c << "shell n=" << n << " Rx=" << p.Rx << " Mx=" << p.Mx << " Ry=" << p.Ry << " My=" << p.My << " Ly=" << p.Ly; }
// triangles whose box overlaps the cube around the pose; false when too close to call
static bool local(vector<Tri> const & g, affine const & p, double R, vector<Tri> & out)
{
  W c = org(p); out.clear(); for (Tri const & t : g) { bool in = true; for (int i = 0; i < 3; ++i) { double lo = std::min(std::min(t.v[0][i], t.v[1][i]), t.v[2][i]), hi = std::max(std::max(t.v[0][i], t.v[1][i]), t.v[2][i]); double a = c[i] + R - lo, b = hi - c[i] + R; if (std::abs(a) < 1e-9 || std::abs(b) < 1e-9) return false; in = in && a > 0 && b > 0; } if (in) out.push_back(t); }
  return true;
}
static Got slot(shell const & s, size_t i) { Got g; point p; vec3 n; s.contactPoint(i, p); s.contactNormal(i, n); s.contactFriction(i, g.friction); s.contactDepth(i, g.depth); s.contactArea(i, g.area); s.contactVolume(i, g.volume); g.point = W(p); g.normal = W(n); g.hit = false; return g; }
static void cmpslot(Res const & e, shell const & s, size_t i, string const & w) { if (e.hit < 0) return; Got g = slot(s, i); g.hit = e.hit == 1; cmp(e, g, w + STR1(", rib " << i)); }
static vector<Tri> shellpatch(Prof const & p, affine const & a, double far) { W c = org(a); double z = P(far) ? -U(1, 4) * p.Rx * 2 : -U(-.2, 1.1) * p.Rx; return patch(c[0], c[1], c[2] + z, P(.4) ? 2.5 * p.Rx : U(.6, 1.5) * p.Rx); }
static affine shellpose() { return ribpose(1); }
// Z-X-Y angles e describe the rotation M
static string badangles(W const & e, M3 const & M)
{
  double c2 = std::hypot(M(2, 2), M(2, 0)); if (c2 < 1e-3) return "";
  M3 Q = rotz(e[0]) * rotx(e[1]) * roty(e[2]); if ((Q - M).norm() > 1e-6) return STR1("angles " << e.transpose() << " do not reproduce the rotation");
  if (std::abs(std::sin(e[0])) > 1e-6 && (e[0] < -1e-6 || e[0] > 3.1415927)) return STR1("first angle " << e[0] << " outside [0, pi]");
  return "";
}
static string badframe(affine const & f, W const & point_, W const & n, W const & y)
{
  W x = y.cross(n); if (x.norm() < 1e-4) return ""; x /= x.norm(); W v = n.cross(x); v /= v.norm();
  if (!near(W(lin(f).col(0)), x, 1e-7)) return "x axis"; if (!near(W(lin(f).col(1)), v, 1e-7)) return "y axis"; if (!near(W(lin(f).col(2)), n, 1e-9)) return "z axis"; if (!near(org(f), point_, 1e-9)) return "origin";
  for (int i = 0; i < 4; ++i) if (f.matrix()(3, i) != (i == 3)) return "last row"; return "";
}
static M3 rel(affine const & f, M3 const & A) { return lin(f).transpose() * A; }
struct Scene { Prof pr; int n; std::shared_ptr<shell> s; affine pose; };
// a shell evaluated against random ground (several times, so that earlier results are there to be overwritten)
static void evaluate(Ctx & c, Scene & z)
{
  z.pr = rndprof(); z.n = K(1, 6); put(c, z.pr, z.n); z.s = std::make_shared<shell>(z.n, z.pr.Rx, z.pr.Mx, z.pr.Ry, z.pr.My, z.pr.Ly); int k = K(1, 2); bool keep = false;
  for (int i = 0; i < k; ++i) {
    if (!keep) z.pose = shellpose(); string m = meth(); c << "\n evaluation " << i << " " << z.pose << " " << m;
    if (P(.5)) { Rib b; b.R = z.pr.Rx; b.y = 0; b.w = 0; Flat f = rndflat(b, z.pose); put(c, f); ground::flat g(f.mu, pt(f.o), vec3(f.n)); z.s->setup(g, z.pose, m); }
    else { vector<Tri> t = shellpatch(z.pr, z.pose, .15); if (t.empty()) { --i; continue; } put(c, t); ground::mesh g(mk(t)); z.s->setup(g, z.pose, m); }
  }
}
