#include "common.hh"
using acme::entity;
// three-valued comparison of a quantity with a bound: 1 below, 0 above, -1 too close to call
static int below(double x, double t, double err) { if (std::isnan(x)) return -1; if (x < t - err) return 1; if (x > t + err) return 0; return -1; }
static int and3(int a, int b) { if (a == 0 || b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
struct Ent { int k; W o, d; entity const * e; string n; }; // k 0..2 straight (line, ray, segment), 3..5 planar (plane, triangle, disk)
static bool planar(Ent const & e) { return e.k > 2; }
static line * L_; static ray * Y_; static segment * G_; static plane * P_; static triangle * T_; static disk * D_;
#define L L_
#define Y Y_
#define G G_
#define PL_ P_
#define T T_
#define D D_
static void alloc() { if (!L_) { L_ = new line[2]; Y_ = new ray[2]; G_ = new segment[2]; P_ = new plane[2]; T_ = new triangle[2]; D_ = new disk[2]; } }
static Ent make(int i, int k, W const & o, W const & d)
{
  Ent e; e.k = k; e.o = o; e.d = d; W a, b, h = unitv(); while (std::abs(h.dot(d)) > .9) h = unitv(); a = (h - d * d.dot(h)).normalized(); b = d.cross(a);
  switch (k) {
    case 0: L[i] = line(pt(o), vec3(d)); e.e = &L[i]; e.n = "line"; break;
    case 1: Y[i] = ray(pt(o), vec3(d)); e.e = &Y[i]; e.n = "ray"; break;
    case 2: { double l = P(.5) ? 1 : U(.3, 3); G[i] = segment(pt(o), pt(o + d * l)); e.e = &G[i]; e.n = "segment"; break; }
    case 3: PL_[i] = plane(pt(o), vec3(d)); e.e = &PL_[i]; e.n = "plane"; break;
    case 4: { double r = U(.5, 2); W v[3]; for (int j = 0; j < 3; ++j) v[j] = o + a * (r * cos(2.0943951023931953 * j)) + b * (r * sin(2.0943951023931953 * j)); T[i] = triangle(pt(v[0]), pt(v[1]), pt(v[2])); e.e = &T[i]; e.n = "triangle"; break; }
    default: D[i] = disk(U(.2, 2), pt(o), vec3(d)); e.e = &D[i]; e.n = "disk"; }
  return e;
}
static int one(int f, entity const * a, entity const * b, double tol) { return f == 0 ? acme::IsParallel(a, b, tol) : f == 1 ? acme::IsOrthogonal(a, b, tol) : f == 2 ? acme::IsCollinear(a, b, tol) : acme::IsCoplanar(a, b, tol); }
#define CALLS(A, B) (f == 0 ? acme::IsParallel(A, B, tol) : f == 1 ? acme::IsOrthogonal(A, B, tol) : acme::IsCoplanar(A, B, tol))
#define CALLC(A, B) (f == 2 ? acme::IsCollinear(A, B, tol) : CALLS(A, B))
// the overload on the two types, where there is one (first entity of type i <= second of type j)
static int typed(int f, int i, int a, int j, int b, double tol)
{
  switch (i * 10 + j) {
    case 0: return CALLC(L[a], L[b]); case 1: return CALLC(L[a], Y[b]); case 2: return CALLC(L[a], G[b]); case 11: return CALLC(Y[a], Y[b]); case 12: return CALLC(Y[a], G[b]); case 22: return CALLC(G[a], G[b]);
    case 3: return f == 2 ? 0 : CALLS(L[a], PL_[b]); case 4: return f == 2 ? 0 : CALLS(L[a], T[b]); case 5: return f == 2 ? 0 : CALLS(L[a], D[b]);
    case 13: return f == 2 ? 0 : CALLS(Y[a], PL_[b]); case 14: return f == 2 ? 0 : CALLS(Y[a], T[b]); case 15: return f == 2 ? 0 : CALLS(Y[a], D[b]);
    case 23: return f == 2 ? 0 : CALLS(PL_[b], G[a]); case 24: return f == 2 ? 0 : CALLS(G[a], T[b]); case 25: return f == 2 ? 0 : CALLS(G[a], D[b]);
    case 33: return f == 2 ? 0 : CALLS(PL_[a], PL_[b]); case 34: return f == 2 ? 0 : CALLS(PL_[a], T[b]); case 35: return f == 2 ? 0 : CALLS(PL_[a], D[b]);
    case 44: return f == 2 ? 0 : CALLS(T[a], T[b]); case 45: return f == 2 ? 0 : CALLS(T[a], D[b]); case 55: return f == 2 ? 0 : CALLS(D[a], D[b]);
    default: return -1;
  }
}
void run_case()
{
  alloc(); Ctx c; int i = K(0, 5), j = K(0, 5); double tol = P(.5) ? TOL : pick({1e-6, 1e-3, 1e-2, 0.1, 0});
  W d0 = unitv(), h = unitv(); while (std::abs(h.dot(d0)) > .9) h = unitv(); W p = (h - d0 * d0.dot(h)).normalized(), q = d0.cross(p); double an = U(-3.2, 3.2); W pp = p * cos(an) + q * sin(an);
  double off[] = {0, tol / 2, 2 * tol, 10 * tol, .3}; double s = off[K(0, 4)]; W d1;
  switch (K(0, 3)) { case 0: d1 = d0 * cos(s) + pp * sin(s); break; case 1: d1 = -(d0 * cos(s) + pp * sin(s)); break; case 2: d1 = pp * cos(s) + d0 * sin(s); break; default: d1 = unitv(); } if (s == 0 && P(.5)) d1 = P(.5) ? d0 : W(-d0);
  W o0 = vec(3), o1; double m = off[K(0, 4)], r = U(-3, 3), r2 = U(-2, 2); W cr = d0.cross(d1);
  switch (K(0, 5)) { case 0: o1 = o0 + d0 * r + pp * m; break; case 1: o1 = o0 + p * r + q * r2 + d0 * m; break; case 2: o1 = o0 + d0 * r + d1 * r2 + (cr.norm() > 1e-6 ? W(cr.normalized() * m) : W(0, 0, 0)); break; case 3: o1 = o0 + d1 * r + d0.cross(d1) * m; break; case 4: o1 = o0 + d1.cross(pp) * r + d1 * m; break; default: o1 = vec(3); }
  Ent a = make(0, i, o0, d0), b = make(1, j, o1, d1); c << a.n << " " << a.o << a.d << " and " << b.n << " " << b.o << b.d << " tolerance " << tol;
  W jn = o0 - o1; double e = 1e-3 * tol + 1e-11 * (1 + jn.norm()); bool pa = planar(a), pb = planar(b); int par = below(cr.norm(), tol, e), per = below(std::abs(d0.dot(d1)), tol, e);
  string names[] = {"parallel", "orthogonal", "collinear", "coplanar"};
  for (int f = 0; f < 4; ++f) {
    int x = -1, y = -1;   // the joining vector may be compared with either direction
    if (f == 0) x = y = pa == pb ? par : per; else if (f == 1) x = y = pa == pb ? per : par;
    else if (f == 2) { if (pa || pb) x = y = 0; else { x = and3(par, below(d0.cross(jn).norm(), tol, e)); y = and3(par, below(d1.cross(jn).norm(), tol, e)); } }
    else if (!pa && !pb) { double cn = cr.norm(), jl = jn.norm(), v = std::abs(jn.dot(cr)); if (cn < 1e-7 || jl < 1e-7 || v < 1e-10) x = y = (tol > 1e-9 && (jl == 0 || (cn > 1e-5 && jl > 1e-5 && v < 1e-12))) ? 1 : -1; else x = y = below(v, tol * cn * jl, 1e-3 * tol * cn * jl + 1e-13 * (1 + jl)); }
    else if (pa != pb) { W n = pa ? d0 : d1; double jl = jn.norm(), v = std::abs(jn.dot(n)); x = y = and3(per, jl < 1e-9 ? (jl == 0 && tol > 1e-9 && b.k != 4 && a.k != 4 ? 1 : -1) : below(v, tol * jl, 1e-3 * tol * jl + 1e-13 * (1 + jl))); }
    else { x = and3(par, below(std::abs(d0.dot(jn)), tol, e)); y = and3(par, below(std::abs(d1.dot(jn)), tol, e)); }
    if (x != y) continue;
    int g = one(f, a.e, b.e, tol), s2 = one(f, b.e, a.e, tol); if (f < 2 && par >= 0 && per >= 0) REQ(g == s2, names[f] << " depends on the order of the entities: " << g << " / " << s2);
    if (x < 0) continue;
    REQ(g == x, a.n << " and " << b.n << " reported " << names[f] << ": " << g << ", expected " << x); REQ(s2 == x, b.n << " and " << a.n << " (exchanged) reported " << names[f] << ": " << s2 << ", expected " << x);
    int t = i <= j ? typed(f, i, 0, j, 1, tol) : typed(f, j, 1, i, 0, tol); if (t >= 0) REQ(t == x, "overload on " << a.n << " and " << b.n << " reported " << names[f] << ": " << t << ", expected " << x);
  }
  vec3 u(d0); int k = -1, w = -1; switch (j) { case 0: k = acme::IsParallel(u, L[1], tol); w = acme::IsOrthogonal(u, L[1], tol); break; case 1: k = acme::IsParallel(u, Y[1], tol); w = acme::IsOrthogonal(u, Y[1], tol); break; case 2: k = acme::IsParallel(u, G[1], tol); w = acme::IsOrthogonal(u, G[1], tol); break; case 3: k = acme::IsParallel(u, PL_[1], tol); w = acme::IsOrthogonal(u, PL_[1], tol); break; case 4: k = acme::IsParallel(u, T[1], tol); w = acme::IsOrthogonal(u, T[1], tol); break; default: k = acme::IsParallel(u, D[1], tol); w = acme::IsOrthogonal(u, D[1], tol); }
  int xp = pb ? per : par, xo = pb ? par : per; REQ(xp < 0 || xp == k, "vector and " << b.n << " reported parallel: " << k); REQ(xo < 0 || xo == w, "vector and " << b.n << " reported orthogonal: " << w);
}
