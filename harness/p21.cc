#include "common.hh"
// attribute vectors: [group tag: 's' scalar, 'v' vector]
struct At { string n; vector<double> v; };
static At sc(char const * n, double x) { return {n, {x}}; } static At ve(char const * n, W const & w) { return {n, {w[0], w[1], w[2]}}; }
typedef vector<At> Ats;
static Ats at(point const & p) { return {ve("point", W(p))}; }
static Ats at(line const & l) { return {ve("origin", W(l.origin())), ve("direction", W(l.direction()))}; }
static Ats at(ray const & l) { return {ve("origin", W(l.origin())), ve("direction", W(l.direction()))}; }
static Ats at(plane const & l) { return {ve("origin", W(l.origin())), ve("normal", W(l.normal()))}; }
static Ats at(segment const & s) { return {ve("vertex0", W(s.vertex(0))), ve("vertex1", W(s.vertex(1)))}; }
static Ats at(triangle const & s) { return {ve("vertex0", W(s.vertex(0))), ve("vertex1", W(s.vertex(1))), ve("vertex2", W(s.vertex(2)))}; }
static Ats at(disk const & d) { return {sc("radius", d.radius()), ve("center", W(d.center())), ve("normal", W(d.normal()))}; }
static Ats at(ball const & d) { return {sc("radius", d.radius()), ve("center", W(d.center()))}; }
static Ats at(aabb const & b) { return {ve("min", W(b.min())), ve("max", W(b.max())), sc("#id", b.id()), sc("#pos", b.pos())}; }
static Ats at(shape const & s) { return {sc("Rx", s.surfaceMaxRadius()), sc("width", s.surfaceWidth()), sc("ra", s.surfaceRadius(.3 * s.surfaceWidth())), sc("rb", s.surfaceRadius(.47 * s.surfaceWidth())), sc("da", s.surfaceDerivative(.4 * s.surfaceWidth())), sc("ab", s.surfaceAngle(.45 * s.surfaceWidth()))}; }
static Ats at(rib const & r) { return {sc("radius", r.radius()), ve("center", W(r.center())), ve("normal", W(r.normal())), sc("width", r.width()), sc("angle", r.angle())}; }
static Ats at(triangleground const & t) { return {ve("vertex0", W(t.vertex(0))), ve("vertex1", W(t.vertex(1))), ve("vertex2", W(t.vertex(2))), sc("friction", t.friction()), sc("#id", t.id()), ve("#normal", W(t.normal())), ve("#min", W(t.bbox().min())), ve("#max", W(t.bbox().max())), sc("#bid", t.bbox().id())}; }
static Ats at(ground::flat const & f) { return {ve("origin", W(f.origin())), ve("normal", W(f.normal())), sc("friction", f.friction())}; }
static void same(Ats const & a, Ats const & b, string const & what, double tol = 0) { for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < a[i].v.size(); ++k) REQ(tol ? near(a[i].v[k], b[i].v[k], tol) : bits(a[i].v[k], b[i].v[k]), what << ": " << a[i].n << "[" << k << "] is " << a[i].v[k] << " instead of " << b[i].v[k]); }
// expected answer of isApprox; 2 = too close to call
static int agree(Ats const & a, Ats const & b, double tol) { int r = 1; for (size_t i = 0; i < a.size(); ++i) { if (a[i].n[0] == '#') continue; double d, lim; if (a[i].v.size() == 1) { d = std::abs(a[i].v[0] - b[i].v[0]); lim = tol; } else { W x(a[i].v[0], a[i].v[1], a[i].v[2]), y(b[i].v[0], b[i].v[1], b[i].v[2]); d = (x - y).norm(); lim = tol * std::min(x.norm(), y.norm()); }
    if (a[i].v.size() > 1 && d == 0) continue; if (d == 0 && lim > 0) continue; if (std::abs(d - lim) <= 1e-9 * (d + lim) + 1e-13) r = r ? 2 : 0; else if (d > lim) r = 0; } return r; }
static double TL;
template<class T> static void approx(T const & a, T const & b, string const & nm) { int e = agree(at(a), at(b), TL); if (e == 2) return; bool g = a.isApprox(b, TL); REQ(g == (e == 1), nm << "::isApprox with tolerance " << TL << " is " << g); }
static double amount() { return P(.5) ? TL * pick({.4, .7, .9, 1.1, 1.4, 1.8, 2.5, 4}) : pick({1e-12, 1e-7, 1e-5, 1e-3, .1, 1}); }
static double jit() { return P(.7) ? 0 : amount() * pick({-1, 1}); }
static W jitv(W const & about) { return P(.7) ? W(0, 0, 0) : W(unitv() * (amount() * (P(.5) ? about.norm() : 1))); }
template<class T> static void both(T const & s, T const & other, string const & nm) { Ats w = at(s); T c(s); same(at(c), w, nm + " copy construction"); T d(other); d = s; same(at(d), w, nm + " assignment"); same(at(s), w, nm + " source after copy"); }
void run_case()
{
  Ctx c; TL = pick({1e-10, 1e-6, 1e-4, 1e-2, .3}); W a = vec(), b = vec(), d = vec(), n = unitv(), a2 = a + jitv(a), b2 = b + jitv(b), d2 = d + jitv(d), n2 = n + jitv(n); double r = std::abs(scalar()), r2 = r + jit(), q = U(0, 2), q2 = std::max(0.0, q + jit());
  int k = K(0, 11); c << "kind " << k << " tolerance " << TL << " a " << a << " a2 " << a2 << " b " << b << " b2 " << b2 << " d " << d << " d2 " << d2 << " n " << n << " n2 " << n2 << " r " << r << " r2 " << r2 << " q " << q << " q2 " << q2;
  switch (k) {
    case 0: both(pt(a), pt(b), "point"); break;
    case 1: { line x(pt(a), vec3(n)), y(pt(a2), vec3(n2)); both(x, y, "line"); approx(x, y, "line"); break; }
    case 2: { ray x(pt(a), vec3(n)), y(pt(a2), vec3(n2)); both(x, y, "ray"); approx(x, y, "ray"); break; }
    case 3: { plane x(pt(a), vec3(n)), y(pt(a2), vec3(n2)); both(x, y, "plane"); approx(x, y, "plane"); break; }
    case 4: { segment x(pt(a), pt(b)), y(pt(a2), pt(b2)); both(x, y, "segment"); approx(x, y, "segment"); break; }
    case 5: { triangle x(pt(a), pt(b), pt(d)), y(pt(a2), pt(b2), pt(d2)); both(x, y, "triangle"); approx(x, y, "triangle"); break; }
    case 6: { disk x(r, pt(a), vec3(n)), y(r2, pt(a2), vec3(n2)); both(x, y, "disk"); approx(x, y, "disk"); break; }
    case 7: { ball x(r, pt(a)), y(r2, pt(a2)); both(x, y, "ball"); approx(x, y, "ball"); break; }
    case 8: { aabb x(pt(a), pt(b), K(0, 9), K(0, 9)), y(pt(a2), pt(b2), 3, 4); both(x, y, "aabb"); approx(x, y, "aabb"); break; }
    case 9: { double R = U(.2, .5), M = U(1.5, 8), S = U(.05, .15), N = U(1.5, 8), L = U(.1, .3); shape x(R, M, S, N, L), y(R + std::abs(jit()), M + std::abs(jit()), S, N + std::abs(jit()), L + std::abs(jit())); Ats w = at(x); shape z(x); same(at(z), w, "shape copy construction"); y.isApprox(x, TL);
      double e[5] = {R, M, S, N, L}, f[5]; for (int i = 0; i < 5; ++i) f[i] = e[i] + std::abs(jit()); shape u(f[0], f[1], f[2], f[3], f[4]); c << " shape " << e[0] << "," << e[1] << "," << e[2] << "," << e[3] << "," << e[4] << " vs " << f[0] << "," << f[1] << "," << f[2] << "," << f[3] << "," << f[4]; int g = 1; for (int i = 0; i < 5; ++i) { double D = std::abs(e[i] - f[i]); if (std::abs(D - TL) < 1e-12) g = g ? 2 : 0; else if (D > TL) g = 0; } if (g != 2) REQ(x.isApprox(u, TL) == (g == 1), "shape::isApprox is " << x.isApprox(u, TL)); u.copy(x); same(at(u), w, "shape::copy"); same(at(x), w, "shape::copy source"); REQ(u.isApprox(x, 1e-12), "copy not equal to source"); break; }
    case 10: { double v[3] = {U(-1, 1), U(0, 1), U(-1, 1)}, w[3] = {v[0] + jit(), v[1] + jit(), v[2] + jit()}; int i1 = K(0, 3), i2 = P(.7) ? i1 : K(0, 3); rib A(i1, r, v[0], v[1], v[2]), B(i2, r2, w[0], w[1], w[2]); c << " rib " << v[0] << "," << v[1] << "," << v[2] << "," << i1 << " vs " << w[0] << "," << w[1] << "," << w[2] << "," << i2;
      int e = agree(at(A), at(B), TL); if (i1 != i2 && TL < 1) e = 0; double D = std::abs(v[0] - w[0]); if (std::abs(D - TL) < 1e-12) e = e ? 2 : 0; else if (D > TL) e = 0; if (e != 2) REQ(A.isApprox(B, TL) == (e == 1), "rib::isApprox is " << A.isApprox(B, TL)); rib Z(A); same(at(Z), at(A), "rib copy construction"); Ats s = at(A); B.copy(A); same(at(B), s, "rib::copy"); same(at(A), s, "rib::copy source"); REQ(B.isApprox(A, 1e-9) || W(A.center()).norm() == 0, "copy not equal to source"); break; }
    default: if (P(.5)) { triangleground x(K(0, 9), q, pt(a), pt(b), pt(d)), y(K(0, 9), q2, pt(a2), pt(b2), pt(d2)); approx(x, y, "triangleground"); Ats s = at(x); y.copy(x); same(at(y), s, "triangleground::copy"); same(at(x), s, "triangleground::copy source"); }
      else { W m = n; m[2] = std::abs(m[2]) + .1; W m2 = m + jitv(m); if (m2[2] <= 0) m2[2] = .1; ground::flat x(q, pt(a), vec3(m)), y(q2, pt(a2), vec3(m2)); c << " flat m " << m << " m2 " << m2; approx(x, y, "flat"); Ats s = at(x); y.copy(x); same(at(y), s, "flat::copy", 1e-15); same(at(x), s, "flat::copy source"); }
  }
}
