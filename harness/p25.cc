#include "common.hh"
static double par() { double k[] = {0, 1, -TOL / 2, -2 * TOL, 1 + TOL / 2, 1 + 2 * TOL, 0.5, TOL, 1 - TOL}; if (P(.4)) return k[K(0, 8)]; return P(.5) ? U(-.2, 1.2) : U(-4, 4); }
static bool far(double a, double b) { return std::abs(a - b) > 1e-10; }
static W v3() { return P(.3) ? W(K(-2, 2), K(-2, 2), K(-2, 2)) : vec(3); }
static W across(W const & n) { W h = unitv(); while (std::abs(h.dot(n)) > .95) h = unitv(); return (h - n * n.dot(h)).normalized(); }
static vector<W> nums(point const & x) { return {W(x)}; }
static vector<W> nums(segment const & x) { return {W(x.vertex(0)), W(x.vertex(1))}; }
static vector<W> nums(triangle const & x) { return {W(x.vertex(0)), W(x.vertex(1)), W(x.vertex(2))}; }
static vector<W> nums(line const & x) { return {W(x.origin()), W(x.direction())}; }
static vector<W> nums(ray const & x) { return {W(x.origin()), W(x.direction())}; }
static vector<W> nums(plane const & x) { return {W(x.origin()), W(x.normal())}; }
static vector<W> nums(disk const & x) { return {W(x.radius(), 0, 0), W(x.center()), W(x.normal())}; }
// want: 0 no, 1 yes; the pair given by type, then as entities in both orders. rel: 'c' collinear, 'p' coplanar, 'g' neither
template<class A, class B, class O> static bool ask(A const & x, B const & y, O & o, bool want, char rel, bool given = true)
{
  bool h = acme::Intersection(x, y, o, TOL); REQ(h == want, "intersection of " << x.type() << " and " << y.type() << " reported " << h << ", expected " << want);
  if (given && P(.5)) for (int s = 0; s < 2; ++s) {
    acme::entity const * a = s ? (acme::entity const *)&y : &x, * b = s ? (acme::entity const *)&x : &y; bool col = acme::IsCollinear(a, b), cop = acme::IsCoplanar(a, b);
    if (rel == 'c' ? !col : rel == 'p' ? col || !cop : col || cop) continue;
    acme::entity * r = acme::Intersection(a, b, TOL); O * q = dynamic_cast<O *>(r); REQ(want ? q != nullptr : r->isNone(), "given as entities (" << a->type() << ", " << b->type() << ") the result is a " << r->type() << ", the overload reported " << h);
    if (want) { O w; bool g = s && x.level() == y.level() ? acme::Intersection(*(A const *)(void const *)dynamic_cast<A const *>(a), *dynamic_cast<B const *>(b), w, TOL) : (w = o, true); auto m = nums(*q), n = nums(w); if (g) for (size_t i = 0; i < m.size(); ++i) REQ(near(m[i], n[i], 1e-12), "given as entities the result is " << m[i].transpose() << ", the overload yields " << n[i].transpose()); }
    delete r;
  }
  return h;
}
static void seg(segment const & s, W const & e0, W const & e1, double tol = 1e-6)
{
  W a(s.vertex(0)), b(s.vertex(1)); bool d = (a - e0).norm() < tol && (b - e1).norm() < tol, r = (a - e1).norm() < tol && (b - e0).norm() < tol;
  REQ(d || r, "the ends are " << a.transpose() << " / " << b.transpose() << ", expected " << e0.transpose() << " / " << e1.transpose());
}
static bool inr(int k, double t) { return k == 0 || (t >= -TOL && (k == 1 || t <= 1 + TOL)); }
static bool edge(int k, double t) { return k && (!far(t, -TOL) || (k == 2 && !far(t, 1 + TOL))); }
// straight entity k (0 line, 1 ray, 2 segment) with origin o and direction d (segments: to o + d)
template<class F> static void straight(int k, W const & o, W const & d, F f) { if (k == 0) f(line(pt(o), vec3(d))); else if (k == 1) f(ray(pt(o), vec3(d))); else f(segment(pt(o), pt(o + d))); }
struct Ask { point out; bool want; char rel; W x; double tol;
  template<class A, class B> void operator()(A const & a, B const & b) { out = point(9, 9, 9); if (ask(a, b, out, want, rel)) REQ((W(out) - x).norm() < tol, "the reported point is " << W(out).transpose() << ", expected " << x.transpose()); } };
template<class A> static void second(Ask & q, A const & a, int l, W const & o, W const & d);
template<> void second(Ask & q, line const & a, int l, W const & o, W const & d) { straight(l, o, d, [&](auto const & b) { q(a, b); }); }
template<> void second(Ask & q, ray const & a, int l, W const & o, W const & d) { if (l == 1) q(a, ray(pt(o), vec3(d))); else q(a, segment(pt(o), pt(o + d))); }
template<> void second(Ask & q, segment const & a, int, W const & o, W const & d) { q(a, segment(pt(o), pt(o + d))); }
static bool chord(vector<W> const & V, W const & o, W const & n, W & a, W & b) // triangle and plane in general position
{
  vector<W> q; double d[3]; for (int i = 0; i < 3; ++i) d[i] = n.dot(V[i] - o);
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; if (d[i] * d[j] < 0) q.push_back(V[i] + (V[j] - V[i]) * (d[i] / (d[i] - d[j]))); } if (q.size() < 2) return false; a = q[0]; b = q[1]; return true;
}
static bool tinside(vector<W> const & V, W const & o, W const & d, double & lo, double & hi, bool & bad) // chord of a line through a coplanar triangle
{
  W n = (V[1] - V[0]).cross(V[2] - V[0]); vector<double> t; bad = false; W m = n.cross(d).normalized(); double e[3]; for (int i = 0; i < 3; ++i) { e[i] = m.dot(V[i] - o); if (std::abs(e[i]) < 1e-3) bad = true; }
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; if (e[i] * e[j] < 0) t.push_back((V[i] + (V[j] - V[i]) * (e[i] / (e[i] - e[j])) - o).dot(d) / d.squaredNorm()); } if (t.size() < 2) return false; lo = std::min(t[0], t[1]); hi = std::max(t[0], t[1]); if (hi - lo < 1e-3) bad = true; return true;
}
static void crossing(Ctx & c)
{
  int k = K(0, 2), l = K(k, 2); W X = v3(), d = unitv(), n = across(d), m = d.cross(n); double an = P(.15) ? pick({0, 1e-9, TOL / 2, 2 * TOL, 1e-6}) : U(.02, 3.1), a = par(), b = par(); W e = d * cos(an) + n * sin(an);
  if (k == 2) d *= P(.3) ? 1 : U(.1, 4); if (l == 2) e *= P(.3) ? 1 : U(.1, 4); if (sin(an) < .01 && sin(an) > 0) { X = W(0, 0, 0); a = b = 0; } double g = P(.5) ? 0 : P(.5) ? pick({.5, -.5, 2, -2, 1e4}) * TOL : U(-1, 1); W o = X - d * a, p = X + m * g - e * b; c << "crossing " << k << l << o << d << p << e;
  if (edge(k, a) || edge(l, b)) return; double s = d.normalized().cross(e.normalized()).norm(); if (std::abs(s - TOL) < 1e-10) return; if (s == 0 || (s < .01 && (k == 0 && l == 2))) return;
  Ask q; q.want = s >= TOL && std::abs(g) <= TOL && inr(k, a) && inr(l, b); q.rel = g == 0 ? 'p' : 'g'; q.x = X; q.tol = 1e-8 / std::min(1., s * s); if (s < .01) { if (q.want && P(.5)) return; q.rel = '-'; } straight(k, o, d, [&](auto const & A) { second(q, A, l, p, e); });
}
static void withball(Ctx & c)
{
  int k = K(0, 2); W ctr = v3(), d = unitv(); double R = U(.1, 3), f = R * (P(.2) ? pick({0, .9999, 1.0001, 1 + 1e-6}) : U(0, 1.5)), t0 = P(.3) ? 0 : U(-4, 4); W foot = ctr + across(d) * f, o = foot + d * t0; double L = P(.3) ? 1 : U(.1, 6); if (k == 2) d *= L; else L = 1;
  c << "ball " << R << ctr << " straight " << k << o << d; double D = R * R - f * f; if (std::abs(D - TOL) < 1e-10) return; double h = std::sqrt(std::max(0., D)), lo = -t0 - h, hi = -t0 + h; if (std::abs(lo) < 1e-9 || std::abs(hi) < 1e-9 || (k == 2 && (std::abs(L - lo) < 1e-9 || std::abs(L - hi) < 1e-9))) return;
  bool want = D > TOL && (k == 0 || hi >= 0) && (k < 2 || lo <= L); W u = d / L; segment s(9, 9, 9, 9, 9, 9); ball B(R, pt(ctr)); straight(k, o, d, [&](auto const & A) { ask(A, B, s, want, 'g'); });
  if (want) { W e0 = o + u * (k ? std::max(0., lo) : lo), e1 = o + u * (k == 2 ? std::min(L, hi) : hi); seg(s, e0, e1, 1e-7 + 1e-12 / h); W a(s.vertex(0)), b(s.vertex(1)); if (k == 0) REQ((b - a).dot(u) >= 0, "the ends are in the order opposite to the direction"); }
}
static void axis(Ctx & c) // collinear pairs
{
  W O = v3(), d = unitv(); double t[4]; for (double & x : t) x = P(.3) ? K(-2, 2) : U(-4, 4); if (P(.2)) t[2] = t[1] + pick({0, 1, -1}) * pick({.2, .8, 3}) * TOL; if (std::abs(t[0] - t[1]) < .05 || std::abs(t[2] - t[3]) < .05) return;
  W p[4]; for (int i = 0; i < 4; ++i) p[i] = O + d * t[i]; int s0 = P(.5) ? 1 : -1, s1 = P(.5) ? 1 : -1, k = K(0, 5); c << "collinear " << k << O << d; for (double x : t) c << " " << x; c << " " << s0 << " " << s1;
  line l0(pt(p[0]), vec3(d * s0)); ray r0(pt(p[0]), vec3(d * s0)), r1(pt(p[1]), vec3(d * s1)); segment g0(pt(p[0]), pt(p[1])), g1(pt(p[2]), pt(p[3])), s(9, 9, 9, 9, 9, 9); line l(9, 9, 9, 0, 0, 1); ray r(9, 9, 9, 0, 0, 1);
  auto same = [&](vector<W> const & a, vector<W> const & b) { for (size_t i = 0; i < a.size(); ++i) REQ(near(a[i], b[i], 1e-12), "the overlap is " << a[i].transpose() << ", expected " << b[i].transpose()); };
  if (k == 0) { ask(l0, line(pt(p[1]), vec3(d * s1)), l, true, 'c'); same(nums(l), nums(l0)); return; }
  if (k == 1) { ask(l0, r1, r, true, 'c'); same(nums(r), nums(r1)); return; }
  if (k == 2) { ask(l0, g1, s, true, 'c'); same(nums(s), nums(g1)); return; }
  if (k == 3) { // rays
    double a = t[0] * s0, b = t[1] * s0; if (s0 == s1) { ask(r0, r1, r, true, 'c'); same({W(r.origin()), W(r.direction())}, {W(a >= b ? p[0] : p[1]), W(d * s0)}); return; }
    bool want = a <= b; ask(r0, r1, s, want, 'c', want); if (want) seg(s, p[0], p[1], 1e-10); else { acme::entity const * x = &r0, * y = &r1; if (acme::IsCollinear(x, y)) { acme::entity * e = acme::Intersection(x, y, TOL); REQ(e->isNone(), "rays facing away give a " << e->type()); delete e; } } return;
  }
  if (k == 4) { double a = t[0] * s0, b = t[2] * s0, e = t[3] * s0, lo = std::max(a, std::min(b, e)), hi = std::max(b, e); if (std::abs(a - hi) < 1e-9) return; bool want = a <= hi; ask(r0, g1, s, want, 'c'); if (want) seg(s, O + d * (lo * s0), O + d * (hi * s0), 1e-9); return; }
  double lo = std::max(std::min(t[0], t[1]), std::min(t[2], t[3])), hi = std::min(std::max(t[0], t[1]), std::max(t[2], t[3])); if (std::abs(2 * (lo - hi) - TOL) < 1e-10) return; bool want = 2 * (lo - hi) <= TOL; ask(g0, g1, s, want, 'c'); if (want) seg(s, O + d * lo, O + d * hi, TOL);
}
static void contained(Ctx & c) // straight or planar entities in a plane
{
  W q = v3(), n = unitv(), a = across(n), b = n.cross(a); auto in = [&] { return W(q + a * U(-3, 3) + b * U(-3, 3)); }; int k = K(0, 5); double off = P(.5) ? 0 : pick({1e-3, .5}); W sh = n * off; c << "in the plane " << k << q << n << a << " offset " << off; plane p(pt(q), vec3(n)); bool want = off == 0; W x = in(), dir = a * cos(1.) + b * sin(1.);
  auto same = [&](vector<W> const & u, vector<W> const & w) { for (size_t i = 0; i < u.size(); ++i) REQ(near(u[i], w[i], 1e-12), "the common part is " << u[i].transpose() << ", expected " << w[i].transpose()); };
  if (k == 0) { line y(pt(x + sh), vec3(dir)), o(9, 9, 9, 1, 0, 0); ask(y, p, o, want, 'p', want); if (want) same(nums(o), nums(y)); }
  if (k == 1) { ray y(pt(x + sh), vec3(dir)), o(9, 9, 9, 1, 0, 0); ask(y, p, o, want, 'p', want); if (want) same(nums(o), nums(y)); }
  if (k == 2) { segment y(pt(x + sh), pt(x + sh + dir * U(.2, 2))), o(9, 9, 9, 9, 9, 9); ask(p, y, o, want, 'p', want); if (want) same(nums(o), nums(y)); }
  if (k == 3) { plane y(pt(x + sh), vec3(P(.5) ? n : W(-n))), o(9, 9, 9, 1, 0, 0); ask(y, p, o, want, 'p', want); if (want) same(nums(o), nums(y)); }
  if (k == 4) { W z = in(), w = in(); if ((z - x).cross(w - x).norm() < .3) return; triangle y(pt(x + sh), pt(z + sh), pt(w + sh)), o(9, 9, 9, 9, 9, 8, 8, 9, 9); ask(p, y, o, want, 'p', want); if (want) same(nums(o), nums(y)); }
  if (k == 5) { disk y(U(.1, 2), pt(x + sh), vec3(n)), o(9, 9, 9, 9, 1, 0, 0); ask(p, y, o, want, 'p', want); if (want) same(nums(o), nums(y)); }
}
static void coplanar(Ctx & c) // ray or segment and triangle, ray and disk, in one plane
{
  W q = v3(), n = unitv(), a = across(n), b = n.cross(a); auto in = [&](double s) { return W(q + a * U(-s, s) + b * U(-s, s)); }; int k = K(1, 2); W o = in(4), d = (in(4) - o); if (d.norm() < .2) return; if (k == 1) d.normalize(); double lo, hi; bool bad; segment s(9, 9, 9, 9, 9, 9);
  if (P(.5)) {
    vector<W> V = {in(3), in(3), in(3)}; if ((V[1] - V[0]).cross(V[2] - V[0]).norm() < .5) return; c << "coplanar triangle " << V[0] << V[1] << V[2] << " straight " << k << o << d; bool m = tinside(V, o, d, lo, hi, bad); if (bad) return; bool want = m && hi >= 0 && (k == 1 || lo <= 1);
    if (m && (std::abs(hi) < 1e-3 || std::abs(lo) < 1e-3 || std::abs(lo - 1) < 1e-3 || std::abs(hi - 1) < 1e-3)) return; triangle T(pt(V[0]), pt(V[1]), pt(V[2])); if (k == 1) ask(ray(pt(o), vec3(d)), T, s, want, 'p'); else ask(segment(pt(o), pt(o + d)), T, s, want, 'p');
    if (want) seg(s, o + d * std::max(0., lo), o + d * (k == 1 ? hi : std::min(1., hi))); return;
  }
  d.normalize(); double R = U(.2, 3); c << "coplanar disk " << R << q << n << " ray " << o << d; W f = q - o; double t = f.dot(d), D = R * R - (f - d * t).squaredNorm(); if (std::abs(D) < 1e-4) return; double h = std::sqrt(std::max(0., D)); lo = t - h; hi = t + h; if (std::abs(lo) < 1e-4 || std::abs(hi) < 1e-4) return; bool want = D > 0 && hi >= 0;
  ask(ray(pt(o), vec3(d)), disk(R, pt(q), vec3(n)), s, want, 'p'); if (want) seg(s, o + d * std::max(0., lo), o + d * hi);
}
static void pierced(Ctx & c) // straight and disk
{
  int k = K(0, 2); W q = v3(), n = unitv(), a = across(n), d = unitv(); double R = U(.2, 3), t = par(), f = R * (P(.2) ? pick({0, .9999, 1.0001}) : U(0, 1.5)), L = k == 2 ? (P(.3) ? 1 : U(.2, 4)) : 1, z = std::abs(d.dot(n)); if (z < .02 || edge(k, t)) return; d *= L; W x = q + a * f, o = x - d * t; c << "disk " << R << q << n << " straight " << k << o << d;
  bool want = inr(k, t) && f <= R; if (std::abs(f - R) < 1e-9) return; point out(9, 9, 9); straight(k, o, d, [&](auto const & A) { ask(A, disk(R, pt(q), vec3(n)), out, want, 'g'); }); if (want) REQ((W(out) - x).norm() < 1e-8, "the crossing is " << W(out).transpose() << ", expected " << x.transpose());
}
static void planar(Ctx & c) // two triangles, two disks in different planes
{
  segment s(9, 9, 9, 9, 9, 9); W e[4]; bool hit; W D;
  auto finish = [&](bool h, std::function<void(bool)> run) { bool want = h; double lo = 0, hi = 0; if (h) { double t[4]; for (int i = 0; i < 4; ++i) t[i] = (e[i] - e[0]).dot(D); lo = std::max(std::min(t[0], t[1]), std::min(t[2], t[3])); hi = std::min(std::max(t[0], t[1]), std::max(t[2], t[3])); if (std::abs(hi - lo) < 1e-3 || std::abs(t[0] - t[1]) < 1e-2 || std::abs(t[2] - t[3]) < 1e-2) return; want = lo < hi; } run(want); if (want) seg(s, e[0] + D * lo, e[0] + D * hi); };
  if (P(.5)) {
    vector<W> A = {v3(), v3(), v3()}, B = {v3(), v3(), v3()}; W n = (A[1] - A[0]).cross(A[2] - A[0]), m = (B[1] - B[0]).cross(B[2] - B[0]); if (n.norm() < .5 || m.norm() < .5) return; n.normalize(); m.normalize(); D = n.cross(m); if (D.norm() < .1) return; D.normalize(); for (auto & v : A) if (std::abs(m.dot(v - B[0])) < 1e-2) return; for (auto & v : B) if (std::abs(n.dot(v - A[0])) < 1e-2) return;
    c << "triangles " << A[0] << A[1] << A[2] << " and " << B[0] << B[1] << B[2]; hit = chord(A, B[0], m, e[0], e[1]) && chord(B, A[0], n, e[2], e[3]); finish(hit, [&](bool w) { ask(triangle(pt(A[0]), pt(A[1]), pt(A[2])), triangle(pt(B[0]), pt(B[1]), pt(B[2])), s, w, 'g'); acme::none no; REQ(acme::Intersection(triangle(pt(A[0]), pt(A[1]), pt(A[2])), triangle(pt(B[0]), pt(B[1]), pt(B[2])), no) == w, "whether they meet"); }); return;
  }
  W p = v3(), q = p + vec(2), n = unitv(), m = unitv(); if (P(.3)) q = p + across(m) * U(0, 2); D = n.cross(m); if (D.norm() < .2) return; D.normalize(); double R = U(.3, 3), Q = U(.3, 3); c << "disks " << R << p << n << " and " << Q << q << m;
  W u = D.cross(n), w = D.cross(m); double f = m.dot(q - p) / m.dot(u), g = n.dot(p - q) / n.dot(w), h2 = R * R - f * f, k2 = Q * Q - g * g; if (std::abs(h2) < 1e-3 || std::abs(k2) < 1e-3) return; hit = h2 > 0 && k2 > 0;
  if (hit) { W x = p + u * f, y = q + w * g; e[0] = x - D * std::sqrt(h2); e[1] = x + D * std::sqrt(h2); e[2] = y - D * std::sqrt(k2); e[3] = y + D * std::sqrt(k2); } finish(hit, [&](bool z) { ask(disk(R, pt(p), vec3(n)), disk(Q, pt(q), vec3(m)), s, z, 'g'); });
}
static void meet(Ctx & c) // two triangles in one plane; pairs with no supported result
{
  W q = v3(), n = unitv(), a = across(n), b = n.cross(a); auto in = [&](double x, double y) { return W(q + a * x + b * y); }; acme::none no; vector<W> V[2]; double R = U(.5, 3); bool star = P(.3);
  for (int k = 0; k < 2; ++k) { double t = star ? k * M_PI + U(-.2, .2) : U(0, 6.3), x = star ? U(-.1, .1) : U(-2, 2), y = star ? U(-.1, .1) : U(-2, 2); for (int i = 0; i < 3; ++i) { double f = t + i * 2 * M_PI / 3 + (star ? 0 : U(-.9, .9)), r = star ? R : U(.3, 3); V[k].push_back(in(x + r * std::cos(f), y + r * std::sin(f))); } if (P(.5)) std::swap(V[k][0], V[k][1]); if ((V[k][1] - V[k][0]).cross(V[k][2] - V[k][0]).norm() < .2) return; }
  double gap = -1e9; for (int k = 0; k < 2; ++k) for (int i = 0; i < 3; ++i) { W e = (V[k][(i + 1) % 3] - V[k][i]).cross(n).normalized(); if (e.dot(V[k][(i + 2) % 3] - V[k][i]) > 0) e = -e; double g = 1e9; for (W const & x : V[1 - k]) g = std::min(g, e.dot(x - V[k][i])); gap = std::max(gap, g); }
  if (std::abs(gap) < 1e-3) return; c << "triangles in one plane " << V[0][0] << V[0][1] << V[0][2] << " and " << V[1][0] << V[1][1] << V[1][2]; triangle A(pt(V[0][0]), pt(V[0][1]), pt(V[0][2])), B(pt(V[1][0]), pt(V[1][1]), pt(V[1][2])); bool r = acme::Intersection(A, B, no); REQ(r == (gap < 0), "reported " << r << ", the gap is " << gap);
  if (P(.1)) { acme::disk d(1, pt(q), vec3(n)), d2(2, pt(q), vec3(n)); acme::ball g(1, pt(q)), g2(2, pt(q)); REQ(thrown([&] { acme::Intersection(A, d, no); }) && thrown([&] { acme::Intersection(d, d2, no); }) && thrown([&] { acme::Intersection(g, g2, no); }) && thrown([&] { acme::Intersection(A, g, no); }) && thrown([&] { acme::Intersection(d, g, no); }), "a pair with no supported result was not rejected"); }
}
void run_case()
{
  Ctx c; switch (K(0, 9)) { case 9: return meet(c); case 0: return crossing(c); case 1: return withball(c); case 2: return axis(c); case 3: return contained(c); case 4: return coplanar(c); case 5: return pierced(c); case 6: return planar(c);
    case 7: { // plane and ball
      W ctr = v3(), n = unitv(), a = across(n); double R = U(.1, 3), f = R * (P(.2) ? pick({0, .9999, 1.0001, -1.0001}) : U(-1.5, 1.5)), l = P(.5) ? 1 : U(.2, 3); W q = ctr + n * f + a * U(-2, 2); c << "ball " << R << ctr << " plane " << q << n << "*" << l; if (std::abs(std::abs(f) - R) < 1e-9) return; bool want = std::abs(f) < R; disk o(9, 9, 9, 9, 0, 0, 1); ask(plane(pt(q), vec3(n * l)), ball(R, pt(ctr)), o, want, 'g');
      if (want) { REQ(near(W(o.center()), ctr + n * f, 1e-9), "centre of the section " << W(o.center()).transpose()); REQ(std::abs(o.radius() * o.radius() - (R * R - f * f)) < 1e-9, "radius of the section " << o.radius()); REQ(near(W(o.normal()), n, 1e-9), "normal of the section " << W(o.normal()).transpose()); } return; }
    default: { // three planes
      W x = v3(), n[3]; plane p[3]; for (int i = 0; i < 3; ++i) { n[i] = unitv() * (P(.5) ? 1 : U(.3, 2)); if (i && P(.1)) n[i] = n[0]; p[i] = plane(pt(x + across(n[i].normalized()) * U(0, 3)), vec3(n[i])); } double t = std::abs(n[0].dot(n[1].cross(n[2]))); c << "planes through " << x << n[0] << n[1] << n[2]; if (t < .01 && t > 1e-9) return; point o(9, 9, 9); bool h = acme::Intersection(p[0], p[1], p[2], o, TOL), want = t > 1e-9; REQ(h == want, "three planes: reported " << h << ", expected " << want); if (h) REQ((W(o) - x).norm() < 1e-9 / (t * t), "the common point is " << W(o).transpose() << ", expected " << x.transpose()); } }
}
