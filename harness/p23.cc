#include "common.hh"
static W gv() { return P(.5) ? W(K(-2, 2), K(-2, 2), K(-2, 2)) : vec(); }
static void corners(W const & a, W const & b, W & lo, W & hi) { lo = a.cwiseMin(b); hi = a.cwiseMax(b); }
static W mn(aabb const & a) { return W(a.min()); }
static W mx(aabb const & a) { return W(a.max()); }
void run_case()
{
  Ctx c; W a = gv(), b = gv(), d = gv(), e = gv(), t = gv(), l0, h0, l1, h1; corners(a, b, l0, h0); corners(d, e, l1, h1); int id = K(0, 99), ps = K(0, 99);
  c << "boxes " << a << b << " and " << d << e << " point/vector " << t;
  aabb x = P(.5) ? aabb(a[0], a[1], a[2], b[0], b[1], b[2], id, ps) : aabb(pt(a), pt(b), id, ps), y(pt(d), pt(e), id, ps), z(x);
  REQ(mn(x) == l0 && mx(x) == h0 && x.id() == id && x.pos() == ps, "constructor does not order the corners"); REQ(mn(z) == l0 && mx(z) == h0, "copy"); REQ(x.checkMaxMin(), "checkMaxMin");
  bool ov = true, in = true; for (int i = 0; i < 3; ++i) { ov = ov && l0[i] <= h1[i] && l1[i] <= h0[i]; in = in && l0[i] <= t[i] && t[i] <= h0[i]; }
  REQ(x.intersects(y) == ov && y.intersects(x) == ov, "intersects " << x.intersects(y) << y.intersects(x) << " expected " << ov);
  aabb o; bool r = acme::Intersection(x, y, o, TOL); REQ(r == ov, "Intersection " << r); if (r) REQ(mn(o) == l0.cwiseMax(l1) && mx(o) == h0.cwiseMin(h1), "common box");
  REQ(x.isInside(pt(t), TOL) == in, "isInside " << !in); for (int k = 0; k < 8; ++k) { W q(k & 1 ? l0[0] : h0[0], k & 2 ? l0[1] : h0[1], k & 4 ? l0[2] : h0[2]); REQ(x.isInside(pt(q)), "corner not inside"); }
  aabb u; u.min() = pt(a); u.max() = pt(b); bool sw = false; for (int i = 0; i < 3; ++i) sw = sw || a[i] > b[i]; REQ(u.checkMaxMin() == !sw, "checkMaxMin");
  REQ(u.updateMaxMin() == !sw, "updateMaxMin result"); REQ(mn(u) == l0 && mx(u) == h0, "updateMaxMin");
  u.clamp(pt(a), pt(b), pt(d)); W lo(a.cwiseMin(b).cwiseMin(d)), hi(a.cwiseMax(b).cwiseMax(d)); REQ(mn(u) == lo && mx(u) == hi, "clamp"); point ar[3] = {pt(a), pt(b), pt(d)}; aabb w; w.clamp(ar); REQ(mn(w) == lo && mx(w) == hi, "clamp array");
  z.translate(pt(t)); REQ(near(mn(z), l0 + t, 1e-12) && near(mx(z), h0 + t, 1e-12), "translate");
  int n = K(1, 6); std::vector<aabb::ptr> v; W L, H; for (int i = 0; i < n; ++i) { W p = gv(), q = gv(), p0, p1; corners(p, q, p0, p1); v.push_back(std::make_shared<aabb const>(pt(p), pt(q), i, i)); if (i) { L = W(L.cwiseMin(p0)); H = W(H.cwiseMax(p1)); } else { L = p0; H = p1; } c << " list" << p << q; }
  aabb m; m.merged(v); REQ(mn(m) == L && mx(m) == H, "merged"); aabb m2(v, id, ps); REQ(mn(m2) == L && mx(m2) == H && m2.id() == id && m2.pos() == ps, "list constructor");
  double dx = std::max(std::abs(t[0] - l0[0]), std::abs(t[0] - h0[0])), dy = std::max(std::abs(t[1] - l0[1]), std::abs(t[1] - h0[1])), dz = std::max(std::abs(t[2] - l0[2]), std::abs(t[2] - h0[2]));
  REQ(near(x.exteriorDistance(pt(t)), std::sqrt(dx * dx + dy * dy + dz * dz), 1e-12), "exteriorDistance");
  W g = (l0 - t).cwiseMax(t - h0).cwiseMax(W(0, 0, 0)); REQ(near(x.centerDistance(pt(t)), g.norm(), 1e-12), "centerDistance " << x.centerDistance(pt(t)) << " expected " << g.norm());
  double s = (h0 - l0).norm(), q = std::min(l0.norm(), h0.norm()); if (std::abs(s - .5 * q) > 1e-9 * (s + q)) REQ(x.isDegenerated(.5) == (s <= .5 * q), "isDegenerated");
}
