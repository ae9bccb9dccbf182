#include "common.hh"
template<class T> static void rw(T & e, string const & n, std::function<real_ const &(T const &)> r, std::function<real_ &(T &)> w, double v) { REQ(bits(r(e), v), n << " reads " << r(e) << " expected " << v); REQ(bits(w(e), v), n << " (writing) reads " << w(e)); REQ(&r(e) == &w(e), n << ": reading and writing accessors differ"); double x = scalar(); w(e) = x; REQ(bits(r(e), x), n << " reads " << r(e) << " after writing " << x); w(e) = v; }
static void same(vec3 const & a, W const & b, string const & n) { for (int i = 0; i < 3; ++i) REQ(bits(a[i], b[i]), n << " is " << W(a).transpose() << " expected " << b.transpose()); }
template<class T> static void ps(T & e, string const & n, std::function<vec3 const &(T const &)> r, std::function<vec3 &(T &)> w, W const & v) { same(r(e), v, n); same(w(e), v, n + " (writing)"); REQ(&r(e) == &w(e), n << ": reading and writing accessors differ"); W x = vec(); w(e) = x; same(r(e), x, n + " after writing"); w(e) = v; }
#define PT_(E, M, V) do { typedef typename std::decay<decltype(E)>::type T_; ps<T_>(E, #E "." #M, [](T_ const & x_) -> vec3 const & { return x_.M; }, [](T_ & x_) -> vec3 & { return x_.M; }, V); } while (0)
#define RW_(E, M, V) do { typedef typename std::decay<decltype(E)>::type T_; rw<T_>(E, #E "." #M, [](T_ const & x_) -> real_ const & { return x_.M; }, [](T_ & x_) -> real_ & { return x_.M; }, V); } while (0)
template<class T> static void odn(T & e, W const & a, W const & n) { PT_(e, origin(), a); PT_(e, direction(), n); }
void run_case()
{
  Ctx c; W a = vec(), b = vec(), d = vec(); double r = scalar(); int k = K(0, 9); c << "kind " << k << a << b << d << " r " << r;
  switch (k) {
    case 0: { if (P(.5)) { line e(a[0], a[1], a[2], b[0], b[1], b[2]); odn(e, a, b); } else { line e(pt(a), vec3(b)); odn(e, a, b); } break; }
    case 1: { if (P(.5)) { ray e(a[0], a[1], a[2], b[0], b[1], b[2]); odn(e, a, b); } else { ray e(pt(a), vec3(b)); odn(e, a, b); } break; }
    case 2: { plane e0(a[0], a[1], a[2], b[0], b[1], b[2]), e1(pt(a), vec3(b)); plane & e = P(.5) ? e0 : e1; PT_(e, origin(), a); PT_(e, normal(), b); break; }
    case 3: { point q[2] = {pt(a), pt(b)}; segment e0(a[0], a[1], a[2], b[0], b[1], b[2]), e1(pt(a), pt(b)), e2(q); int z = K(0, 2); segment & e = z == 0 ? e0 : z == 1 ? e1 : e2; PT_(e, vertex(0), a); PT_(e, vertex(1), b); PT_(e, operator[](0), a); PT_(e, operator[](1), b); break; }
    case 4: { point q[3] = {pt(a), pt(b), pt(d)}; triangle e0(a[0], a[1], a[2], b[0], b[1], b[2], d[0], d[1], d[2]), e1(pt(a), pt(b), pt(d)), e2(q); int z = K(0, 2); triangle & e = z == 0 ? e0 : z == 1 ? e1 : e2; triangle const & f = e; PT_(e, vertex(0), a); PT_(e, vertex(1), b); PT_(e, vertex(2), d); PT_(e, operator[](0), a); PT_(e, operator[](1), b); PT_(e, operator[](2), d);
      int i = K(3, 9); REQ(thrown([&] { f.vertex(i); }) && thrown([&] { f[i]; }) && thrown([&] { e.vertex(i); }) && thrown([&] { e[i]; }), "vertex " << i << " of a triangle does not raise"); break; }
    case 5: { plane q(pt(a), vec3(b)); disk e0(r, a[0], a[1], a[2], b[0], b[1], b[2]), e1(r, pt(a), vec3(b)), e2(r, q); int z = K(0, 2); disk & e = z == 0 ? e0 : z == 1 ? e1 : e2; PT_(e, center(), a); PT_(e, normal(), b); PT_(e, layingPlane().origin(), a); PT_(e, layingPlane().normal(), b); REQ(bits(static_cast<disk const &>(e).radius(), r), "radius"); e.radius() = 7; REQ(static_cast<disk const &>(e).radius() == 7, "radius after writing"); break; }
    case 6: { ball e0(r, a[0], a[1], a[2]), e1(r, pt(a)); ball & e = P(.5) ? e0 : e1; PT_(e, center(), a); RW_(e, radius(), r); break; }
    case 7: { W lo = a.cwiseMin(b), hi = a.cwiseMax(b); int id = K(-5, 99), pos = K(-5, 99); aabb e(pt(lo), pt(hi), id, pos); aabb const & f = e; PT_(e, min(), lo); PT_(e, max(), hi); for (int i = 0; i < 3; ++i) { REQ(bits(e.min(i), lo[i]) && bits(f.min(i), lo[i]) && bits(e.max(i), hi[i]) && bits(f.max(i), hi[i]), "box coordinate " << i); }
      REQ(e.id() == id && f.id() == id && e.pos() == pos && f.pos() == pos, "box id and position"); e.min(d[0], d[1], d[2]); same(f.min(), d, "min after min(x,y,z)"); same(f.max(), hi, "max after min(x,y,z)"); e.max(a[0], a[1], a[2]); same(f.max(), a, "max after max(x,y,z)"); same(f.min(), d, "min after max(x,y,z)"); e.id() = 3; e.pos() = 4; REQ(f.id() == 3 && f.pos() == 4, "id and position after writing"); e.clear(); REQ(W(f.min()).hasNaN() && W(f.max()).hasNaN() && std::isnan(f.min(0)) && std::isnan(f.max(2)) && std::isnan(f.min(1)), "clear"); break; }
    case 8: { double R = U(.2, .5), B = U(.05, .2), mx = U(1.5, 12), my = U(1.5, 12), L = B * U(.6, 1); enve::shape s(R, mx, B, my, L); enve::shape const & f = s; REQ(f.Rx() == R && f.Mx() == mx && f.Ry() == B && f.My() == my && f.Ly() == L, "shape parameters"); REQ(&f.Rx() == &s.Rx() && &f.Mx() == &s.Mx() && &f.Ry() == &s.Ry() && &f.My() == &s.My() && &f.Ly() == &s.Ly(), "shape accessors differ");
      enve::shell h(K(1, 6), R, mx, B, my, L); double y = P(.4) ? L * pick({-1, 1, 1 + 1e-12, -1 - 1e-12, .999}) : U(-2 * B, 2 * B); c << " width " << L << " y " << y; REQ(h.checkWidthBound(y) == (std::abs(y) <= L), "checkWidthBound(" << y << ") for half width " << L); break; }
    default: { auto nn_ = [](double x) { return x != x; }; auto nv = [&](acme::vec3 const & x) { return nn_(x[0]) && nn_(x[1]) && nn_(x[2]); };
      { enve::shape s; ball e; enve::ground::flat g; enve::rib q; enve::triangleground t; enve::triangleground const & tc = t; REQ(nn_(s.Rx()) && nn_(s.Mx()) && nn_(s.Ry()) && nn_(s.My()) && nn_(s.Ly()), "profile of nothing is not-a-number"); REQ(nn_(e.radius()) && nv(e.center()), "ball of nothing is not-a-number"); REQ(nn_(g.friction()) && nv(g.origin()) && nv(g.normal()), "ground of nothing is not-a-number"); REQ(nn_(q.radius()) && nv(q.center()) && nv(q.normal()) && nn_(q.width()) && nn_(q.angle()), "rib of nothing is not-a-number"); REQ(nn_(tc.friction()) && nv(tc.normal()) && nv(tc.vertex(0)) && nv(tc.vertex(1)) && nv(tc.vertex(2)) && nv(tc.bbox().min()) && nv(tc.bbox().max()), "ground triangle of nothing is not-a-number"); }
      W n = unitv(); if (n[2] < .2) return; double f = U(0, 2); enve::ground::flat g(f, pt(a), vec3(n)); enve::ground::flat const & h = g; REQ(h.friction() == f, "friction"); g.friction() = 3; REQ(h.friction() == 3 && &h.layingPlane() == &g.layingPlane(), "flat accessors"); same(h.layingPlane().origin(), a, "flat origin");
      W m = (b - a).cross(d - a); if (!(std::abs(m[2]) > .05 * m.norm()) || !(m.norm() > 1e-3)) return; int id = K(0, 50); std::shared_ptr<enve::triangleground const> t(new enve::triangleground(id, f, pt(a), pt(b), pt(d))); REQ(t->id() == id && t->friction() == f, "triangle id and friction"); for (int i = 0; i < 3; ++i) REQ(&t->vertex(i) == &(*t)[i], "triangle vertices");
      enve::triangleground::vecptr v; int nn = K(1, 4); for (int i = 0; i < nn; ++i) v.push_back(std::make_shared<enve::triangleground const>(i, f + i, pt(a), pt(b), pt(d))); enve::ground::mesh ms(v); REQ(int(ms.size()) == nn && int(ms.vecptrTriangleground().size()) == nn, "mesh size"); for (int i = 0; i < nn; ++i) REQ(ms[i] == v[i] && ms.ptrTriangleground(i) == v[i] && ms.vecptrTriangleground()[i] == v[i], "mesh triangle " << i); }
  }
}
