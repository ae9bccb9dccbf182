#include "ground.hh"
// sections along a radius: no volume at all, the result stays finite
static void radial()
{
  Ctx c; Rib b = rndrib(); if (P(.5)) b.y = 0; M3 L = P(.5) ? M3(M3::Identity()) : P(.5) ? M3(rotz(U(-3, 3))) : M3(rotz(U(-3, 3)) * rotx(U(-.3, .3)) * roty(U(-3, 3)));
  affine p = mkpose(L, P(.5) ? W(0, 0, U(.1, 1)) : vec(2)); vector<Tri> t; double h = P(.5) ? 0 : U(-1, 1);
  for (int k = K(1, 2); k > 0; --k) { double z = U(.1, .9) * b.R, s = U(.05, .3); auto at = [&](double r, double y) { return W(org(p) + L * W(r * std::sin(h), b.y + y, -r * std::cos(h))); }; t.push_back(tri(at(z, -s), at(z, s), at(z + U(.1, 1.2) * b.R, P(.5) ? -s : s), U(0, 1.5))); }
  put(c, b, p); put(c, t); enve::rib r = mkrib(b); enve::output o; dirty(o); bool hit = r.envelop(mk(t), p, "geometric", o); Got g = got(hit, o);
  auto fin = [](double x) { return x - x == 0; }; auto fv = [&](W const & x) { return fin(x[0]) && fin(x[1]) && fin(x[2]); };
  REQ(fv(g.point) && fv(g.normal) && fin(g.friction) && fin(g.depth) && fin(g.area) && fin(g.volume), "a contact without volume is not a number");
  if (!hit) cmp(none_(b, p), g, "no contact"); else REQ(g.volume > 0, "contact reported with volume " << g.volume);
}
void run_case()
{
  if (P(.1)) return radial();
  Ctx c; Rib b = rndrib(); affine p = ribpose(b.R); vector<Tri> t = ribpatch(b, p); put(c, b, p); put(c, t); enve::rib r = mkrib(b); enve::output o; dirty(o);
  Res e = expect(b, p, t, "geometric"); tally(e); bool h = r.envelop(mk(t), p, "geometric", o); cmp(e, got(h, o), "mesh, geometric");
  if (e.hit < 0) return;
  vector<Tri> s = t; std::shuffle(s.begin(), s.end(), RNG); enve::output q; dirty(q); bool k = r.envelop(mk(s, 7), p, "geometric", q);
  REQ(h == k && near(W(o.point), W(q.point), 1e-6) && near(W(o.normal), W(q.normal), 1e-6) && near(o.friction, q.friction, 1e-6) && near(o.depth, q.depth, 1e-6) && near(o.area, q.area, 1e-6) && near(o.volume, q.volume, 1e-6), "result depends on the order of the triangles");
}
