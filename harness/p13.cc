#include "shell.hh"
template<class T> static void junk(vector<T> & v) { v.resize(K(0, 12)); }
template<class T> static auto outs(T & s, int) -> decltype(&s.m_out) { return &s.m_out; }
template<class T> static vector<enve::output> * outs(T &, long) { return nullptr; }
void run_case()
{
  Ctx c; Scene z; evaluate(c, z); shell const & s = *z.s; vector<Got> before(z.n); for (int i = 0; i < z.n; ++i) before[i] = slot(s, i); int rep = K(1, 3);
  vector<Rib> rb = ribsof(z.pr, z.n); auto * st = outs(*z.s, 0);
  if (st) for (int i = 0; i < z.n; ++i) { Got g = got(false, (*st)[i]), b = before[i]; REQ(near(g.point, b.point, 0) && near(g.normal, b.normal, 0) && bits(g.friction, b.friction) && bits(g.depth, b.depth) && bits(g.area, b.area) && bits(g.volume, b.volume), "single reading of rib " << i << " is not its stored result"); }
  vector<point> vp; vector<vec3> vn, va; vector<real_> vf, vd, vA, vV; vector<affine> vm;
  for (int r = 0; r < rep; ++r) {
    if (P(.6)) { junk(vp); junk(vn); junk(va); junk(vf); junk(vd); junk(vA); junk(vV); junk(vm); }
    s.contactPoint(vp); s.contactNormal(vn); s.contactFriction(vf); s.contactDepth(vd); s.contactArea(vA); s.contactVolume(vV); s.contactPointAffine(vm); s.relativeAngles(va); size_t n = z.n;
    REQ(vp.size() == n && vn.size() == n && va.size() == n && vf.size() == n && vd.size() == n && vA.size() == n && vV.size() == n && vm.size() == n, "vector form does not have one element per rib: " << vp.size() << " " << vn.size() << " " << vf.size() << " " << vd.size() << " " << vA.size() << " " << vV.size() << " " << vm.size() << " " << va.size() << " for " << n);
    for (int i = 0; i < z.n; ++i) {
      Got g = slot(s, i), b = before[i]; REQ(near(g.point, b.point, 0) && near(g.normal, b.normal, 0) && bits(g.friction, b.friction) && bits(g.depth, b.depth) && bits(g.area, b.area) && bits(g.volume, b.volume), "reading changed the shell, rib " << i);
      affine f; vec3 a; s.contactPointAffine(i, f); s.relativeAngles(i, a);
      REQ(near(W(vp[i]), g.point, 0), "contact point vector, element " << i); REQ(near(W(vn[i]), g.normal, 0), "contact normal vector, element " << i); REQ(bits(vf[i], g.friction), "friction vector, element " << i); REQ(bits(vd[i], g.depth), "depth vector, element " << i); REQ(bits(vA[i], g.area), "area vector, element " << i); REQ(bits(vV[i], g.volume), "volume vector, element " << i);
      for (int k = 0; k < 4; ++k) for (int j = 0; j < 4; ++j) REQ(bits(vm[i](j, k), f(j, k)), "contact frame vector, element " << i); REQ(near(W(va[i]), W(a), 0), "relative angles vector, element " << i);
      string w = badframe(f, g.point, g.normal, lin(z.pose).col(1)); REQ(w.empty(), "contact frame of rib " << i << ": " << w);
      W e(a); e[0] += s.ribAngle(i); if (badframe(f, g.point, g.normal, lin(z.pose).col(1)).empty() && W(lin(z.pose).col(1)).cross(g.normal).norm() > 1e-4) { w = badangles(e, rel(f, lin(z.pose))); REQ(w.empty(), "relative angles of rib " << i << ": " << w); }
    }
  }
}
