#include "common.hh"
void run_case()
{
  Ctx c; double mu = P(.15) ? pick({-1, -1e-9, 0, NaN}) : U(0, 2); W o = vec(), n = vec(); if (P(.4)) n[2] = std::abs(n[2]); if (P(.1)) n[2] = pick({0, -1e-12, 1e-12, NaN}); int k = K(0, 3);
  if (P(.15)) n *= pick({1e-3, 1e3, 1e5}); if (P(.2)) { n[0] = 0; n[1] = 0; }
  c << "flat friction=" << mu << " origin=" << o << " normal=" << n << " constructor " << k;
  bool bad = !(mu >= 0) || !(n[2] > 0); ground::flat * f = 0;
  bool t = thrown([&]{ f = k == 0 ? new ground::flat(mu, o[0], o[1], o[2], n[0], n[1], n[2]) : k == 1 ? new ground::flat(mu, pt(o), vec3(n)) : k == 2 ? new ground::flat(mu, plane(pt(o), vec3(n))) : new ground::flat(mu, plane(o[0], o[1], o[2], n[0], n[1], n[2])); });
  REQ(t == bad, "exception " << t << " expected " << bad); if (t) return;
  ground::flat const & g = *f; W m(g.normal()), q(g.origin());
  REQ(bits(g.friction(), mu), "friction " << g.friction()); REQ(q == o, "origin changed"); REQ(near(m, n / n.norm(), 1e-12), "normal " << m.transpose());
  REQ(&g.layingPlane() == &(plane const &)g, "layingPlane"); REQ(W(g.layingPlane().normal()) == m, "laying plane normal");
  delete f;
}
