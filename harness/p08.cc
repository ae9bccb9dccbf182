#include "ground.hh"
void run_case()
{
  Ctx c; Rib b = rndrib(); affine p = ribpose(b.R); Flat f = rndflat(b, p); put(c, b, p); put(c, f);
  ground::flat g(f.mu, pt(f.o), acme::vec3(f.n)); enve::rib r = mkrib(b); enve::output o; dirty(o);
  Res e = expect(b, p, f, "geometric"); tally(e); bool h = r.envelop(g, p, "geometric", o); cmp(e, got(h, o), "flat ground, geometric");
}
