#include "ground.hh"
void run_case()
{
  Ctx c; Rib b = rndrib(); affine p = ribpose(b.R);
  if (P(.15)) { // barely touching, or barely not
    Flat f = rndflat(b, p); bool m = P(.5); vector<Tri> t = ribpatch(b, p); double want = pick({-3e-8, -1e-8, -2e-9, 2e-9, 1e-8, 3e-8}); bool any = false;
    for (int i = 0; i < 30; ++i) { SAMD = NAN; if (m) expect(b, p, t, "sampling"); else expect(b, p, f, "sampling"); if (!(std::abs(SAMD - want) < 10)) return; any = std::abs(SAMD - want) < 5e-10; if (any) break; p.translation()[2] += (SAMD - want) * (i < 15 ? 1 : .5); }
    if (!any) return; c << "grazing contact, depth " << want << " "; put(c, b, p); enve::rib r = mkrib(b); enve::output o; dirty(o); Res e; bool h;
    if (m) { put(c, t); e = expect(b, p, t, "sampling"); h = r.envelop(mk(t), p, "sampling", o); } else { put(c, f); e = expect(b, p, f, "sampling"); h = r.envelop(ground::flat(f.mu, pt(f.o), acme::vec3(f.n)), p, "sampling", o); }
    tally(e); cmp(e, got(h, o), "grazing contact, sampling"); return;
  }
  put(c, b, p); enve::rib r = mkrib(b); enve::output o; dirty(o); bool h; Res e; string w = "flat ground, sampling";
  if (P(.5)) { Flat f = rndflat(b, p); put(c, f); ground::flat g(f.mu, pt(f.o), acme::vec3(f.n)); e = expect(b, p, f, "sampling"); h = r.envelop(g, p, "sampling", o); }
  else { vector<Tri> t = ribpatch(b, p); put(c, t); w = "mesh, sampling"; e = expect(b, p, t, "sampling"); h = r.envelop(mk(t), p, "sampling", o); }
  tally(e); cmp(e, got(h, o), w);
}
