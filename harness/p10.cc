#include "ground.hh"
void run_case()
{
  // the four samples collapse to one line for a thin rib standing upright: their mean is the sampled hit itself
  Ctx c; Rib b = rndrib(); affine p = ribpose(b.R); if (P(.5)) { b.w = U(.005, .02); } put(c, b, p); enve::rib r = mkrib(b); enve::output o; dirty(o);
  if (P(.2)) { Flat f = rndflat(b, p); put(c, f); ground::flat g(f.mu, pt(f.o), acme::vec3(f.n)); Res e = expect(b, p, f, "sampling"); cmp(e, got(r.envelop(g, p, "sampling", o), o), "flat"); return; }
  vector<Tri> t = ribpatch(b, p), u = P(.6) ? ribpatch(b, p) : vector<Tri>(); t.insert(t.end(), u.begin(), u.end()); if (P(.2)) { // a second layer within a hair's breadth
    double d = pick({-1e-8, -3e-9, 3e-9, 1e-8, 1e-7}); size_t n = t.size(); for (size_t i = 0; i < n; ++i) if (P(.8)) { Tri q = t[i]; for (int k = 0; k < 3; ++k) q.v[k][2] += d; q.mu = U(0, 1.5); t.push_back(q); }
  }
  std::shuffle(t.begin(), t.end(), RNG); put(c, t);
  Res e = expect(b, p, t, "sampling"); tally(e); cmp(e, got(r.envelop(mk(t), p, "sampling", o), o), "layered mesh");
}
