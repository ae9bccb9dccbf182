#include "shell.hh"
// a shell whose slots held anything before, with no triangle near
static void shell_case()
{
  Ctx c; Prof pr = rndprof(); int n = K(1, 5); put(c, pr, n); shell s(n, pr.Rx, pr.Mx, pr.Ry, pr.My, pr.Ly); vector<Rib> rb = ribsof(pr, n); affine p = shellpose(); string m = meth(); c << " " << p << " " << m;
  if (P(.7)) { Flat f; f.o = org(p) - W(0, 0, U(.3, 1.2) * pr.Rx); f.n = W(0, 0, 1); f.mu = U(0, 2); put(c, f); ground::flat g(f.mu, pt(f.o), vec3(f.n)); s.setup(g, p, m); }
  W d = W(0, 0, 1000) + vec(1); Tri t; t.v[0] = org(p) - d; t.v[1] = t.v[0] + W(1, 0, 0); t.v[2] = t.v[0] + W(0, 1, 0); t.mu = 1; vector<Tri> ts(1, t); put(c, ts); ground::mesh g(mk(ts));
  for (int k = K(1, 2); k > 0; --k) {
    p = mkpose(P(.3) ? M3(lin(p)) : M3(lin(p) * roty(U(-1, 1)) * rotx(U(-.3, .3))), org(p) + (P(.3) ? vec(1e-3) : vec(1))); c << " then " << p;
    bool h = s.setup(g, p, m); REQ(!h, "contact with a mesh far away"); for (int j = 0; j < n; ++j) { Res z = none_(rb[j], p); cmpslot(z, s, j, "slot of a rib with no triangle near"); }
  }
}
void run_case()
{
  if (P(.15)) return shell_case();
  Ctx c; Rib b = rndrib(); affine p = ribpose(b.R); string m = meth(); put(c, b, p); c << " " << m; enve::rib r = mkrib(b); enve::output o; dirty(o); bool h; Res e, z = none_(b, p); int k = K(0, 9);
  if (k < 1) { h = r.envelop(p, o); e = z; REQ(!h, "empty evaluation returns true"); }
  else if (k < 5) { Flat f = rndflat(b, p); if (P(.3)) f.o[2] -= 3; put(c, f); ground::flat g(f.mu, pt(f.o), acme::vec3(f.n)); e = expect(b, p, f, m); h = r.envelop(g, p, m, o); }
  else { vector<Tri> t = ribpatch(b, p); if (P(.2)) t.clear(); else if (P(.3)) for (Tri & x : t) for (W & v : x.v) v[2] -= 2; put(c, t); e = expect(b, p, t, m); h = r.envelop(mk(t), p, m, o); }
  tally(e); Got g = got(h, o);
  if (e.hit >= 0) REQ(h == (e.hit == 1), "contact reported " << h << " expected " << e.hit);
  if (!h) cmp(z, g, "no contact", 1e-9); else REQ(g.area > 0 || g.volume > 0, "contact reported with an empty patch");
  // the same result slot, used again at a nearby pose high above the ground
  for (int i = K(0, 2); i > 0; --i) {
    M3 L = P(.5) ? M3(lin(p)) : M3(lin(p) * roty(U(-.5, .5))); p = mkpose(L, org(p) + (P(.5) ? vec(1e-3) : vec(1))); z = none_(b, p); c << " then " << p;
    Flat f; f.o = org(p) - W(0, 0, 5); f.n = W(0, 0, 1); f.mu = 1; ground::flat G(1, pt(f.o), acme::vec3(f.n)); switch (K(0, 2)) { case 0: h = r.envelop(p, o); break; case 1: h = r.envelop(G, p, m, o); break; default: h = r.envelop(triangleground::vecptr(), p, m, o); }
    REQ(!h, "contact with nothing"); cmp(z, got(h, o), "no contact, result slot used before", 1e-9);
  }
}
