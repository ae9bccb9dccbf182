#include "shell.hh"
void run_case()
{
  Ctx c; Prof pr = rndprof(); int n = K(1, 7); put(c, pr, n); shell s(n, pr.Rx, pr.Mx, pr.Ry, pr.My, pr.Ly); vector<Rib> rb = ribsof(pr, n); int k = K(1, 4);
  for (int i = 0; i < k; ++i) {
    affine p = shellpose(); string m = P(.06) ? string(P(.5) ? "geometri" : "Sampling") : meth(); bool bad = m != "geometric" && m != "sampling", ret = false, any = false, sure = true, needs = true; c << "\n evaluation " << i << " " << p << " " << m; vector<Res> e(n);
    if (P(.4)) {
      Rib b; b.R = pr.Rx; b.y = 0; b.w = 0; Flat f = rndflat(b, p); if (P(.2)) f.o[2] -= 2 * pr.Rx; put(c, f); ground::flat g(f.mu, pt(f.o), vec3(f.n));
      if (bad) { REQ(thrown([&]{ s.setup(g, p, m); }), "unknown method accepted on flat ground"); continue; }
      ret = s.setup(g, p, m); for (int j = 0; j < n; ++j) e[j] = expect(rb[j], p, f, m);
    } else {
      vector<Tri> t = shellpatch(pr, p, .15), l; if (t.empty()) continue; put(c, t); ground::mesh g(mk(t, K(0, 5))); if (!local(t, p, pr.Rx, l)) continue; needs = !l.empty();
      if (bad) { bool th = thrown([&]{ s.setup(g, p, m); }); REQ(th || !needs, "unknown method accepted on a mesh"); continue; }
      ret = s.setup(g, p, m); for (int j = 0; j < n; ++j) e[j] = needs ? expect(rb[j], p, l, m) : none_(rb[j], p);
    }
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) REQ(s.transformation()(b, a) == p(b, a), "pose not adopted");
    for (int a = 0; a < 3; ++a) REQ(near(s.bbox()->min(a), org(p)[a] - pr.Rx, 1e-12) && near(s.bbox()->max(a), org(p)[a] + pr.Rx, 1e-12), "bounding cube not centred on the pose");
    for (int j = 0; j < n; ++j) { tally(e[j]); cmpslot(e[j], s, j, "stored result"); if (e[j].hit < 0) sure = false; else any = any || e[j].hit; }
    if (sure || any) REQ(ret == any || (ret && !sure), "evaluation returned " << ret << " expected " << any);
  }
}
