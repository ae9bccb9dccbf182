#include "shell.hh"
template<class T> static auto cand(T & s, int) -> decltype(&s.m_candidates) { return &s.m_candidates; }
template<class T> static std::vector<triangleground::vecptr> * cand(T &, long) { return nullptr; }
void run_case()
{
  Ctx c; Prof pr = rndprof(); int n = K(1, 7); put(c, pr, n); shell s(n, pr.Rx, pr.Mx, pr.Ry, pr.My, pr.Ly); vector<Rib> rb = ribsof(pr, n); int k = K(1, 3);
  for (int i = 0; i < k; ++i) {
    affine p = shellpose(); bool plain = P(.25); if (plain) p = mkpose(M3::Identity(), W(U(-1, 1), 0, U(-1, 1))); string m = P(.8) ? "geometric" : "sampling"; c << "\n evaluation " << i << " " << p << " " << m;
    vector<Tri> t = shellpatch(pr, p, .03), l; 
    if (plain) for (int q = K(1, 5); q > 0; --q) { // corners and edges exactly on a rib plane
      double y = s.ribCenter(K(0, n - 1)).y(), z = org(p)[2] - U(.3, .95) * pr.Rx, x = org(p)[0], h = U(.02, .2) * (P(.5) ? 1 : -1), w = U(.1, .3);
      if (P(.7)) t.push_back(tri(W(x + U(-.1, .1), y, z), W(x + w, y + h, z + U(-.05, .05)), W(x - w, y + h * U(.5, 1.5), z + U(-.05, .05)), U(0, 1)));
      else t.push_back(tri(W(x - w, y, z), W(x + w, y, z), W(x, y + h, z), U(0, 1)));
    }
    if (t.empty()) continue; put(c, t); ground::mesh g(mk(t, K(0, 5))); if (!local(t, p, pr.Rx, l)) continue; s.setup(g, p, m); if (l.empty()) continue;
    for (int j = 0; j < n; ++j) { Res e = expect(rb[j], p, l, m); tally(e); cmpslot(e, s, j, "result from the candidates"); }
    auto * q = cand(s, 0); if (!q) continue; auto & Q = *q; REQ(int(Q.size()) == n, "number of candidate lists");
    triangleground::vecptr loc; g.intersection(s.bbox(), loc); bool ref = m == "geometric" && loc.size() > 3; W o = org(p), ax = lin(p).col(1);
    for (int j = 0; j < n; ++j) {
      size_t at = 0; double cy = s.ribCenter(j).y();
      for (auto const & x : loc) {
        double d[3]; bool close = false; int up = 0, dn = 0; for (int a = 0; a < 3; ++a) { d[a] = (W(x->vertex(a)) - o).dot(ax) - cy; if (plain && x->vertex(a).y() == cy) d[a] = 0; else if (std::abs(d[a]) < 1e-12) close = true; up += d[a] > 0; dn += d[a] < 0; }
        bool in = !ref || (up < 3 && dn < 3); bool is = at < Q[j].size() && Q[j][at] == x; if (!close) REQ(is == in, "rib " << j << ": triangle " << x->id() << (in ? " missing from" : " wrongly in") << " the candidate list"); if (is) ++at;
      }
      REQ(at == Q[j].size(), "rib " << j << ": " << Q[j].size() - at << " extra, repeated or reordered candidates");
    }
  }
}
