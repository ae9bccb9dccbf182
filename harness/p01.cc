#include "ground.hh"
#include <cstdio>
#include <fstream>
using enve::ground::mesh;
static void tbox(Tri const & t, W & lo, W & hi) { for (int i = 0; i < 3; ++i) { lo[i] = std::min(t.v[0][i], std::min(t.v[1][i], t.v[2][i])); hi[i] = std::max(t.v[0][i], std::max(t.v[1][i], t.v[2][i])); } }
static vector<Tri> layout()
{
  vector<Tri> g; int kind = K(0, 9), n = P(.2) ? K(1, 3) : P(.1) ? K(60, 200) : K(1, 60); W o = vec(5);
  for (int i = 0; i < n; ++i) {
    W c; double e = 1;
    switch (kind) {
      case 0: c = vec(5); break;                                            // scattered
      case 1: c = W(i * .5, 0, 0); e = .25; break;                          // a row along x
      case 2: c = W(0, i * .5, 0); e = .25; break;                          // a row along y
      case 3: c = W(0, 0, i * .5); e = .25; break;                          // a stack along z
      case 4: c = o; e = 0; break;                                          // all the same
      case 5: c = W(K(0, 4), K(0, 4), 0); e = .5; break;                    // grid with shared edges
      case 7: c = W(K(0, 2) * .5, K(0, 3) * .5, K(0, 3) * .5); break;          // dyadic, centres on the cuts
      case 8: c = W(0, K(-1, 1), K(-2, 2)); break;
      case 9: c = i % 70 ? W(U(0, 1), U(0, 1), 0) : W(200 * (i / 70 + 1), 0, 0); e = .5; break; // one far from all the others
      default: c = W(P(.5) ? 0 : 3, 0, P(.5) ? 0 : 1); e = P(.5) ? 0 : .5;  // few distinct places
    }
    Tri t; W s = e ? vec(e) : W(.5, .25, 0); if (kind >= 5 && kind < 9) s = W(.5, .5, P(.5) ? 0 : .25);
    t.v[0] = c; t.v[1] = c + W(s[0] ? s[0] : .3, 0, 0); t.v[2] = c + W(0, s[1] ? s[1] : .3, s[2]); t.mu = U(0, 2); std::swap(t.v[0], t.v[K(0, 2)]);
    W m = (t.v[1] - t.v[0]).cross(t.v[2] - t.v[0]); if (m.norm() < 1e-9) continue; g.push_back(t); if (P(.1)) g.push_back(t);
  }
  if (g.empty()) g.push_back(tri(W(0, 0, 0), W(1, 0, 0), W(0, 1, 0), 1));
  std::shuffle(g.begin(), g.end(), RNG); return g;
}
static void query(Ctx & c, mesh & m, triangleground::vecptr const & ts, vector<Tri> const & g)
{
  W lo, hi;
  if (P(.4)) { Tri const & t = g[K(0, int(g.size()) - 1)]; W a, b; tbox(t, a, b); W d = vec(1).cwiseAbs(); switch (K(0, 3)) { case 0: lo = b; hi = b + d; break; case 1: hi = a; lo = a - d; break; case 2: lo = a; hi = b; break; default: lo = W(b[0], a[1], a[2]); hi = lo + d; } }
  else if (P(.2)) { lo = W(-1, -1, -1); hi = W(2, 2, 2); }
  else { W p = vec(6), d = vec(P(.3) ? 6 : 1.5).cwiseAbs(); lo = p - d; hi = p + d; if (P(.1)) hi = lo; }
  c << " query " << lo << hi;
  acme::aabb::ptr q = std::make_shared<acme::aabb>(pt(lo), pt(hi), K(-3, 9), K(-3, 9)); triangleground::vecptr out; if (P(.3)) out.push_back(ts[0]);
  bool r = m.intersection(q, out);
  vector<int> n(ts.size(), 0), want(ts.size(), 0); int total = 0;
  for (size_t i = 0; i < ts.size(); ++i) { W a, b; tbox(g[i], a, b); bool o = true; for (int k = 0; k < 3; ++k) if (a[k] > hi[k] || lo[k] > b[k]) o = false; want[i] = o; total += o; }
  for (auto const & x : out) { bool f = false; for (size_t i = 0; i < ts.size(); ++i) if (x.get() == ts[i].get() && n[i] < want[i]) { ++n[i]; f = true; break; } REQ(f, "a triangle that does not overlap the query, or one more time than it is in the mesh"); }
  REQ(int(out.size()) == total, "returned " << out.size() << " triangles, " << total << " overlap the query"); REQ(r == (total > 0), "reported " << r);
}
// trees built directly from boxes: the pairs of overlapping boxes, each once
static void trees()
{
  Ctx c; c << "trees"; using acme::aabb; using acme::AABBtree; aabb::vecptr b[2]; int ids = K(0, 2);
  for (int k = 0; k < 2; ++k) { int n = P(.1) ? 0 : P(.3) ? 1 : P(.2) ? K(60, 90) : K(1, 12); bool out = P(.4); for (int i = 0; i < n; ++i) { W l = P(.5) ? W(K(-2, 2), K(-2, 2), K(-1, 1)) : vec(3), d = P(.3) ? W(0, 0, 0) : W(W(K(0, 2), K(0, 2), K(0, 1)) * .5); if (out && n > 1) l = i ? W(l * .1) : W(500, 0, 0); b[k].push_back(std::make_shared<aabb>(pt(l), pt(l + d), ids == 0 ? i : ids == 1 ? 3 : K(0, 2), 0)); c << (k ? " B" : " A") << l << d; } }
  AABBtree t[2]; for (int k = 0; k < 2; ++k) { aabb::vecptr v = b[k]; t[k].build(v); }
  aabb::vecpairptr r; bool sw = P(.5); t[0].intersection(t[1], r, sw); size_t want = 0;
  for (auto const & x : b[0]) for (auto const & y : b[1]) {
    bool o = true; for (int k = 0; k < 3; ++k) if (x->min()[k] > y->max()[k] || y->min()[k] > x->max()[k]) o = false;
    int n = 0; for (auto const & q : r) if ((sw ? q.second : q.first) == x && (sw ? q.first : q.second) == y) ++n; want += o; REQ(n == int(o), "a pair of boxes is listed " << n << " times, they " << (o ? "" : "do not ") << "overlap");
  }
  REQ(r.size() == want, r.size() << " pairs are listed, " << want << " overlap");
}
void run_case()
{
  if (P(.3)) return trees();
  if (P(.05)) {                                                             // an empty mesh has no local ground
    Ctx c; c << "empty mesh"; triangleground::vecptr none, some = mk(layout()), out; mesh a(none), b, d(some); if (P(.5)) d.clear(); else d.copy(b);
    acme::aabb::ptr q = std::make_shared<acme::aabb>(point(-9, -9, -9), point(9, 9, 9), 0, 0);
    for (mesh * m : {&a, &b, &d}) { out = some; REQ(!m->intersection(q, out) && out.empty(), "an empty mesh answered with " << out.size() << " triangles"); }
    return;
  }
  Ctx c; vector<Tri> g = layout(); put(c, g);
  triangleground::vecptr ts; int mode = K(0, 2); for (size_t i = 0; i < g.size(); ++i) ts.push_back(mk(g[i], mode == 0 ? int(i) : mode == 1 ? 7 : K(-50, 500)));
  for (size_t i = 0; i < ts.size(); ++i) for (int k = 0; k < 3; ++k) g[i].v[k] = W(ts[i]->vertex(k));
  if (P(.05)) {
    char f[64]; std::snprintf(f, sizeof f, "p01_%ld.rdf", long(getpid()));
    { std::ofstream o(f); o.precision(17); o << "[NODES]\n"; for (size_t i = 0; i < g.size(); ++i) for (int k = 0; k < 3; ++k) o << 3 * i + k << " " << g[i].v[k][0] << " " << g[i].v[k][1] << " " << g[i].v[k][2] << "\n"; o << "[ELEMENTS]\n"; for (size_t i = 0; i < g.size(); ++i) o << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " 1\n"; }
    std::ostringstream null; std::streambuf * old = std::cout.rdbuf(null.rdbuf()); mesh m(f); std::cout.rdbuf(old); std::remove(f);
    triangleground::vecptr l = m.vecptrTriangleground(); REQ(l.size() == g.size(), "loaded " << l.size() << " triangles"); query(c, m, l, g);
  }
  mesh m(ts); query(c, m, ts, g); if (P(.5)) query(c, m, ts, g);
  if (P(.3)) { vector<Tri> h = layout(); triangleground::vecptr hs = mk(h); mesh k(hs); for (size_t i = 0; i < h.size(); ++i) for (int j = 0; j < 3; ++j) h[i].v[j] = W(hs[i]->vertex(j)); if (P(.5)) query(c, k, hs, h); k.copy(m); query(c, k, ts, g);
    if (P(.5)) { m.clear(); mesh e(hs); if (P(.5)) m.copy(e); c << " after the source of the copy has changed"; query(c, k, ts, g); } }
}
