#include "ground.hh"
#include <cstdio>
#include <fstream>
using enve::ground::mesh;
static string num(double x) { std::ostringstream o; o.precision(P(.5) ? 17 : 6); if (P(.1)) o << std::scientific; o << x; return o.str(); }
static string sp() { return P(.85) ? " " : string(size_t(K(1, 3)), ' '); }
struct Line { string text; int kind; double x[3]; long e[3]; double mu; bool bad; Line() : kind(0), mu(0), bad(false) {} };   // kind: 0 other, 1 node, 2 element
static double val(string const & s) { return std::stod(s); }
static Line node(bool obj, int id)
{
  Line l; l.kind = 1; string t = obj ? "v" : std::to_string(P(.8) ? id : K(-3, 99)); int n = 3; if (P(.03)) { n = pick({1, 2, 4, 5, 0}); l.bad = true; }
  if (P(.1)) t = (P(.5) ? " " : "\t") + t;
  for (int i = 0; i < n; ++i) { string s = num(scalar()); if (P(.01)) { s = "x"; l.bad = true; } else if (i < 3) l.x[i] = val(s); t += sp() + s; }
  if (P(.1)) t += string(size_t(K(1, 2)), ' '); l.text = t; return l;
}
static Line element(bool obj, int nn, double mu)
{
  Line l; l.kind = 2; string t = obj ? "f" : ""; int n = 3; bool cnt = P(.02); if (cnt) { n = int(pick({2, 4})); l.bad = true; }
  for (int i = 0; i < n; ++i) {
    long e = nn > 0 ? K(0, nn - 1) : 0; if (P(.06)) e = nn > 0 ? nn - 1 : 0; if (P(.02)) e = long(pick({double(nn), -1., double(nn) + 1, 100000., -7.})); string s = std::to_string(obj ? e + 1 : e);
    if (P(.01)) { s = "q"; l.bad = true; } else { if (i < 3) l.e[i] = e; if (e < 0 || e >= nn) l.bad = true; }
    t += (i == 0 && !obj ? (P(.9) ? "" : " ") : sp()) + s;
  }
  l.mu = mu;
  if (!obj && !(cnt && n == 2)) { double f = P(.8) ? U(0, 2) : pick({0., 1., .5}); if (P(.02)) { f = -U(.001, 1); l.bad = true; } string s = num(f); if (P(.006)) { s = "nan"; l.bad = true; } else l.mu = val(s); if (!cnt && P(.02)) l.bad = true; else { t += sp() + s; if (P(.02)) { t += " 1"; l.bad = true; } } }
  if (P(.1)) t += string(size_t(K(1, 2)), ' '); l.text = t; return l;
}
void run_case()
{
  Ctx c; bool obj = P(.5); double mu = P(.04) ? -U(.01, 1) : P(.005) ? NaN : P(.2) ? 0 : U(0, 2);
  affine pose = P(.3) ? mkpose(M3::Identity(), W(0, 0, 0)) : mkpose(M3(rotz(U(-3, 3)) * rotx(U(-1, 1)) * (P(.3) ? 2. : 1.)), vec(5));
  vector<Line> f; int nn = 0; bool bad = false; vector<W> pos; vector<Line> el; int section = 0;
  auto put = [&](Line const & l) { f.push_back(l); if (l.bad) bad = true; if (l.kind == 1) { pos.push_back(l.bad ? W(0, 0, 0) : W(l.x[0], l.x[1], l.x[2])); ++nn; } if (l.kind == 2) el.push_back(l); };
  auto note = [&](string const & s) { Line l; l.text = s; put(l); };
  auto noise = [&] { while (P(.12)) note(obj ? (P(.4) ? "# v 1 2 3" : P(.5) ? "vn 0 0 1" : P(.5) ? "" : "o thing") : (P(.4) ? "{ comment }" : P(.5) ? "% 1 2 3" : P(.5) ? "# note" : P(.5) ? "  # 3 4" : "{7 0 0 1")); };
  if (!obj && P(.2)) note("some header text 1 2 3");
  int blocks = P(.75) ? 1 : K(1, 3);
  for (int b = 0; b < blocks; ++b) {
    if (!obj) { if (section == 2 || P(.97)) { note(P(.7) ? "[NODES]" : P(.5) ? "NODES" : " [NODES] 4"); section = 1; } noise(); }
    int k = P(.03) ? 0 : K(1, 8); for (int i = 0; i < k; ++i) { Line l = node(obj, int(nn)); if (!obj && section != 1) { l.kind = 0; l.bad = false; } put(l); noise(); }
    if (!obj) { if (section == 1 || P(.98)) { note(P(.7) ? "[ELEMENTS]" : P(.5) ? "ELEMENTS" : "\t[ELEMENTS]"); section = 2; } noise(); if (section != 2) continue; }
    k = P(.04) ? 0 : K(1, 7); for (int i = 0; i < k; ++i) { Line l = element(obj, nn, mu); if (obj && !(mu >= 0)) l.bad = true; put(l); noise(); }
  }
  if (el.empty()) bad = true;
  string name = "p15_" + std::to_string(long(getpid())); string path = name + (obj ? ".obj" : ".rdf"), used = path; bool make = true;
  if (P(.02)) { used = path = name + string(P(.5) ? (obj ? ".rdf" : ".obj") : P(.5) ? ".txt" : obj ? ".obj2" : ".RDF"); bad = true; }
  else if (P(.01)) { make = false; bad = true; }
  else if (P(.005)) { used = P(.5) ? "f" : ""; make = false; bad = true; }
  string nl = P(.9) ? "\n" : "\n"; string all; for (size_t i = 0; i < f.size(); ++i) { all += f[i].text; if (i + 1 < f.size() || P(.8)) all += nl; }
  c << (obj ? "obj " : "rdf ") << used << " friction " << mu << " " << pose << (make ? " file:\n" : " no file\n") << (make ? all : string());
  if (make) { std::ofstream o(path, std::ios::binary); o << all; }
  std::ostringstream null; std::streambuf * old = std::cout.rdbuf(null.rdbuf()); bool ret = true; string what;
  std::shared_ptr<mesh> m; int how = K(0, 1);
  try {
    if (how) m = obj ? std::make_shared<mesh>(used, mu, pose) : std::make_shared<mesh>(used, pose);
    else { m = std::make_shared<mesh>(); ret = obj ? m->load(used, mu, pose) : m->load(used, pose); }
  } catch (std::exception const & e) { what = e.what(); if (what.empty()) what = "?"; }
  std::cout.rdbuf(old); if (make) std::remove(path.c_str());
  if (bad) { REQ(!what.empty(), "a malformed file was accepted"); return; }
  REQ(what.empty(), "a well-formed file was rejected: " << what); REQ(ret, "load returned false");
  triangleground::vecptr const & l = m->vecptrTriangleground(); REQ(l.size() == el.size(), "loaded " << l.size() << " triangles of " << el.size());
  for (size_t i = 0; i < el.size(); ++i) {
    for (int k = 0; k < 3; ++k) { W e = lin(pose) * pos[size_t(el[i].e[k])] + org(pose); REQ(near(e, W(l[i]->vertex(k)), 1e-12), "triangle " << i << " vertex " << k << " is " << W(l[i]->vertex(k)).transpose() << " expected " << e.transpose()); }
    REQ(l[i]->friction() == el[i].mu, "triangle " << i << " friction " << l[i]->friction() << " expected " << el[i].mu); REQ(l[i]->id() == int(i), "triangle " << i << " id " << l[i]->id());
  }
  // the loaded mesh answers queries (boxes and tree are built)
  for (size_t i = 0; i < el.size(); ++i) { triangleground::vecptr out; bool r = m->intersection(std::make_shared<acme::aabb>(pt(W(l[i]->vertex(0)).cwiseMin(W(l[i]->vertex(1))).cwiseMin(W(l[i]->vertex(2)))), pt(W(l[i]->vertex(0)).cwiseMax(W(l[i]->vertex(1))).cwiseMax(W(l[i]->vertex(2)))), 0, 0), out); bool f2 = false; for (auto const & x : out) if (x.get() == l[i].get()) f2 = true; REQ(r && f2, "triangle " << i << " is not found by its own box"); }
}
