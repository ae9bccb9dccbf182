#include "shell.hh"
#include "enve_sfun_interface.h"
#include <fstream>
static string DIR_; static std::ostringstream SINK;
struct Quiet { std::streambuf * b; Quiet() : b(std::cout.rdbuf(SINK.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); SINK.str(""); } };
struct Guard { double pre[64]; EnveOutputBus bus; double post[64]; };
static const double MARK = -777.25;
static bool eq(double a, double b) { return bits(a, b); }
static void compare(Guard const & g, shell const & s, bool in, int n)
{
  affine f; double x; s.contactPointAffine(f); REQ(eq(g.bus.InMesh, in ? 1 : 0), "in-mesh flag " << g.bus.InMesh << ", expected " << in);
  for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) REQ(eq(g.bus.ShellAffine[4 * c + r], f.matrix()(r, c)), "shell frame entry (" << r << "," << c << ") is " << g.bus.ShellAffine[4 * c + r] << ", expected " << f.matrix()(r, c));
  s.contactDepth(x); REQ(eq(g.bus.ShellRho, x), "shell depth " << g.bus.ShellRho << ", expected " << x); s.contactFriction(x); REQ(eq(g.bus.ShellFriction, x), "shell friction " << g.bus.ShellFriction << ", expected " << x);
  for (int i = 0; i < 20; ++i) {
    double R = g.bus.RibsRho[i], F = g.bus.RibsFriction[i];
    if (i >= n) { REQ(R != R && F != F, "slot " << i << " of a missing rib holds depth " << R << " friction " << F); for (int k = 0; k < 16; ++k) REQ(g.bus.RibsAffine[16 * i + k] != g.bus.RibsAffine[16 * i + k], "slot " << i << " of a missing rib holds a frame entry " << g.bus.RibsAffine[16 * i + k]); continue; }
    s.contactDepth(i, x); REQ(eq(R, x), "depth in slot " << i << " is " << R << ", expected " << x); s.contactFriction(i, x); REQ(eq(F, x), "friction in slot " << i << " is " << F << ", expected " << x); s.contactPointAffine(i, f);
    for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) REQ(eq(g.bus.RibsAffine[16 * i + 4 * c + r], f.matrix()(r, c)), "frame in slot " << i << ", entry (" << r << "," << c << ") is " << g.bus.RibsAffine[16 * i + 4 * c + r] << ", expected " << f.matrix()(r, c));
  }
  for (int i = 0; i < 64; ++i) REQ(g.pre[i] == MARK && g.post[i] == MARK, "memory next to the output bus was overwritten");
}
void run_case()
{
  if (DIR_.empty()) { char t[] = "/tmp/vp16XXXXXX"; DIR_ = mkdtemp(t); atexit([] { unlink((DIR_ + "/m.rdf").c_str()); unlink((DIR_ + "/m.obj").c_str()); rmdir(DIR_.c_str()); }); }
  static int inits = 0; if (++inits > 3000) { usleep(20000); return; } // every initialisation leaks its ground and shell, as the interface does
  Ctx c; Prof p = rndprof(); int n = P(.2) ? 20 : K(1, 20); if (P(.5)) n = K(1, 6); put(c, p, n); affine pose = shellpose(); double h = org(pose)[2] - U(.6, 1.3) * p.Rx, mu = U(0, 2); vector<Tri> t = shellpatch(p, pose, .3); if (t.empty()) return; put(c, t); c << " flat height " << h << " friction " << mu;
  bool ob = P(.3); string path = DIR_ + (ob ? "/m.obj" : "/m.rdf"); { std::ofstream o(path); o.precision(17); if (!ob) o << "[NODES]\n";
    for (size_t i = 0; i < t.size(); ++i) for (int k = 0; k < 3; ++k) { if (ob) o << "v"; else o << 3 * i + k; o << " " << t[i].v[k][0] << " " << t[i].v[k][1] << " " << t[i].v[k][2] << "\n"; }
    if (!ob) o << "[ELEMENTS]\n"; for (size_t i = 0; i < t.size(); ++i) { if (ob) o << "f " << 3 * i + 1 << " " << 3 * i + 2 << " " << 3 * i + 3; else o << 3 * i << " " << 3 * i + 1 << " " << 3 * i + 2 << " " << t[i].mu; o << "\n"; } }
  if (P(.03)) { string f = P(.5) ? DIR_ + "/m.txt" : "x"; if (P(.3)) unsetenv("ENVE_GROUND_PATH"); else setenv("ENVE_GROUND_PATH", f.c_str(), 1); double z = n; Quiet q; REQ(thrown([&] { enve_sfun_init(&z, &p.Rx, &p.Mx, &p.Ry, &p.My, &p.Ly, &h, &mu); }), "initialisation without a mesh file was not rejected"); }
  setenv("ENVE_GROUND_PATH", path.c_str(), 1); double size = n; std::unique_ptr<ground::mesh> m; { Quiet q; enve_sfun_init(&size, &p.Rx, &p.Mx, &p.Ry, &p.My, &p.Ly, &h, &mu); if (ob) m.reset(new ground::mesh(path, 1.0, affine(mkpose(M3::Identity(), W(0, 0, 0))))); else m.reset(new ground::mesh(path, affine(mkpose(M3::Identity(), W(0, 0, 0))))); }
  ground::flat g(mu, point(0, 0, h), vec3(0, 0, 1)); shell s(n, p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  int steps = P(.3) ? K(1, 3) : K(10, 60); for (int k = 0; k < steps; ++k) {
    if (k && P(.7)) pose = shellpose(); double me = K(0, 1), fe = K(0, 1); bool bad = P(.1); if (bad) { double w[] = {2, -1, .5, NaN, 1e30}; (P(.5) ? me : fe) = w[K(0, 4)]; }
    c << "\n step " << k << " " << pose << " method " << me << " selector " << fe; EnveInputBus in; for (int j = 0; j < 16; ++j) in.HubAffine[j] = pose.matrix()(j % 4, j / 4);
    std::unique_ptr<Guard> o(new Guard); for (int j = 0; j < 64; ++j) o->pre[j] = o->post[j] = MARK; double * b = (double *)&o->bus; for (size_t j = 0; j < sizeof(EnveOutputBus) / 8; ++j) b[j] = MARK;
    if (bad) { REQ(thrown([&] { enve_sfun_out(&in, &o->bus, &me, &fe); }), "method " << me << " with selector " << fe << " was not rejected"); if (P(.5)) break; shell z(n, p.Rx, p.Mx, p.Ry, p.My, p.Ly); continue; }
    enve_sfun_out(&in, &o->bus, &me, &fe); string ms = me == 0 ? "geometric" : "sampling"; bool hit = true; if (fe == 0) hit = s.setup(*m, pose, ms); if (fe == 1 || !hit) s.setup(g, pose, ms); compare(*o, s, fe == 1 || hit, n);
  }
}
