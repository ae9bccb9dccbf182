// Replay harness: drives the real code with seeded inputs against the property's contract oracle.
#include "enve.hh"
#include <random>
#include <sstream>
#include <iostream>
#include <chrono>
#include <csignal>
#include <cstring>
#include <functional>
#include <algorithm>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
using namespace enve;
using acme::point; using acme::vec3; using acme::affine; using acme::line; using acme::ray; using acme::segment; using acme::plane; using acme::disk; using acme::triangle; using acme::ball; using acme::aabb;
typedef acme::real real_; typedef Eigen::Matrix<double,3,3> M3; typedef Eigen::Vector3d W;
using std::vector; using std::string;
static std::mt19937_64 RNG; static std::string CTX; static long NCASE = 0; static unsigned long SEED0 = 0; static int SECS = 10;
static void dumpctx() { static bool done = false; if (done) return; done = true; string s = "\nFAILING INPUT (case " + std::to_string(NCASE) + " of seed " + std::to_string(SEED0) + "): " + CTX + "\n"; if (write(1, s.data(), s.size())) {} }
static void onsig(int s) { dumpctx(); _exit(98); }
struct Ctx { std::ostringstream o; Ctx() { o.precision(17); } template<class T> Ctx & operator<<(T const & t) { o << t; CTX = o.str(); return *this; }
  Ctx & operator<<(W const & v) { o << "(" << v[0] << "," << v[1] << "," << v[2] << ")"; CTX = o.str(); return *this; }
  Ctx & operator<<(point const & v) { return *this << W(v); }
  Ctx & operator<<(affine const & a) { o << "pose["; for (int c = 0; c < 4; ++c) for (int r = 0; r < 3; ++r) o << a(r, c) << (c == 3 && r == 2 ? "]" : ","); CTX = o.str(); return *this; } };
[[noreturn]] static void fail(string const & m) { std::cout << "PROPERTY VIOLATED: " << m << "\nFAILING INPUT (case " << NCASE << " of seed " << SEED0 << "): " << CTX << std::endl; _exit(1); }
#define STR1(...) ([&]{ std::ostringstream o_; o_.precision(17); o_ << __VA_ARGS__; return o_.str(); }())
#define REQ(c, ...) do { if (!(c)) fail(STR1(__VA_ARGS__)); } while (0)
static double U(double a, double b) { return std::uniform_real_distribution<double>(a, b)(RNG); }
static int K(int a, int b) { return std::uniform_int_distribution<int>(a, b)(RNG); }
static bool P(double p) { return U(0, 1) < p; }
static double pick(std::initializer_list<double> l) { return *(l.begin() + K(0, int(l.size()) - 1)); }
static double scalar() { switch (K(0, 5)) { case 0: return K(-3, 3); case 1: return U(-1, 1); case 2: return U(-10, 10); case 3: return U(-1000, 1000); case 4: return K(-8, 8) * 0.25; default: return U(-3, 3); } }
static W vec() { return W(scalar(), scalar(), scalar()); }
static W vec(double s) { return W(U(-s, s), U(-s, s), U(-s, s)); }
static W unitv() { if (P(.3)) { W v(0, 0, 0); v[K(0, 2)] = P(.5) ? 1 : -1; return v; } W v; do v = vec(1); while (v.norm() < .05); return v / v.norm(); }
static point pt(W const & v) { return point(v[0], v[1], v[2]); }
static M3 rotz(double a) { M3 m; m << cos(a), -sin(a), 0, sin(a), cos(a), 0, 0, 0, 1; return m; }
static M3 rotx(double a) { M3 m; m << 1, 0, 0, 0, cos(a), -sin(a), 0, sin(a), cos(a); return m; }
static M3 roty(double a) { M3 m; m << cos(a), 0, sin(a), 0, 1, 0, -sin(a), 0, cos(a); return m; }
static affine mkpose(M3 const & r, W const & t) { affine a; a.matrix().setIdentity(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) a(i, j) = r(i, j); a(i, 3) = t[i]; } return a; }
static M3 lin(affine const & a) { M3 m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = a(i, j); return m; }
static W org(affine const & a) { return W(a(0, 3), a(1, 3), a(2, 3)); }
static bool near(double a, double b, double tol = 1e-7) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (a == b) return true; return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b)); }
static bool near(W const & a, W const & b, double tol = 1e-7) { if (a.hasNaN() || b.hasNaN()) { for (int i = 0; i < 3; ++i) if (!near(a[i], b[i], tol)) return false; return true; } return (a - b).norm() <= tol * (1 + a.norm() + b.norm()); }
static bool bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b) || a == b; }
template<class F> static bool thrown(F f) { try { f(); return false; } catch (std::exception const &) { return true; } }
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static const double TOL = std::pow(2.0, -26);
void run_case();
#ifndef VP_NOMAIN
int main(int argc, char ** argv)
{
  SEED0 = argc > 1 ? strtoul(argv[1], 0, 10) : 1; SECS = argc > 2 ? atoi(argv[2]) : 10; RNG.seed(SEED0);
  __sanitizer_set_death_callback(dumpctx); signal(SIGABRT, onsig); signal(SIGFPE, onsig);
  auto t0 = std::chrono::steady_clock::now();
  while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < SECS) {
    for (int i = 0; i < 50; ++i) {
      ++NCASE; CTX.clear();
      try { run_case(); } catch (std::exception const & e) { fail(string("unexpected exception: ") + e.what()); }
    }
  }
  std::cout << "CASES " << NCASE << std::endl; return 0;
}
#endif
