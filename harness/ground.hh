// Independent oracle of rib / ground contact, used by the rib and shell harnesses.
#pragma once
#include "common.hh"
struct Tri { W v[3]; double mu; W n() const { W m = (v[1] - v[0]).cross(v[2] - v[0]); m /= m.norm(); return m[2] < 0 ? W(-m) : m; } };
struct Rib { double R, y, w; };
struct Res { int hit; W point, normal; double friction, depth, area, volume; string why; Res() : hit(0), friction(0), depth(0), area(0), volume(0) {} };
static const double AMB = 1e-6;
static Res amb(string const & w) { Res r; r.hit = -1; r.why = w; return r; }
static Res none_(Rib const & b, affine const & p) { Res r; r.hit = 0; r.point = org(p) + lin(p) * (W(0, b.y, 0) - b.R * W(0, 0, 1)); r.normal = lin(p) * W(0, 0, 1); return r; }
static void seg_(Res & r, Rib const & b) { double d = r.depth, h = std::sqrt(d * (2 * b.R - d)); r.area = 2 * h * b.w; r.volume = (b.R * b.R * std::acos((b.R - d) / b.R) - (b.R - d) * h) * b.w; }
// flat ground, geometric
static Res flatGeo(Rib const & b, affine const & p, W const & o, W n, double mu)
{
  n /= n.norm(); W c = org(p) + lin(p) * W(0, b.y, 0), nd = lin(p) * W(0, 1, 0); double s2 = 1 - n.dot(nd) * n.dot(nd); if (s2 < 1e-5) return s2 < 1e-12 ? none_(b, p) : amb("parallel");
  double h = (o - c).dot(n), dist2 = h * h / s2, disc = s2 * (b.R * b.R - dist2); if (std::abs(disc) < AMB) return amb("tangent"); if (disc < 0) return none_(b, p);
  Res r; r.hit = 1; r.point = c + (n - n.dot(nd) * nd) * (h / s2); r.depth = b.R - std::sqrt(dist2); r.friction = mu; seg_(r, b);
  if (std::abs(h) < 1e-4 * b.R) return amb("centre on the ground"); W t = nd.cross(W(c - r.point)); t /= t.norm(); r.normal = n - t * n.dot(t); r.normal /= r.normal.norm(); return r;
}
// vertical line: 1 hit, 0 miss, -1 too close to call
static int down(Tri const & t, double x, double y, double & z)
{
  double ax = t.v[1][0] - t.v[0][0], ay = t.v[1][1] - t.v[0][1], bx = t.v[2][0] - t.v[0][0], by = t.v[2][1] - t.v[0][1], det = ax * by - ay * bx;
  if (std::abs(det) < 1e-12) return 0; if (std::abs(det) < 1e-4) return -1;
  double sx = x - t.v[0][0], sy = y - t.v[0][1], u = (sx * by - sy * bx) / det, v = (ax * sy - ay * sx) / det, m = std::min(std::min(u, v), 1 - u - v);
  if (m < -AMB) return 0; if (m < -1e-12) return -1; z = t.v[0][2] + u * (t.v[1][2] - t.v[0][2]) + v * (t.v[2][2] - t.v[0][2]); return 1;
}
static int highest(vector<Tri> const & g, double x, double y, double & z, double & mu)
{
  bool any = false; double bz = 0, bm = 0; bool maybe = false;
  for (Tri const & t : g) { double q; int k = down(t, x, y, q); if (k < 0) maybe = true; if (k == 1) { if (any && std::abs(q - bz) < 1e-10 && t.mu != bm) maybe = true; if (!any || q > bz) { bz = q; bm = t.mu; any = true; } } }
  if (maybe) return -1; z = bz; mu = bm; return any;
}
static double SAMD = 0; // sampled depth, also where there is no contact
template<class F> static Res sampling(Rib const & b, affine const & p, F f)
{
  W c = org(p) + lin(p) * W(0, b.y, 0), q[4]; double mu[4], dx = .1 * b.R, dy = .3 * b.w; bool ok = true;
  W off[4] = {W(dx, 0, 0), W(-dx, 0, 0), W(0, dy, 0), W(0, -dy, 0)};
  for (int i = 0; i < 4; ++i) { W l = c + lin(p) * off[i]; double z = 0; int k = f(l[0], l[1], z, mu[i]); if (k < 0) return amb("sample on an edge"); if (!k) ok = false; q[i] = W(l[0], l[1], z); }
  if (!ok) return none_(b, p);
  Res r; r.point = (q[0] + q[1] + q[2] + q[3]) / 4; W n = (q[0] - q[1]).cross(q[2] - q[3]); double m = n.norm(); if (m < 1e-5) return amb("degenerate samples"); r.normal = n / m;
  W ey = lin(p).col(1), ex = r.normal.cross(ey); if (ex.norm() < 1e-4) return amb("frame"); ex /= ex.norm(); W ez = ey.cross(ex); ez /= ez.norm();
  r.depth = b.R * std::abs(r.normal.dot(ez)) - (r.point - c).norm(); r.friction = (mu[0] + mu[1] + mu[2] + mu[3]) / 4;
  SAMD = r.depth; if (std::abs(r.depth) < 1e-10) return amb("depth near zero"); if (r.depth < 0) return none_(b, p);
  r.hit = 1; seg_(r, b); return r;
}
static Res flatSam(Rib const & b, affine const & p, W const & o, W n, double mu)
{
  n /= n.norm(); if (std::abs(n[2]) < AMB) return amb("vertical ground");
  return sampling(b, p, [&](double x, double y, double & z, double & m) { z = o[2] - (n[0] * (x - o[0]) + n[1] * (y - o[1])) / n[2]; m = mu; return 1; });
}
static Res meshSam(Rib const & b, affine const & p, vector<Tri> const & g) { return sampling(b, p, [&](double x, double y, double & z, double & m) { return highest(g, x, y, z, m); }); }
static bool EDGE = true; // vertices on the disk plane are decided (rib evaluated directly, without candidate refinement)
// chord of a triangle in a disk: 1, 0, -1
static int chord(Tri const & t, W const & c, W const & nd, double R, W & A, W & B)
{
  double d[3]; W q[3]; int n = 0, zero = 0; for (int i = 0; i < 3; ++i) { d[i] = (t.v[i] - c).dot(nd); if (EDGE && std::abs(d[i]) < 1e-13) { d[i] = 0; ++zero; } else if (!EDGE && std::abs(d[i]) < 1e-5) return -1; }
  int tiny = -1; for (int i = 0; i < 3; ++i) if (std::abs(d[i]) < 1e-9) { int j = (i + 1) % 3, k = (i + 2) % 3; if (d[j] * d[k] > 1e-4 && (t.v[j] - t.v[k]).norm() < 100) tiny = i; }
  if (tiny >= 0) return 0; // only a corner reaches the plane: a degenerate chord at most
  for (int i = 0; i < 3; ++i) if (d[i] != 0 && std::abs(d[i]) < 1e-5) return -1;
  W m = (t.v[1] - t.v[0]).cross(t.v[2] - t.v[0]); if (m.norm() < 1e-4) return -1; m /= m.norm(); double s2 = m.cross(nd).squaredNorm(); if (s2 < 1e-5) return s2 < 1e-12 ? 0 : -1;
  for (int i = 0; i < 3; ++i) if (d[i] == 0) q[n++] = t.v[i];
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3; if (d[i] * d[j] < 0) q[n++] = t.v[i] + (t.v[j] - t.v[i]) * (d[i] / (d[i] - d[j])); }
  if (n < 2) return 0; if (n > 2) return -1;
  W e = q[1] - q[0], f = q[0] - c; if (e.norm() < 1e-4) return -1; double a2 = e.dot(e), a1 = f.dot(e), a0 = f.dot(f) - R * R, disc = a1 * a1 - a0 * a2;
  if (disc < -AMB) return 0; if (std::abs(disc) < 1e-12 * a2) return 0; /* touches the rim: a degenerate chord at most */ if (disc < AMB) return -1;
  double r = std::sqrt(disc), t0 = -(a1 + r) / a2, t1 = -(a1 - r) / a2; if (t1 < -1e-5 || t0 > 1 + 1e-5) return 0; if (t1 < 1e-5 || t0 > 1 - 1e-5) return -1;
  A = q[0] + e * std::max(0., std::min(1., t0)); B = q[0] + e * std::max(0., std::min(1., t1)); return 1;
}
static Res meshGeo(Rib const & b, affine const & p, vector<Tri> const & g)
{
  M3 L = lin(p); W c = org(p) + L * W(0, b.y, 0), nd = L * W(0, 1, 0); Res r; double area = 0, vol = 0, fr = 0; W P(0, 0, 0), N(0, 0, 0); bool any = false; double scale = 0;
  for (Tri const & t : g) {
    W A, B; int k = chord(t, c, nd, b.R, A, B); if (k < 0) return amb("triangle section"); if (!k) continue; any = true;
    W a = L.transpose() * (A - c), e = L.transpose() * (B - c); if (a.norm() < 1e-4 || e.norm() < 1e-4) return amb("chord end at the centre");
    double ra = std::min(b.R, a.norm()), rb = std::min(b.R, e.norm()), cs = a.dot(e) / (a.norm() * e.norm()), sn = a.cross(e).norm() / (a.norm() * e.norm()), ang = std::atan2(sn, cs);
    if (ang > 3.1415) return amb("chord through the centre");
    W u = a / a.norm() + e / e.norm(); u /= u.norm(); double rc = std::min(b.R, std::max(0., 2 * ra * rb / (ra + rb) * std::cos(ang / 2)));
    double len = (A - B).norm(), sec = b.R * b.R * ang / 2 - ra * rb * std::sin(ang) / 2; W pp = org(p) + L * (W(0, b.y, 0) + rc * u), nt = L * W(-u), nn = nt + nd * (t.n() - nt).dot(nd); nn /= nn.norm();
    area += len * b.w; vol += sec * b.w; P += sec * b.w * pp; N += sec * b.w * nn; fr += sec * b.w * t.mu; scale += std::abs(sec * b.w);
  }
  if (!any) return none_(b, p); if (vol < 1e-7) return vol < 1e-13 && vol > -1e-13 ? amb("volume") : amb("volume"); if (area < AMB && vol < AMB) return amb("small");
  r.hit = 1; r.point = P / vol; if (N.norm() / vol < 1e-3) return amb("normal"); r.normal = N / N.norm(); r.friction = fr / vol; r.depth = b.R - (r.point - c).norm(); r.area = area; r.volume = vol; return r;
}
struct Got { bool hit; W point, normal; double friction, depth, area, volume; };
static Got got(bool h, enve::output const & o) { Got g; g.hit = h; g.point = W(o.point); g.normal = W(o.normal); g.friction = o.friction; g.depth = o.depth; g.area = o.area; g.volume = o.volume; return g; }
static void cmp(Res const & e, Got const & g, string const & w, double tol = 1e-6)
{
  if (e.hit < 0) return;
  REQ(g.hit == (e.hit == 1), w << ": contact reported " << g.hit << " expected " << e.hit);
  REQ(near(e.point, g.point, tol), w << ": contact point " << g.point.transpose() << " expected " << e.point.transpose());
  REQ(near(e.normal, g.normal, tol), w << ": contact normal " << g.normal.transpose() << " expected " << e.normal.transpose());
  REQ(near(e.friction, g.friction, tol), w << ": friction " << g.friction << " expected " << e.friction);
  REQ(near(e.depth, g.depth, tol), w << ": depth " << g.depth << " expected " << e.depth);
  REQ(near(e.area, g.area, tol), w << ": area " << g.area << " expected " << e.area);
  REQ(near(e.volume, g.volume, tol), w << ": volume " << g.volume << " expected " << e.volume);
}
static triangleground::ptr mk(Tri const & t, int id) { return std::make_shared<triangleground const>(id, t.mu, pt(t.v[0]), pt(t.v[1]), pt(t.v[2])); }
// the ids are the user's: in order, all equal, few distinct ones, negative
static triangleground::vecptr mk(vector<Tri> const & g, int id0 = 0) { triangleground::vecptr v; int m = K(0, 4); for (size_t i = 0; i < g.size(); ++i) v.push_back(mk(g[i], m == 1 ? id0 : m == 2 ? id0 + K(0, 2) : m == 3 ? -int(i) : id0 + int(i))); return v; }
static void put(Ctx & c, vector<Tri> const & g) { c << " ground"; for (Tri const & t : g) c << "[" << t.v[0] << t.v[1] << t.v[2] << " mu=" << t.mu << "]"; }
static Tri tri(W a, W b, W c, double mu) { Tri t; if (P(.5)) std::swap(a, b); int k = K(0, 2); W v[3] = {a, b, c}; for (int i = 0; i < 3; ++i) t.v[i] = v[(i + k) % 3]; t.mu = mu; return t; }
// patch of ground around (x, y): height field, layers or loose triangles
static vector<Tri> patch(double x, double y, double z, double ext)
{
  vector<Tri> g; int kind = K(0, 4), n = K(1, 5); double amp = pick({0, .02, .2}) * ext, mu0 = U(0, 1.5); bool dy = P(.3); double st = 2 * ext / n, x0 = x - ext, y0 = y - ext;
  if (dy) { x0 = std::floor(x0 * 8) / 8; y0 = std::floor(y0 * 8) / 8; st = std::max(.125, std::floor(st * 8) / 8); }
  auto mu = [&] { return P(.5) ? mu0 : U(0, 1.5); };
  if (kind <= 2) for (int l = 0; l < (kind == 2 ? 2 : 1); ++l) {
    vector<W> v; double sl = P(.3) ? U(-.4, .4) : 0, sm = P(.3) ? U(-.4, .4) : 0;
    for (int i = 0; i <= n; ++i) for (int j = 0; j <= n; ++j) v.push_back(W(x0 + i * st, y0 + j * st, z + sl * (i - n / 2.) * st + sm * (j - n / 2.) * st + (amp ? U(-amp, amp) : 0) + l * U(-.3, .3) * ext));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { W a = v[i * (n + 1) + j], b = v[(i + 1) * (n + 1) + j], c = v[(i + 1) * (n + 1) + j + 1], d = v[i * (n + 1) + j + 1]; if (P(.9)) g.push_back(tri(a, b, c, mu())); if (P(.9)) g.push_back(tri(a, c, d, mu())); }
  }
  else if (kind == 3) for (int i = 0; i < K(1, 6); ++i) g.push_back(tri(W(x, y, z) + vec(ext), W(x, y, z) + vec(ext), W(x, y, z) + vec(ext), mu()));
  else { double s = 4 * ext; g.push_back(tri(W(x - s, y - s, z), W(x + s, y - s, z + U(-.2, .2)), W(x, y + s, z + U(-.2, .2)), mu())); if (P(.5)) g.push_back(tri(W(x - s, y - s, z + U(-.3, .3)), W(x + s, y - s, z), W(x, y + s, z + U(-.3, .3)), mu())); if (P(.4)) { Tri t = g[0]; g.push_back(t); } }
  for (size_t i = 0; i < g.size();) { W m = (g[i].v[1] - g[i].v[0]).cross(g[i].v[2] - g[i].v[0]); if (m.norm() < 1e-3) { g[i] = g.back(); g.pop_back(); } else ++i; }
  std::shuffle(g.begin(), g.end(), RNG); return g;
}
static affine ribpose(double R) { M3 r = M3::Identity(); switch (K(0, 5)) { case 0: break; case 1: r = rotz(U(-3, 3)); break; case 2: r = rotz(U(-3, 3)) * rotx(U(-.3, .3)); break; case 3: r = rotz(U(-3, 3)) * rotx(U(-.5, .5)) * roty(U(-3.1, 3.1)); break; case 4: r = roty(U(-3.1, 3.1)); break; default: r = rotz(U(-3, 3)) * rotx(U(-1.4, 1.4)) * roty(U(-3, 3)); }
  W t = P(.3) ? W(0, 0, 0) : P(.5) ? vec(3) : W(K(-4, 4) * .25, K(-4, 4) * .25, K(-4, 4) * .25); (void)R; return mkpose(r, t); }
static Rib rndrib() { Rib b; b.R = P(.2) ? K(1, 4) * .25 : U(.15, 1); b.y = P(.3) ? 0 : U(-.3, .3); b.w = U(.01, .4); return b; }
static enve::rib mkrib(Rib const & b) { return enve::rib(K(0, 9), b.R, b.y, b.w, U(-.5, .5)); }
static void put(Ctx & c, Rib const & b, affine const & p) { c << "rib R=" << b.R << " y=" << b.y << " width=" << b.w << " " << p; }
struct Flat { W o, n; double mu; };
static Flat rndflat(Rib const & b, affine const & p) { Flat f; W c = org(p) + lin(p) * W(0, b.y, 0); f.n = P(.4) ? W(0, 0, 1) : W(U(-.6, .6), U(-.6, .6), U(.3, 1)); if (P(.3)) f.n *= U(.2, 4); f.mu = U(0, 2); f.o = c + W(U(-2, 2), U(-2, 2), 0); double h = U(-.3, 1.3) * b.R; f.o[2] -= ((f.o - c).dot(f.n) + h * f.n.norm()) / f.n[2]; return f; }
static void put(Ctx & c, Flat const & f) { c << " flat o=" << f.o << " n=" << f.n << " mu=" << f.mu; }
static string meth() { return P(.5) ? "geometric" : "sampling"; }
static Res expect(Rib const & b, affine const & p, Flat const & f, string const & m) { return m == "geometric" ? flatGeo(b, p, f.o, f.n, f.mu) : flatSam(b, p, f.o, f.n, f.mu); }
static Res expect(Rib const & b, affine const & p, vector<Tri> const & g, string const & m) { return m == "geometric" ? meshGeo(b, p, g) : meshSam(b, p, g); }
static void dirty(enve::output & o) { o.point = pt(vec(5)); o.normal = acme::vec3(1, 2, 3); o.friction = 9; o.depth = 8; o.area = 7; o.volume = 6; }
static vector<Tri> ribpatch(Rib const & b, affine const & p)
{
  W c = org(p) + lin(p) * W(0, b.y, 0), n = lin(p) * W(0, 1, 0), x = lin(p).col(0), z = lin(p).col(2); vector<Tri> g = patch(c[0], c[1], c[2] - U(-.2, 1.2) * b.R, P(.3) ? 2 * b.R : U(.5, 1.5) * b.R);
  if (P(.2)) { // a corner that only just reaches the rib plane
    double s = P(.5) ? 1 : -1; W q = c + x * U(-.6, .6) * b.R - z * U(0, .6) * b.R; Tri t = tri(q - n * (s * pick({0, 1e-12, 1e-11, 1e-10})), q + n * (s * U(.05, .6)) + x * U(-.3, .3) + z * U(-.3, .3), q + n * (s * U(.05, .6)) + x * U(-.3, .3) + z * U(-.3, .3), U(0, 1.5));
    if ((t.v[1] - t.v[0]).cross(t.v[2] - t.v[0]).norm() > 1e-3) g.insert(g.begin() + K(0, int(g.size())), t);
  }
  if (P(.15)) { // a triangle whose section touches the rim of the rib
    double h = P(.5) ? -M_PI / 2 : U(-2.6, -.5); W o = x * std::cos(h) + z * std::sin(h), q = c + o * b.R, e = z * std::cos(h) - x * std::sin(h), m = n + o * (P(.5) ? 0 : U(-1, 1));
    Tri t = tri(q - e * U(.1, .4) - m * U(.05, .3), q + e * U(.1, .4) - m * U(.05, .3), q + e * U(-.05, .05) + m * U(.05, .3), U(0, 1.5)); g.insert(g.begin() + K(0, int(g.size())), t);
  }
  return g;
}
static int AMBN = 0, HITN = 0, MISSN = 0; static void tally(Res const & r) { (r.hit < 0 ? AMBN : r.hit ? HITN : MISSN)++; }
static struct Tally { ~Tally() { if (getenv("VP_TALLY")) std::cerr << "hit " << HITN << " miss " << MISSN << " undecided " << AMBN << "\n"; } } TALLY;
