#include "common.hh"
void run_case()
{
  Ctx c; double mu = P(.15) ? pick({-1, -1e-9, 0, NaN}) : U(0, 2); int id = K(-5, 100000), k = K(0, 2); W a[3]; for (int i = 0; i < 3; ++i) a[i] = vec();
  if (P(.2)) { int ax = K(0, 2); a[1][ax] = a[2][ax] = a[0][ax]; } if (P(.1)) a[K(0, 2)] = a[0]; if (P(.1)) a[2] = a[0] + (a[1] - a[0]) * K(-2, 2);
  if (P(.15)) a[2] = a[0] + (a[1] - a[0]) * U(-2, 2) + W(0, 0, U(-2, 2)) + vec() * pick({0, 1e-10, 1e-9, 1e-8, 1e-7, 1e-5}); // nearly vertical
  c << "triangleground friction=" << mu << " id=" << id << " v0=" << a[0] << " v1=" << a[1] << " v2=" << a[2] << " constructor " << k;
  bool bad = !(mu >= 0); triangleground * f = 0; point ar[3] = {pt(a[0]), pt(a[1]), pt(a[2])};
  bool t = thrown([&]{ f = k == 0 ? new triangleground(id, mu, a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]) : k == 1 ? new triangleground(id, mu, ar[0], ar[1], ar[2]) : new triangleground(id, mu, ar); });
  REQ(t == bad, "exception " << t << " expected " << bad); if (t) return;
  triangleground const & g = *f; W n(g.normal()), e1 = a[1] - a[0], e2 = a[2] - a[0], x = e1.cross(e2);
  REQ(g.id() == id, "id " << g.id()); REQ(bits(g.friction(), mu), "friction " << g.friction());
  for (int i = 0; i < 3; ++i) { REQ(W(g.vertex(i)) == a[i], "vertex " << i); REQ(W(g[i]) == a[i], "vertex [] " << i); }
  if (x.norm() > 1e-9 * (1 + e1.norm() * e2.norm())) {
    REQ(near(n.norm(), 1, 1e-9), "normal length " << n.norm()); REQ(n[2] >= 0, "normal points downward " << n.transpose()); W y = x / x.norm(); if (y[2] < 0) y = -y;
    REQ(std::abs(y[2]) < 1e-9 ? (near(n, y, 1e-6) || near(n, -y, 1e-6)) : near(n, y, 1e-6), "normal " << n.transpose() << " expected " << y.transpose());
  }
  W lo(a[0].cwiseMin(a[1]).cwiseMin(a[2])), hi(a[0].cwiseMax(a[1]).cwiseMax(a[2]));
  REQ(W(g.bbox().min()) == lo, "box minimum " << W(g.bbox().min()).transpose()); REQ(W(g.bbox().max()) == hi, "box maximum " << W(g.bbox().max()).transpose());
  delete f;
}
