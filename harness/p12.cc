#include "shell.hh"
void run_case()
{
  Ctx c; Scene z; evaluate(c, z); shell & s = *z.s; double A = 0, V = 0, F = 0, D = 0, F1 = 0, D1 = 0; W Pv(0, 0, 0), Nv(0, 0, 0), P1(0, 0, 0), N1(0, 0, 0);
  for (int i = 0; i < z.n; ++i) { Got g = slot(s, i); A += g.area; V += g.volume; F += g.friction * g.volume; D += g.depth * g.volume; Pv += g.point * g.volume; Nv += g.normal * g.volume; F1 += g.friction; D1 += g.depth; P1 += g.point; N1 += g.normal; }
  if (std::abs(V - TOL) < 1e-12) return; if (V < TOL) { F = F1 / z.n; D = D1 / z.n; Pv = P1 / z.n; Nv = N1; } else { F /= V; D /= V; Pv /= V; }
  double a = U(-9, 9), v = a, f = a, d = a; point p = pt(vec()); vec3 nn(1, 2, 3); s.contactArea(a); s.contactVolume(v); s.contactFriction(f); s.contactDepth(d); s.contactPoint(p); s.contactNormal(nn);
  REQ(near(a, A, 1e-9), "total area " << a << " expected " << A); REQ(near(v, V, 1e-9), "total volume " << v << " expected " << V); REQ(near(f, F, 1e-9), "total friction " << f << " expected " << F); REQ(near(d, D, 1e-9), "total depth " << d << " expected " << D);
  REQ(near(W(p), Pv, 1e-9), "total contact point " << p.transpose() << " expected " << Pv.transpose()); if (Nv.norm() > 1e-9) REQ(near(W(nn), W(Nv / Nv.norm()), 1e-9), "total contact normal " << nn.transpose());
}
