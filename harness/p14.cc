#include "shell.hh"
void run_case()
{
  Ctx c; Scene z; evaluate(c, z); shell const & s = *z.s; W y = lin(z.pose).col(1); M3 A = lin(z.pose);
  for (int i = -1; i < z.n; ++i) {
    W p, n; affine f; vec3 a; for (int k = 0; k < 16; ++k) f.matrix().data()[k] = U(-1, 1); point pp; vec3 nn; string w = i < 0 ? string("shell") : STR1("rib " << i);
    if (i < 0) { s.contactPoint(pp); s.contactNormal(nn); s.contactPointAffine(f); s.relativeAngles(a); } else { s.contactPoint(i, pp); s.contactNormal(i, nn); s.contactPointAffine(i, f); s.relativeAngles(i, a); }
    p = W(pp); n = W(nn); if (n.hasNaN() || y.cross(n).norm() < 1e-4) continue;
    string b = badframe(f, p, n, y); REQ(b.empty(), "contact frame of " << w << ": " << b);
    W e(a); if (i >= 0) e[0] += s.ribAngle(i); b = badangles(e, rel(f, A)); REQ(b.empty(), "relative angles of " << w << ": " << b);
  }
}
