#include "shell.hh"
void run_case()
{
  Ctx c; Prof pr = rndprof(); int n = K(1, 3); put(c, pr, n); shell s(n, pr.Rx, pr.Mx, pr.Ry, pr.My, pr.Ly);
  M3 last = M3::Identity(); W at(0, 0, 0);
  for (int k = K(1, 5); k > 0; --k) {
    M3 r = rotz(U(-3.1, 3.1)) * rotx(U(-1.5, 1.5)) * roty(U(-3.1, 3.1)); if (P(.2)) r = M3::Identity(); if (P(.3)) r = last; affine p = mkpose(r, P(.2) ? W(0, 0, 0) : P(.4) ? W(at + vec(pick({0, 1e-6, 1e-4, 1e-2}))) : vec(5)); last = r; at = org(p); c << "\n pose " << p; s.transform(p); if (P(.3)) { vec3 t(vec(2)); c << " translate " << W(t); s.translate(t); p = mkpose(r, org(p) + r * W(t)); }
    bool up = P(.8); if (up) s.updateBBox(); W o = org(p); REQ(near(W(s.translation()), o, 1e-12), "translation " << W(s.translation()).transpose());
    M3 l; auto L = s.linear(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) l(i, j) = L(i, j); REQ((l - r).norm() < 1e-12, "linear part"); { M3 q; auto Q = s.rotation(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q(i, j) = Q(i, j); REQ((q - r).norm() < 1e-12, "rotation of a rigid pose"); } for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQ(near(s.transformation()(i, j), p(i, j), 1e-12), "stored pose");
    REQ(near(W(s.x()), W(r.col(0)), 1e-12) && near(W(s.y()), W(r.col(1)), 1e-12) && near(W(s.z()), W(r.col(2)), 1e-12), "axes"); vec3 a; s.eulerAngles(a); string b = badangles(W(a), r); REQ(b.empty(), b);
    if (up) for (int i = 0; i < 3; ++i) REQ(near(s.bbox()->min(i), o[i] - pr.Rx, 1e-12) && near(s.bbox()->max(i), o[i] + pr.Rx, 1e-12), "bounding cube");
  }
}
