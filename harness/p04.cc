#include "common.hh"
void run_case()
{
  Ctx c; double Rx = U(.1, 2), Mx = P(.3) ? K(1, 12) : U(.6, 12), Ry = U(.05, .6), My = P(.3) ? K(1, 12) : U(.6, 12), Ly = P(.2) ? Ry : U(.01, 1) * Ry;
  shape s(Rx, Mx, Ry, My, Ly); double y;
  switch (K(0, 5)) { case 0: y = Ly; break; case 1: y = -Ly; break; case 2: y = 0; break; case 3: y = pick({-1, 1}) * U(0, 3e-8); break; default: y = U(-1.3, 1.3) * Ly; }
  double tol = P(.5) ? TOL : pick({0, 1e-3, 1e-12});
  c << "shape Rx=" << Rx << " Mx=" << Mx << " Ry=" << Ry << " My=" << My << " Ly=" << Ly << " y=" << y << " tol=" << tol;
  bool out = std::abs(y) > Ly; double r = 0, d = 0, a = 0; size_t n = K(1, 3);
  REQ(s.surfaceMaxRadius() == Rx && s.surfaceMaxWidth() == Ly && s.surfaceWidth() == Ly, "maximum radius / half width");
  auto go = [&](std::function<double()> fr, std::function<double()> fd, std::function<double()> fa, string w) {
    REQ(thrown([&]{ r = fr(); }) == out, w << "surfaceRadius exception"); REQ(thrown([&]{ d = fd(); }) == out, w << "surfaceDerivative exception");
    REQ(thrown([&]{ a = fa(); }) == out, w << "surfaceAngle exception"); if (out) return;
    double t = std::pow(std::abs(y) / Ry, My), er = Rx * std::pow(1 - t, 1 / Mx);
    REQ(near(r, er), w << "radius " << r << " expected " << er);
    double ed = 0; if (std::abs(y) > tol) ed = -(y > 0 ? 1 : -1) * Rx / Mx * std::pow(1 - t, 1 / Mx - 1) * My * t / std::abs(y);
    REQ(near(d, ed), w << "slope " << d << " expected " << ed); REQ(near(a, std::atan(ed)), w << "angle " << a << " expected " << std::atan(ed)); };
  go([&]{ return s.surfaceRadius(y); }, [&]{ return s.surfaceDerivative(y, tol); }, [&]{ return s.surfaceAngle(y, tol); }, "shape ");
  if (P(.2)) { double R2 = U(.1, 2); c << " then Rx=" << R2; if (P(.5)) s.Rx() = R2; else s.copy(shape(R2, Mx, Ry, My, Ly)); Rx = R2; REQ(s.surfaceMaxRadius() == Rx, "maximum radius"); go([&]{ return s.surfaceRadius(y); }, [&]{ return s.surfaceDerivative(y, tol); }, [&]{ return s.surfaceAngle(y, tol); }, "changed shape "); }
  if (P(.2) && Ly < .9 * Ry) {
    shell h(n, Rx, Mx, Ry, My, Ly);
    REQ(h.surfaceMaxRadius() == Rx && h.surfaceMaxWidth() == Ly && h.surfaceWidth() == Ly, "shell maximum radius / half width");
    go([&]{ return h.surfaceRadius(y); }, [&]{ return h.surfaceDerivative(y, tol); }, [&]{ return h.surfaceAngle(y, tol); }, "shell ");
  }
}
