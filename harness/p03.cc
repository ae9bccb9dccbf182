#include "shell.hh"
template<class T> static auto rid(T & s, size_t i, int) -> decltype(int(s.m_ribs[i].m_id)) { return s.m_ribs[i].m_id; }
template<class T> static int rid(T &, size_t i, long) { return int(i); }
static void check(shell & s, Prof const & p, int n, string const & w)
{
  vector<Rib> rb = ribsof(p, n); REQ(int(s.size()) == n, w << ": number of ribs " << s.size()); vector<real_> v; s.contactDepth(v); REQ(int(v.size()) == n, w << ": number of result slots " << v.size());
  for (int i = 0; i < n; ++i) {
    point q = s.ribCenter(i); REQ(q.x() == 0 && q.z() == 0 && near(q.y(), rb[i].y, 1e-9), w << ": centre of rib " << i << " " << q.transpose() << " expected y " << rb[i].y); REQ(near(s.ribWidth(i), rb[i].w, 1e-12), w << ": width of rib " << i);
    REQ(near(s.ribRadius(i), rb[i].R, 1e-7), w << ": radius of rib " << i << " " << s.ribRadius(i) << " expected " << rb[i].R);
    if (std::abs(std::abs(rb[i].y) - TOL) > 1e-10 && (std::abs(rb[i].y) > 1e-10)) REQ(near(s.ribAngle(i), std::atan(p.slope(rb[i].y)), 1e-5), w << ": angle of rib " << i << " " << s.ribAngle(i)); REQ(rid(s, i, 0) == i, w << ": id of rib " << i);
  }
}
void run_case()
{
  Ctx c; Prof p = rndprof(); if (P(.1)) p.Ly = p.Ry * U(1, 1.5); if (P(.1)) p.Rx = -p.Rx; int n = P(.05) ? 0 : K(1, 40); put(c, p, n); std::shared_ptr<shell> s;
  auto bad = [&](int m, bool & unsure) { if (m == 0) return true; bool b = false; for (auto const & r : ribsof(p, m)) { if (std::abs(std::abs(r.y) - p.Ly) < 1e-9 || std::abs(std::abs(r.y) - p.Ry) < 1e-9) unsure = true; if (!(r.R > 0)) b = true; } return b; };
  bool un = false, e = bad(n, un); if (un) return; bool th; shape sh(p.Rx, p.Mx, p.Ry, p.My, p.Ly);
  th = thrown([&]{ s = std::make_shared<shell>(n, p.Rx, p.Mx, p.Ry, p.My, p.Ly); });
  REQ(th == e, "construction " << (th ? "rejected" : "accepted")); if (th) return; check(*s, p, n, "built");
  for (int k = K(0, 3); k > 0; --k) { int m = P(.1) ? 0 : K(1, 60); c << " resize " << m; un = false; e = bad(m, un); if (un) return; th = thrown([&]{ s->resize(m); }); REQ(th == e, "resize " << (th ? "rejected" : "accepted")); if (th) return; check(*s, p, m, "resized"); }
}
