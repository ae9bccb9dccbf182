#include "common.hh"
static const double PI_ = 3.14159265358979323846;
static bool rel(double a, double b) { return std::abs(a - b) <= 1e-9 * (std::abs(a) + std::abs(b)) + 1e-300; }
void run_case()
{
  Ctx c; W a = vec(), b = vec(), d = vec(), x = vec(), t = vec(); double r = std::abs(scalar()); W n = unitv();
  switch (K(0, 6)) {
    case 0: { if (P(.1)) b = a; segment s(pt(a), pt(b)); c << "segment " << a << b << " translate " << t; REQ(near(s.length(), (b - a).norm(), 1e-12), "length " << s.length()); REQ(near(W(s.centroid()), (a + b) / 2, 1e-12), "centroid " << W(s.centroid()).transpose()); REQ(near(W(s.toVector()), b - a, 1e-12), "toVector");
      double l = s.length(); s.translate(vec3(t)); REQ(near(W(s.vertex(0)), a + t, 1e-12) && near(W(s.vertex(1)), b + t, 1e-12), "translated vertices " << W(s.vertex(0)).transpose() << " / " << W(s.vertex(1)).transpose()); REQ(near(s.length(), l, 1e-9), "length changed by translation"); break; }
    case 1: { triangle s(pt(a), pt(b), pt(d)); c << "triangle " << a << b << d << " translate " << t; double A = (b - a).cross(d - a).norm() / 2, p = (b - a).norm() + (d - b).norm() + (a - d).norm();
      REQ(near(s.area(), A, 1e-9), "area " << s.area() << " expected " << A); REQ(near(s.perimeter(), p, 1e-12), "perimeter " << s.perimeter() << " expected " << p); REQ(near(W(s.centroid()), (a + b + d) / 3, 1e-12), "centroid");
      W v[3] = {a, b, d}; for (int i = 0; i < 3; ++i) { REQ(W(s.edge(i).vertex(0)) == v[i] && W(s.edge(i).vertex(1)) == v[(i + 1) % 3], "edge " << i); }
      W m = (b - a).cross(d - a); if (m.norm() > 1e-6 * (1 + p * p)) { m.normalize(); REQ(near(W(s.normal()), m, 1e-8), "normal"); REQ(near(W(s.layingPlane().normal()), m, 1e-8) && std::abs(m.dot(W(s.layingPlane().origin()) - a)) < 1e-7 * (1 + p), "laying plane"); }
      s.translate(vec3(t)); for (int i = 0; i < 3; ++i) REQ(near(W(s.vertex(i)), v[i] + t, 1e-12), "translated vertex " << i << " is " << W(s.vertex(i)).transpose()); REQ(near(s.area(), A, 1e-6) && near(s.perimeter(), p, 1e-9), "measure changed by translation"); break; }
    case 2: { triangle s(pt(a), pt(b), pt(d)); W e1 = b - a, e2 = d - a; double den = e1.squaredNorm() * e2.squaredNorm() - std::pow(e1.dot(e2), 2); c << "barycentric triangle " << a << b << d << " point " << x; if (!(den > 1e-6 * e1.squaredNorm() * e2.squaredNorm()) || den < 1e-9) break;
      double u, v, w; s.barycentric(pt(x), u, v, w); W y = a * u + b * v + d * w; double sc = (1 + e1.norm() + e2.norm() + (x - a).norm()); REQ(std::abs(u + v + w - 1) < 1e-9 * (1 + std::abs(u) + std::abs(v) + std::abs(w)), "coordinates add up to " << u + v + w);
      double cond = 1e-6 * (1 + std::abs(u) + std::abs(v) + std::abs(w)) * sc * sc * (1 + a.norm()); REQ(std::abs((x - y).dot(e1)) < cond && std::abs((x - y).dot(e2)) < cond, "barycentric combination is not the projection of the point: " << u << " " << v << " " << w); break; }
    case 3: { disk s(r, pt(a), vec3(n)); c << "disk r " << r << " center " << a << " normal " << n << " translate " << t; REQ(rel(s.perimeter(), 2 * PI_ * r), "perimeter " << s.perimeter()); REQ(rel(s.area(), PI_ * r * r), "area " << s.area()); s.translate(vec3(t)); REQ(near(W(s.center()), a + t, 1e-12) && W(s.normal()) == n && s.radius() == r, "translated disk"); break; }
    case 4: { ball s(r, pt(a)); c << "ball r " << r << " center " << a << " translate " << t; REQ(rel(s.area(), 4 * PI_ * r * r), "surface " << s.area()); REQ(rel(s.volume(), 4 * PI_ * r * r * r / 3), "volume " << s.volume()); s.translate(vec3(t)); REQ(near(W(s.center()), a + t, 1e-12) && s.radius() == r, "translated ball"); break; }
    case 5: { plane s(pt(a), vec3(n)); c << "plane " << a << n << " point " << x << " translate " << t; double sd = n.dot(x - a); double e = 1e-9 * (1 + a.norm() + x.norm()); REQ(std::abs(s.signedDistance(pt(x)) - sd) < e, "signed distance " << s.signedDistance(pt(x)) << " expected " << sd); REQ(std::abs(s.distance(pt(x)) - std::abs(sd)) < e, "distance " << s.distance(pt(x))); REQ(std::abs(s.squaredDistance(pt(x)) - sd * sd) < e * (1 + std::abs(sd)) * 2, "squared distance"); REQ(std::abs(s.d() + n.dot(a)) < e, "d");
      s.translate(vec3(t)); REQ(near(W(s.origin()), a + t, 1e-12) && W(s.normal()) == n, "translated plane"); break; }
    default: { line l(pt(a), vec3(n)); ray q(pt(b), vec3(n)); point p(pt(x)); c << "line " << a << n << " ray " << b << " point " << x << " translate " << t; l.translate(vec3(t)); q.translate(vec3(t)); p.translate(vec3(t)); REQ(near(W(l.origin()), a + t, 1e-12) && W(l.direction()) == n, "translated line"); REQ(near(W(q.origin()), b + t, 1e-12) && W(q.direction()) == n, "translated ray"); REQ(near(W(p), x + t, 1e-12), "translated point"); }
  }
}
