#include "common.hh"
#include "acme/collection.hxx"
#include <memory>
#include <functional>
using acme::entity; using acme::collection; using acme::aabb;
static std::vector<double> nums(entity const & e)
{
  std::vector<double> o; auto ad = [&](double x, double y, double z) { o.push_back(x); o.push_back(y); o.push_back(z); };
  auto ap = [&](point const & p) { ad(p[0], p[1], p[2]); }; auto av = [&](vec3 const & p) { ad(p[0], p[1], p[2]); };
  if (e.isPoint()) ap(dynamic_cast<point const &>(e));
  if (e.isLine()) { line const & x = dynamic_cast<line const &>(e); ap(x.origin()); av(x.direction()); }
  if (e.isRay()) { ray const & x = dynamic_cast<ray const &>(e); ap(x.origin()); av(x.direction()); }
  if (e.isPlane()) { plane const & x = dynamic_cast<plane const &>(e); ap(x.origin()); av(x.normal()); }
  if (e.isSegment()) { segment const & x = dynamic_cast<segment const &>(e); ap(x.vertex(0)); ap(x.vertex(1)); }
  if (e.isTriangle()) { triangle const & x = dynamic_cast<triangle const &>(e); ap(x.vertex(0)); ap(x.vertex(1)); ap(x.vertex(2)); }
  if (e.isDisk()) { disk const & x = dynamic_cast<disk const &>(e); o.push_back(x.radius()); ap(x.center()); av(x.normal()); }
  if (e.isBall()) { ball const & x = dynamic_cast<ball const &>(e); o.push_back(x.radius()); ap(x.center()); }
  return o;
}
static entity * some(int k, double s, W n, bool deg)
{
  W a = vec(s), b = deg ? a : vec(s), c = vec(s); double r = deg ? 0 : U(.01, .2 * s); if (deg) n = W(0, 0, 0);
  switch (k) { case 0: return new acme::none(); case 1: return new point(pt(a)); case 2: return new line(pt(a), vec3(n)); case 3: return new ray(pt(a), vec3(n)); case 4: return new plane(pt(a), vec3(n));
    case 5: return new segment(pt(a), pt(b)); case 6: return new triangle(pt(a), pt(b), pt(c)); case 7: return new disk(r, pt(a), vec3(n)); default: return new ball(r, pt(a)); }
}
static entity * twin(entity const & e)
{
  std::vector<double> x = nums(e); auto p = [&](int i) { return point(x[i], x[i + 1], x[i + 2]); }; auto v = [&](int i) { return vec3(x[i], x[i + 1], x[i + 2]); };
  if (e.isPoint()) return new point(p(0)); if (e.isLine()) return new line(p(0), v(3)); if (e.isRay()) return new ray(p(0), v(3)); if (e.isPlane()) return new plane(p(0), v(3)); if (e.isSegment()) return new segment(p(0), p(3));
  if (e.isTriangle()) return new triangle(p(0), p(3), p(6)); if (e.isDisk()) return new disk(x[0], p(1), v(4)); if (e.isBall()) return new ball(x[0], p(1)); return new acme::none();
}
typedef std::vector<std::shared_ptr<entity>> L;
static void same(collection & q, L const & w, const char * what)
{
  REQ(q.size() == int(w.size()), what << ": " << q.size() << " entities, expected " << w.size());
  for (size_t i = 0; i < w.size(); ++i) REQ(q[int(i)].get() == w[i].get(), what << ": entity " << i << " is not the expected one");
}
#define KINDS(F) F(None) F(Point) F(Line) F(Ray) F(Plane) F(Segment) F(Triangle) F(Disk) F(Ball) F(Clampable) F(NonClampable)
static void ask(collection & q, L const & w, double tol)
{
#define F(k) { int n = 0; for (size_t i = 0; i < w.size(); ++i) { bool b = w[i]->is##k(); n += b; REQ(q.is##k(int(i)) == b, "is" #k "(" << i << ")"); } \
  REQ(q.count##k() == n, "count" #k " " << q.count##k() << " expected " << n); REQ(q.contain##k() == (n > 0), "contain" #k " with " << n << " of " << w.size()); REQ(q.are##k() == (n == int(w.size())), "are" #k " with " << n << " of " << w.size()); }
  KINDS(F)
#undef F
  auto m = q.count(tol); REQ(m.size() == 12, "count gave " << m.size() << " numbers"); auto named = [&](char const * k, int e) { REQ(m.count(k) == 1 && m[k] == e, "count of " << k << " is " << (m.count(k) ? m[k] : -1) << ", expected " << e); };
  named("none", q.countNone()); named("point", q.countPoint()); named("line", q.countLine()); named("ray", q.countRay()); named("plane", q.countPlane()); named("segment", q.countSegment()); named("triangle", q.countTriangle()); named("disk", q.countDisk()); named("ball", q.countBall());
  named("degenerated", q.countDegenerated(tol)); named("clampable", q.countClampable()); named("non-clampable", q.countNonClampable());
  int n = 0; for (size_t i = 0; i < w.size(); ++i) { bool b = w[i]->isDegenerated(tol); n += b; REQ(q.isDegenerated(int(i), tol) == b, "isDegenerated(" << i << ")"); }
  REQ(q.countDegenerated(tol) == n, "countDegenerated"); REQ(q.containDegenerated(tol) == (n > 0), "containDegenerated with " << n << " of " << w.size()); REQ(q.areDegenerated(tol) == (n == int(w.size())), "areDegenerated with " << n << " of " << w.size());
}
static void remove(collection & q, L & w, double tol)
{
  int k = K(0, 11), j = 0; L o; std::function<bool(entity &)> t; const char * nm = "";
#define F(x) if (k == j++) { q.remove##x(); t = [](entity & e) { return e.is##x(); }; nm = "remove" #x; }
  KINDS(F)
#undef F
  if (k == j) { q.removeDegenerated(tol); t = [tol](entity & e) { return e.isDegenerated(tol); }; nm = "removeDegenerated"; }
  for (auto & e : w) if (!t(*e)) o.push_back(e); w = o; same(q, w, nm);
}
static bool over(W const & a, W const & A, W const & b, W const & B) { for (int i = 0; i < 3; ++i) if (a[i] > B[i] || b[i] > A[i]) return false; return true; }
static void bounds(entity const & e, W & lo, W & hi) { vec3 a, b; e.clamp(a, b); for (int i = 0; i < 3; ++i) { lo[i] = a[i]; hi[i] = b[i]; } }
static int times(collection & q, entity * e) { int n = 0; for (int i = 0; i < q.size(); ++i) n += q[i].get() == e; return n; }
static void pairs() // the intersections of all pairs
{
  Ctx c; L w; collection q, o; int n = K(0, 6); double s = pick({1, 3}), tol = pick({TOL, .1}); W a = vec(s), d = unitv(), e = unitv(); c << "pairs of";
  for (int i = 0; i < n; ++i) { W u = P(.5) ? d : e, b = a + (P(.5) ? W(d * U(-1, 1)) : W(e * U(-1, 1))); entity * x; switch (K(0, 4)) { case 0: x = new point(pt(b)); break; case 1: x = new line(pt(b), vec3(u)); break; case 2: x = new ray(pt(b), vec3(u)); break; case 3: x = new plane(pt(b), vec3(u)); break; default: x = new segment(pt(b), pt(b + u * U(.5, 2))); }
    w.push_back(std::shared_ptr<entity>(x)); q.push_back(w.back()); c << x->type(); for (double t : nums(*x)) c << t; }
  for (int k = K(0, 2); k > 0; --k) o.push_back(std::shared_ptr<entity>(new acme::none()));
  L r; bool bad = thrown([&] { for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) r.push_back(std::shared_ptr<entity>(acme::Intersection(w[i].get(), w[j].get(), tol))); }); bool th = thrown([&] { q.intersection(o, tol); }); REQ(th == bad, "the intersection of the pairs " << (th ? "raised" : "did not raise")); if (bad) return;
  REQ(o.size() == int(r.size()), "there are " << o.size() << " results, expected " << r.size());
  for (size_t i = 0; i < r.size(); ++i) { std::vector<double> x = nums(*o[int(i)]), y = nums(*r[i]); REQ(o[int(i)]->type() == r[i]->type() && x.size() == y.size(), "result " << i << " is a " << o[int(i)]->type() << ", expected a " << r[i]->type()); for (size_t k = 0; k < x.size(); ++k) REQ(bits(x[k], y[k]), "result " << i << " differs"); }
  same(q, w, "after the query");
}
void run_case()
{
  if (P(.1)) return pairs();
  Ctx c; double s = pick({1, 3, 10}), tol = pick({TOL, .1}); bool onlyb = P(.5); int n = P(.1) ? 0 : K(1, 12), bias = P(.3) ? K(0, 8) : -1; L w; std::unique_ptr<collection> qp(new collection()); 
  auto fresh = [&]() { static const int BK[] = {1, 5, 6, 7, 8}; int k = bias >= 0 && P(.8) ? bias : K(0, 8); if (onlyb) k = BK[k % 5]; return std::shared_ptr<entity>(some(k, s, unitv(), P(.15))); };
  for (int i = 0; i < n; ++i) w.push_back(fresh()); if (P(.5)) { L v(w); qp.reset(new collection(v)); } else for (auto & e : w) qp->push_back(e); collection & q = *qp;
  for (auto & e : w) { c << e->type() << ":"; for (double x : nums(*e)) c << x << ","; c << "; "; }
  same(q, w, "built"); ask(q, w, tol);
  for (int st = K(0, 3); st > 0; --st) switch (K(0, 5)) {
    case 0: case 1: c << " remove"; remove(q, w, tol); ask(q, w, tol); break;
    case 2: { c << " push_back"; w.push_back(fresh()); q.push_back(w.back()); same(q, w, "push_back"); break; }
    case 3: { if (w.empty()) break; int m = K(0, int(w.size())); c << " resize " << m; w.resize(m); q.resize(m); same(q, w, "resize"); break; }
    default: { int o = K(0, 2); L t; for (auto & e : w) t.push_back(std::shared_ptr<entity>(twin(*e))); W d = vec(s), ax = unitv(); double an = U(-3, 3); affine A = mkpose(rotz(an) * rotx(d[0]), d); c << " move " << o;
      if (o == 0) { q.translate(vec3(d)); for (auto & e : t) e->translate(vec3(d)); } if (o == 1) { q.rotate(an, vec3(ax)); for (auto & e : t) e->rotate(an, vec3(ax)); } if (o == 2) { q.transform(A); for (auto & e : t) e->transform(A); }
      same(q, w, "move"); for (size_t i = 0; i < w.size(); ++i) { std::vector<double> x = nums(*w[i]), y = nums(*t[i]); for (size_t k = 0; k < x.size(); ++k) REQ(near(x[k], y[k], 1e-12), "entity " << i << " (" << w[i]->type() << ") number " << k << " after the move is " << x[k] << " expected " << y[k]); } }
  }
  bool all = true; for (auto & e : w) { vec3 a, b; if (!e->clamp(a, b)) all = false; }
  aabb::vecptr bs; for (int k = K(0, 2); k > 0; --k) bs.push_back(std::make_shared<aabb>(point(0, 0, 0), point(1, 1, 1), 77, 0)); bool th = thrown([&] { q.clamp(bs); }); REQ(th == !all, "clamp of the collection " << (th ? "raised" : "did not raise"));
  if (th) { REQ(thrown([&] { q.buildAABBtree(); }), "buildAABBtree did not raise"); c << " done"; return; }
  REQ(bs.size() == w.size(), "clamp gave " << bs.size() << " boxes"); 
  std::vector<W> lo(w.size()), hi(w.size()); for (size_t i = 0; i < w.size(); ++i) { bounds(*w[i], lo[i], hi[i]); REQ(bs[i]->id() == int(i), "box " << i << " has id " << bs[i]->id());
    for (int k = 0; k < 3; ++k) REQ(bs[i]->min()[k] == lo[i][k] && bs[i]->max()[k] == hi[i][k], "box " << i << " differs from the box of its entity"); }
  q.buildAABBtree(); if (P(.2)) q.buildAABBtree(); collection out; for (int k = K(0, 3); k > 0; --k) out.push_back(std::shared_ptr<entity>(new acme::none()));
  auto rb = [&](int id) { W a = vec(s), b = P(.5) ? W(a + vec(.3 * s)) : vec(s); return std::shared_ptr<aabb>(new aabb(pt(a.cwiseMin(b)), pt(a.cwiseMax(b)), id, 0)); };
  auto lo3 = [](aabb const & b) { return W(b.min()[0], b.min()[1], b.min()[2]); }; auto hi3 = [](aabb const & b) { return W(b.max()[0], b.max()[1], b.max()[2]); };
  if (P(.3)) { W d = vec(s); if (d.norm() > 0) { c << " moved and built again"; q.translate(vec3(d)); q.buildAABBtree(); for (size_t i = 0; i < w.size(); ++i) bounds(*w[i], lo[i], hi[i]); } }
  int mode = K(0, 2); c << " query " << mode;
  if (mode == 0) { auto b = rb(K(0, 5)); bool r = q.intersection(aabb::ptr(b), out); int tot = 0; for (size_t i = 0; i < w.size(); ++i) { int e = over(lo[i], hi[i], lo3(*b), hi3(*b)); tot += e; REQ(times(out, w[i].get()) == e, "entity " << i << " is listed " << times(out, w[i].get()) << " times, expected " << e); }
    REQ(out.size() == tot && r == (tot > 0), "query answered " << r << " with " << out.size() << " entities, expected " << tot); }
  if (mode == 1) { aabb::vecptr v; int m = K(0, 5); std::vector<std::shared_ptr<aabb>> k; for (int i = 0; i < m; ++i) { k.push_back(rb(i)); v.push_back(k.back()); } bool r = q.intersection(v, out); int tot = 0;
    for (size_t i = 0; i < w.size(); ++i) { int e = 0; for (auto & b : k) e += over(lo[i], hi[i], lo3(*b), hi3(*b)); tot += e; REQ(times(out, w[i].get()) == e, "entity " << i << " is listed " << times(out, w[i].get()) << " times, expected " << e); }
    REQ(out.size() == tot && r == (tot > 0), "query answered " << r << " with " << out.size() << " entities, expected " << tot); }
  if (mode == 2) { collection o; L w2; static const int BK[] = {1, 5, 6, 7, 8}; int m = K(0, 8); for (int i = 0; i < m; ++i) { w2.push_back(std::shared_ptr<entity>(some(BK[K(0, 4)], s, unitv(), false))); o.push_back(w2.back()); }
    o.buildAABBtree(); bool r = q.intersection(o, out); size_t tot = 0; REQ(out.size() % 2 == 0, "odd number of entities");
    for (size_t i = 0; i < w.size(); ++i) for (size_t j = 0; j < w2.size(); ++j) { W a, b; bounds(*w2[j], a, b); int e = over(lo[i], hi[i], a, b), g = 0; tot += e; for (int k = 0; k + 1 < out.size(); k += 2) g += out[k].get() == w[i].get() && out[k + 1].get() == w2[j].get();
      REQ(g == e, "pair " << i << "," << j << " is listed " << g << " times, expected " << e); }
    REQ(out.size() == int(2 * tot) && r == (tot > 0), "query answered " << r << " with " << out.size() << " entities, expected " << 2 * tot); }
}
