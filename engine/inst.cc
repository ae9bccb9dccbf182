// Instantiates the inline and implicitly defined members of the public headers, so that their code
// is part of the verified IR.  It contains no code of its own.
#include "enve.hh"
#define INST(T, n) void vp_cc_##n(T * d, T const & s) { new (d) T(s); } void vp_as_##n(T & d, T const & s) { d = s; }
#define INSTC(T, n) void vp_cc_##n(T * d, T const & s) { new (d) T(s); }
INST(acme::point, point) INST(acme::line, line) INST(acme::ray, ray) INST(acme::plane, plane) INST(acme::segment, segment)
INST(acme::triangle, triangle) INST(acme::disk, disk) INST(acme::ball, ball) INST(acme::aabb, aabb)
INSTC(enve::rib, rib) INSTC(enve::shape, shape)
