// reference vectors for the coordinate classes: plain doubles in SI units
#ifndef VERIF_COORD_HPP
#define VERIF_COORD_HPP
#include <boost/units/quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/prefixes.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/cmath.hpp>
#include <boost/astronomy/units/length.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
#include "mc.hpp"
namespace crd {
using namespace boost::astronomy::coordinate;
namespace bu = boost::units;
namespace bud = boost::units::degree;
using std::sin; using std::cos;

typedef decltype(bu::si::kilo * bu::si::meters) km_unit;
typedef boost::astronomy::units::length_astronomical_unit au_unit;
template <typename T> using rad_q = bu::quantity<bu::si::plane_angle, T>;
template <typename T> using m_q = bu::quantity<bu::si::length, T>;
template <typename T> using degree_q = bu::quantity<bud::plane_angle, T>;
#ifndef VERIF_SAME_UNITS
template <typename T> using deg_q = bu::quantity<bud::plane_angle, T>;
template <typename T> using km_q = bu::quantity<km_unit, T>;
template <typename T> using au_q = bu::quantity<au_unit, T>;
#else // a tree on which mixed units do not compile is still judged with one unit for each kind of quantity
template <typename T> using deg_q = rad_q<T>;
template <typename T> using km_q = m_q<T>;
template <typename T> using au_q = m_q<T>;
#endif

struct vec { double x, y, z; };
inline double len(vec a) { return std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); }
inline double dotp(vec a, vec b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline vec crossp(vec a, vec b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline vec add(vec a, vec b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline vec mul(vec a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline bool near(vec a, vec b, double scale, double eps)
{
    double t = eps * scale;
    return std::fabs(a.x - b.x) <= t && std::fabs(a.y - b.y) <= t && std::fabs(a.z - b.z) <= t;
}
inline std::string text(vec a) { return mc::str("(", a.x, ", ", a.y, ", ", a.z, ")"); }
// metres per unit, written out independently of the library
template <typename Q> struct scale;
template <typename T> struct scale<m_q<T>> { static double f() { return 1; } };
template <typename T> struct scale<bu::quantity<km_unit, T>> { static double f() { return 1000; } };
template <typename T> struct scale<bu::quantity<au_unit, T>> { static double f() { return 149597870691.0; } };
template <typename T> struct scale<rad_q<T>> { static double f() { return 1; } };
template <typename T> struct scale<bu::quantity<bud::plane_angle, T>> { static double f() { return 3.14159265358979323846 / 180; } };
template <typename T> struct scale<bu::quantity<bu::si::dimensionless, T>> { static double f() { return 1; } };
template <typename T> struct scale<bu::quantity<bu::si::velocity, T>> { static double f() { return 1; } };
template <typename T> struct scale<bu::quantity<decltype(bu::si::kilo * bu::si::meters / bu::si::seconds), T>> { static double f() { return 1000; } };
template <typename Q> inline double si(Q const& q) { return double(q.value()) * scale<Q>::f(); }
template <typename Q> inline Q make(double v) { return Q::from_value(typename Q::value_type(v / scale<Q>::f())); }

inline vec of_spherical(double phi, double theta, double r) { return {r * sin(theta) * cos(phi), r * sin(theta) * sin(phi), r * cos(theta)}; }
inline vec of_equatorial(double phi, double delta, double r) { return {r * cos(delta) * cos(phi), r * cos(delta) * sin(phi), r * sin(delta)}; }

template <typename T, typename X, typename Y, typename Z> inline vec phys(cartesian_representation<T, X, Y, Z> const& c) { return {si(c.get_x()), si(c.get_y()), si(c.get_z())}; }
template <typename T, typename X, typename Y, typename Z> inline vec phys(spherical_representation<T, X, Y, Z> const& c) { return of_spherical(si(c.get_lat()), si(c.get_lon()), si(c.get_dist())); }
template <typename T, typename X, typename Y, typename Z> inline vec phys(spherical_equatorial_representation<T, X, Y, Z> const& c) { return of_equatorial(si(c.get_lat()), si(c.get_lon()), si(c.get_dist())); }
template <typename T, typename X, typename Y, typename Z> inline vec phys(cartesian_differential<T, X, Y, Z> const& c) { return {si(c.get_dx()), si(c.get_dy()), si(c.get_dz())}; }
template <typename T, typename X, typename Y, typename Z> inline vec phys(spherical_differential<T, X, Y, Z> const& c) { return of_spherical(si(c.get_dlat()), si(c.get_dlon()), si(c.get_ddist())); }
template <typename T, typename X, typename Y, typename Z> inline vec phys(spherical_equatorial_differential<T, X, Y, Z> const& c) { return of_equatorial(si(c.get_dlat()), si(c.get_dlon()), si(c.get_ddist())); }
template <typename T, typename X, typename Y, typename Z> inline vec phys(spherical_coslat_differential<T, X, Y, Z> const& c) { return of_spherical(si(c.get_dlat()), si(c.get_dlon_coslat()) / cos(si(c.get_dlat())), si(c.get_ddist())); }

// constructs an object in memory full of NaN, so that a component its constructor leaves out is seen
static __attribute__((noinline)) void poison() { unsigned char stack[6000]; std::memset(stack, 0xff, sizeof stack); asm volatile("" : : "r"(stack) : "memory"); }
template <typename R, typename... A> inline R fresh(A const&... a)
{
    alignas(R) static unsigned char memory[sizeof(R)];
    std::memset(memory, 0xff, sizeof memory); asm volatile("" : : "r"(memory) : "memory");
    poison(); R* r = new (memory) R(a...); R const copy(*r); r->~R(); return copy;
}
// builds an object of the given class for a vector in SI units; turns: full turns and
// reflections added to the angles, which leave the vector as it is
template <typename R> struct builder;
template <typename T, typename X, typename Y, typename Z> struct builder<cartesian_representation<T, X, Y, Z>>
{ typedef cartesian_representation<T, X, Y, Z> R; static R of(vec v, int) { return R(make<X>(v.x), make<Y>(v.y), make<Z>(v.z)); } };
template <typename T, typename X, typename Y, typename Z> struct builder<cartesian_differential<T, X, Y, Z>>
{ typedef cartesian_differential<T, X, Y, Z> R; static R of(vec v, int) { return R(make<X>(v.x), make<Y>(v.y), make<Z>(v.z)); } };
inline void sph_angles(vec v, int turns, double& a, double& b, double& r)
{
    double const pi = 3.14159265358979323846;
    if (turns == 4) { vec w = mul(v, -1); sph_angles(w, 0, a, b, r); r = -r; return; }   // the opposite direction and a distance below zero
    r = len(v); a = std::atan2(v.y, v.x); b = r > 0 ? std::acos(std::max(-1.0, std::min(1.0, v.z / r))) : 0;
    if (turns == 1) a += 2 * pi; if (turns == 2) { a -= pi; b = -b; } if (turns == 3) b += 2 * pi;
}
inline void equ_angles(vec v, int turns, double& a, double& b, double& r)
{
    double const pi = 3.14159265358979323846;
    if (turns == 4) { vec w = mul(v, -1); equ_angles(w, 0, a, b, r); r = -r; return; }   // the opposite direction and a distance below zero
    r = len(v); a = std::atan2(v.y, v.x); b = r > 0 ? std::asin(std::max(-1.0, std::min(1.0, v.z / r))) : 0;
    if (turns == 1) a += 2 * pi; if (turns == 2) { a += pi; b = pi - b; } if (turns == 3) b -= 2 * pi;
}
#define VERIF_BUILDER(cls, angles) \
template <typename T, typename X, typename Y, typename Z> struct builder<cls<T, X, Y, Z>> \
{ typedef cls<T, X, Y, Z> R; static R of(vec v, int turns) { double a, b, r; angles(v, turns, a, b, r); return R(make<X>(a), make<Y>(b), make<Z>(r)); } };
VERIF_BUILDER(spherical_representation, sph_angles)
VERIF_BUILDER(spherical_equatorial_representation, equ_angles)
VERIF_BUILDER(spherical_differential, sph_angles)
VERIF_BUILDER(spherical_equatorial_differential, equ_angles)
template <typename T, typename X, typename Y, typename Z> struct builder<spherical_coslat_differential<T, X, Y, Z>>
{ typedef spherical_coslat_differential<T, X, Y, Z> R; static R of(vec v, int turns) { double a, b, r; sph_angles(v, turns, a, b, r); return R(make<X>(a), make<Y>(b * cos(a)), make<Z>(r)); } };

template <typename R> inline double eps() { return std::is_same<typename R::type, float>::value ? 2e-5 : 1e-10; }

// from the very small to the very large: one direction of each kind in every power of ten
inline vec scaled(int direction, int power)
{
    static vec const dirs[] = {{1, 2, 3}, {-3, 1, 0.5}, {0.25, -2, -1}, {-1, -1, 2}, {1, 0, 0}, {0, 0, -1}, {-1, 0, 1}, {0, -2, 1}};
    return mul(dirs[direction], std::pow(10., power));
}
enum { scaled_directions = 8 };
// a list of types with an index chosen at run time
template <typename... T> struct list {};
template <typename T> struct tag { typedef T type; };
template <typename F> inline void at(int, list<>, F) {}
template <typename H, typename... T, typename F> inline void at(int k, list<H, T...>, F f) { if (k == 0) f(tag<H>()); else at(k - 1, list<T...>(), f); }
template <typename... T> constexpr int count(list<T...>) { return int(sizeof...(T)); }
}
#endif
