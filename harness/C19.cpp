// C19: every component of a coordinate is what was last set.
#include <sstream>
#include <boost/units/io.hpp>
#include <boost/units/systems/si/io.hpp>
#include <boost/astronomy/coordinate/coord_sys/coordinate.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include "coord.hpp"
using namespace crd;
typedef double d; typedef float f;
typedef std::vector<double> row;
template <typename T> using v_q = bu::quantity<bu::si::velocity, T>;
#ifndef VERIF_SAME_UNITS
template <typename T> using kv_q = bu::quantity<decltype(bu::si::kilo * bu::si::meters / bu::si::seconds), T>;
#else
template <typename T> using kv_q = v_q<T>;
#endif

template <typename T> struct adapter;
template <typename Q> static Q of(double v) { return Q::from_value(typename Q::value_type(v)); }
template <typename Tuple> static row values2(Tuple const& t) { return {double(std::get<0>(t).value()), double(std::get<1>(t).value())}; }
template <typename Tuple> static row values3(Tuple const& t) { return {double(std::get<0>(t).value()), double(std::get<1>(t).value()), double(std::get<2>(t).value())}; }

#define TWO(cls, a, b, ab, make) \
template <typename C, typename X, typename Y> struct adapter<cls<C, X, Y>> { typedef cls<C, X, Y> T; enum { n = 2 }; \
  static T build(row const& v, int how) { if (how == 0) return T(of<X>(v[0]), of<Y>(v[1])); if (how == 1) { T t; t.set_##ab(of<X>(v[0]), of<Y>(v[1])); return t; } return make(of<X>(v[0]), of<Y>(v[1])); } \
  static void set(T& t, int i, double v) { if (i == 0) t.set_##a(of<X>(v)); else t.set_##b(of<Y>(v)); } \
  static void set_all(T& t, row const& v) { t.set_##ab(of<X>(v[0]), of<Y>(v[1])); } \
  static row each(T const& t) { return {double(t.get_##a().value()), double(t.get_##b().value())}; } \
  static bool types() { return std::is_same<typename T::quantity1, X>::value && std::is_same<typename T::quantity2, Y>::value; } \
  static std::vector<row> more(T const& t) { return {values2(t.get_##ab())}; } };
TWO(horizon_coord, altitude, azimuth, altitude_azimuth, make_horizon_coord)
TWO(ecliptic_coord, lat, lon, lat_lon, make_ecliptic_coord)
TWO(galactic_coord, lat, lon, lat_lon, make_galactic_coord)
TWO(equatorial_ra_coord, ra, dec, ra_dec, make_equatorial_ra_coord)
TWO(equatorial_ha_coord, ha, dec, ha_dec, make_equatorial_ha_coord)

#define THREE(cls, a, b, c, abc, make) \
template <typename C, typename X, typename Y, typename Z> struct adapter<cls<C, X, Y, Z>> { typedef cls<C, X, Y, Z> T; enum { n = 3 }; \
  static T build(row const& v, int how) { if (how == 0) return T(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])); if (how == 1) { T t; set_all(t, v); return t; } return make(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])); } \
  static void set(T& t, int i, double v) { if (i == 0) t.set_##a(of<X>(v)); else if (i == 1) t.set_##b(of<Y>(v)); else t.set_##c(of<Z>(v)); } \
  static void set_all(T& t, row const& v) { t.set_##abc(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])); } \
  static row each(T const& t) { return {double(t.get_##a().value()), double(t.get_##b().value()), double(t.get_##c().value())}; } \
  static bool types() { return std::is_same<typename T::quantity1, X>::value && std::is_same<typename T::quantity2, Y>::value && std::is_same<typename T::quantity3, Z>::value && std::is_same<typename T::type, C>::value; } \
  static std::vector<row> more(T const& t) { return {values3(t.get_##abc())}; } };
THREE(cartesian_representation, x, y, z, x_y_z, make_cartesian_representation)
THREE(spherical_representation, lat, lon, dist, lat_lon_dist, make_spherical_representation)
THREE(spherical_equatorial_representation, lat, lon, dist, lat_lon_dist, make_spherical_equatorial_representation)
THREE(cartesian_differential, dx, dy, dz, dx_dy_dz, make_cartesian_differential)
THREE(spherical_differential, dlat, dlon, ddist, dlat_dlon_ddist, make_spherical_differential)
THREE(spherical_equatorial_differential, dlat, dlon, ddist, dlat_dlon_ddist, make_spherical_equatorial_differential)
THREE(spherical_coslat_differential, dlat, dlon_coslat, ddist, dlat_dlon_coslat_ddist, make_spherical_coslat_differential)

template <typename F> static row whole(F const& t)
{ auto a = t.get_data(); auto b = t.get_differential(); return {double(a.get_lat().value()), double(a.get_lon().value()), double(a.get_dist().value()), double(b.get_dlat().value()), double(b.get_dlon_coslat().value()), double(b.get_ddist().value())}; }
static row join(row a, row const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
#define FRAME(cls, a, b, ab_dist, pa, pb, pab) \
template <typename R, typename D> struct adapter<cls<R, D>> { typedef cls<R, D> T; enum { n = 6 }; \
  typedef typename R::quantity1 X; typedef typename R::quantity2 Y; typedef typename R::quantity3 Z; typedef typename D::quantity1 U; typedef typename D::quantity2 V; typedef typename D::quantity3 W; \
  static T build(row const& v, int how) { \
    if (how == 0) return T(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2]), of<U>(v[3]), of<V>(v[4]), of<W>(v[5])); \
    if (how == 1) { T t(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])); t.set_differential(D(of<U>(v[3]), of<V>(v[4]), of<W>(v[5]))); return t; } \
    if (how == 2) { T t(R(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2]))); t.set_##pab(of<U>(v[3]), of<V>(v[4]), of<W>(v[5])); return t; } \
    if (how == 3) { T t; set_all(t, v); return t; } \
    if (how == 4) { sky_point<T> p(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2]), of<U>(v[3]), of<V>(v[4]), of<W>(v[5])); return p.get_point(); } \
    if (how == 5) { sky_point<T> p(R(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])), D(of<U>(v[3]), of<V>(v[4]), of<W>(v[5]))); sky_point<T> q; q.set_point(p.get_point()); return q.get_point(); } \
    return T(R(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])), D(of<U>(v[3]), of<V>(v[4]), of<W>(v[5]))); } \
  static void set(T& t, int i, double v) { switch (i) { case 0: t.set_##a(of<X>(v)); break; case 1: t.set_##b(of<Y>(v)); break; case 2: t.set_distance(of<Z>(v)); break; \
    case 3: t.set_##pa(of<U>(v)); break; case 4: t.set_##pb(of<V>(v)); break; default: t.set_radial_velocity(of<W>(v)); } } \
  static void set_all(T& t, row const& v) { t.set_##ab_dist(of<X>(v[0]), of<Y>(v[1]), of<Z>(v[2])); t.set_##pab(of<U>(v[3]), of<V>(v[4]), of<W>(v[5])); } \
  static row each(T const& t) { return {double(t.get_##a().value()), double(t.get_##b().value()), double(t.get_distance().value()), double(t.get_##pa().value()), double(t.get_##pb().value()), double(t.get_radial_velocity().value())}; } \
  static bool types() { return std::is_same<typename T::representation, R>::value && std::is_same<typename T::differential, D>::value; } \
  static std::vector<row> more(T const& t) { base_frame<R, D> const& base = t; row pm = values2(t.get_proper_motion()); pm.push_back(double(base.get_radial_velocity().value())); row pos = values3(t.get_##ab_dist()); \
    return {join(pos, values3(t.get_##pab())), whole(t), join(pos, pm)}; } };
FRAME(icrs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(cirs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(alt_az, alt, az, alt_az_dist, pm_alt, pm_az_cosalt, pm_alt_az_radial)
FRAME(galactic, b, l, b_l_dist, pm_b, pm_l_cosb, pm_b_l_radial)
FRAME(supergalactic, sgb, sgl, sgb_sgl_dist, pm_sgb, pm_sgl_cossgb, pm_sgb_sgl_radial)
FRAME(geocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
FRAME(heliocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)

template <typename T> static bool agree(row const& got, row const& want, double e)
{
    if (got.size() != want.size()) return false;
    for (std::size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= e * std::fabs(want[i]) + 1e-300)) return false;
    return true;
}
static std::string show(row const& r) { std::string s; for (double v : r) s += mc::str(v, ' '); return s; }
template <typename T> static void verify(T const& t, row const& m, double e, char const* which)
{
    typedef adapter<T> A;
    row got = A::each(t); mc::check(agree<T>(got, m, e), which, ": components are ", show(got), "instead of ", show(m));
    for (row const& r : A::more(t)) mc::check(agree<T>(r, m, e), which, ": all components together are ", show(r), "instead of ", show(m));
}
static double value(int step, int i, int alt) { static double const base[] = {0, -33.25, 512.5}; return base[alt] + (alt ? 7 * (i + 1) + 0.125 * step : 0); }
template <typename T> static void history(int depth, double e, int hows)
{
    typedef adapter<T> A;
    row mx, my; for (int i = 0; i < A::n; ++i) { mx.push_back(10 + i); my.push_back(-20.5 - i); }
    int how = mc::pick(hows);
    mc::check(A::types(), "the types of the components are not those stated");
    T x = A::build(mx, how), y = A::build(my, (how + 1) % hows);
    verify(x, mx, e, "first"); verify(y, my, e, "second");
    for (int s = 0; s < depth; ++s)
    {
        int op = mc::pick(A::n * 3 + 4);
        if (op < A::n * 3) { int i = op / 3; double v = value(s, i, op % 3); A::set(x, i, v); mx[i] = v; }
        else if (op == A::n * 3) { row v; for (int i = 0; i < A::n; ++i) v.push_back(value(s, i, 1 + i % 2)); A::set_all(x, v); mx = v; }
        else if (op == A::n * 3 + 1) { y = x; my = mx; }
        else if (op == A::n * 3 + 2) { T z(y); x = z; mx = my; }
        else { T z(x); x = y; y = z; std::swap(mx, my); }
        verify(x, mx, e, "first"); verify(y, my, e, "second");
        mc::state(show(mx) + "|" + show(my));
    }
}
typedef list<
    horizon_coord<d, rad_q<d>, rad_q<d>>, horizon_coord<d, deg_q<d>, rad_q<d>>, horizon_coord<f, deg_q<f>, deg_q<f>>,
    ecliptic_coord<d, rad_q<d>, rad_q<d>>, ecliptic_coord<d, deg_q<d>, rad_q<d>>, ecliptic_coord<f, deg_q<f>, deg_q<f>>,
    galactic_coord<d, rad_q<d>, rad_q<d>>, galactic_coord<d, deg_q<d>, rad_q<d>>, galactic_coord<f, deg_q<f>, deg_q<f>>,
    equatorial_ra_coord<d, rad_q<d>, rad_q<d>>, equatorial_ra_coord<d, deg_q<d>, rad_q<d>>, equatorial_ra_coord<f, deg_q<f>, deg_q<f>>,
    equatorial_ha_coord<d, rad_q<d>, rad_q<d>>, equatorial_ha_coord<d, deg_q<d>, rad_q<d>>, equatorial_ha_coord<f, deg_q<f>, deg_q<f>>> pairs;
typedef list<
    cartesian_representation<d, m_q<d>, km_q<d>, au_q<d>>, cartesian_representation<f, m_q<f>, m_q<f>, m_q<f>>,
    spherical_representation<d, rad_q<d>, deg_q<d>, km_q<d>>, spherical_representation<d, deg_q<d>, rad_q<d>, m_q<d>>, spherical_representation<f, deg_q<f>, deg_q<f>, m_q<f>>,
    spherical_equatorial_representation<d, rad_q<d>, deg_q<d>, km_q<d>>, spherical_equatorial_representation<d, deg_q<d>, rad_q<d>, m_q<d>>,
    cartesian_differential<d, v_q<d>, kv_q<d>, v_q<d>>, spherical_differential<d, rad_q<d>, deg_q<d>, kv_q<d>>, spherical_differential<f, deg_q<f>, rad_q<f>, v_q<f>>,
    spherical_equatorial_differential<d, rad_q<d>, deg_q<d>, kv_q<d>>, spherical_equatorial_differential<d, deg_q<d>, rad_q<d>, v_q<d>>,
    spherical_coslat_differential<d, rad_q<d>, deg_q<d>, kv_q<d>>, spherical_coslat_differential<d, deg_q<d>, rad_q<d>, v_q<d>>> triples;
typedef spherical_representation<d, deg_q<d>, rad_q<d>, km_q<d>> R1; typedef spherical_coslat_differential<d, rad_q<d>, deg_q<d>, v_q<d>> D1;
typedef spherical_representation<d, rad_q<d>, deg_q<d>, m_q<d>> R2; typedef spherical_coslat_differential<d, deg_q<d>, rad_q<d>, kv_q<d>> D2;
typedef list<icrs<R1, D1>, cirs<R1, D1>, alt_az<R1, D1>, galactic<R1, D1>, supergalactic<R1, D1>, geocentric<R1, D1>, heliocentric<R1, D1>,
    icrs<R2, D2>, cirs<R2, D2>, alt_az<R2, D2>, galactic<R2, D2>, supergalactic<R2, D2>, geocentric<R2, D2>, heliocentric<R2, D2>> frames;

template <typename T> struct ty { typedef typename T::type type; };
template <typename T> static double tolerance() { return std::is_same<typename T::type, float>::value ? 1e-6 : 1e-14; }
SCENARIO("histories of two-component coordinates") { int k = mc::pick(count(pairs())); at(k, pairs(), [](auto t) { typedef typename decltype(t)::type T; history<T>(mc::thorough() ? 4 : 3, tolerance<T>(), 3); }); }
SCENARIO("histories of representations and differentials") { int k = mc::pick(count(triples())); at(k, triples(), [](auto t) { typedef typename decltype(t)::type T; history<T>(mc::thorough() ? 4 : 3, tolerance<T>(), 3); }); }
SCENARIO("histories of frames") { int k = mc::pick(count(frames())); at(k, frames(), [](auto t) { history<typename decltype(t)::type>(mc::thorough() ? 3 : 2, 1e-14, 7); }); }

// ---- notable values ------------------------------------------------------------------
static std::vector<double> const& notable()
{
    static std::vector<double> v;
    if (v.empty()) { for (double x : {0.0, 1e-30, 1e-12, 1e-6, 0.001, 0.5, 1.0, 1.5707963267948966, 2.0, 3.14159265358979323846, 6.283185307179586, 12.0, 15.0, 23.999, 24.0, 25.0, 45.0, 60.0, 89.999999, 90.0, 90.000001, 100.0, 179.999999, 180.0, 180.000001, 270.0, 273.15, 300.0, 359.999999, 360.0, 360.000001, 720.0, 3600.0, 86400.0, 1e6, 2147483648.0, 1e10, 299792458.0, 1e16, 1e20, 1e30}) { v.push_back(x); if (x) v.push_back(-x); } }
    return v;
}
template <typename T> static void each_value(int n, double e)
{
    typedef adapter<T> A; int how = mc::pick(n), i = mc::pick(A::n);
    for (double v : notable())
    {
        row m; for (int k = 0; k < A::n; ++k) m.push_back(3 + k);
        m[i] = v; T x = A::build(m, how); verify(x, m, e, "built");
        T y = A::build(row(A::n, 2.5), how); row w(A::n, 2.5); A::set(y, i, v); w[i] = v; verify(y, w, e, "set");
        A::set(y, i, 1); w[i] = 1; verify(y, w, e, "set again");
        row all(A::n, v); A::set_all(y, all); verify(y, all, e, "all set"); y = x; verify(y, m, e, "assigned"); T z(y); verify(z, m, e, "copied");
        mc::steps(6);
    }
    mc::state(mc::str(typeid(T).name(), ' ', how, ' ', i));
}
SCENARIO("notable values of two-component coordinates") { int k = mc::pick(count(pairs())); at(k, pairs(), [](auto t) { typedef typename decltype(t)::type T; each_value<T>(3, tolerance<T>()); }); }
SCENARIO("notable values of representations and differentials") { int k = mc::pick(count(triples())); at(k, triples(), [](auto t) { typedef typename decltype(t)::type T; each_value<T>(3, tolerance<T>()); }); }
SCENARIO("notable values of frames") { int k = mc::pick(count(frames())); at(k, frames(), [](auto t) { each_value<typename decltype(t)::type>(7, 1e-14); }); }

// ---- the parameters of frames beside the coordinates -------------------------------
static boost::posix_time::ptime when(int i) { return boost::posix_time::ptime(boost::gregorian::date(2000 + i, 1 + i, 1 + 2 * i), boost::posix_time::seconds(3661 * (i + 1))); }
#ifndef VERIF_SAME_UNITS
SCENARIO("histories of the parameters of a horizontal frame")
{
    typedef alt_az<R1, D1> F; typedef spherical_equatorial_representation<d, deg_q<d>, deg_q<d>> L;
    struct model { double lat, lon, p, t, h; int time; } mx = {1, 2, 3, 4, 5, 0}, my = {11, 12, 13, 14, 15, 1};
    auto loc = [](model const& m) { return L(of<deg_q<d>>(m.lat), of<deg_q<d>>(m.lon), bu::quantity<bu::si::dimensionless>(1.5)); };
    auto setall = [&](F& x, model const& m) { x.set_frame_parameters(loc(m), m.p * bu::si::pascals, m.t * bu::celsius::degrees, when(m.time), m.h); };
    auto ok = [&](F const& x, model const& m) {
        L l = x.get_location();
        mc::check(mc::close(l.get_lat().value(), m.lat, 1e-12) && mc::close(l.get_lon().value(), m.lon, 1e-12) && double(l.get_dist()) == 1.5, "location");
        mc::check(x.get_pressure().value() == m.p, "pressure ", x.get_pressure().value()); mc::check(x.get_temprature().value() == m.t, "temperature"); mc::check(x.get_obs_time() == when(m.time), "time"); mc::check(double(x.get_relative_humidity()) == m.h, "humidity");
        auto t = x.get_frame_parameters();
        mc::check(mc::close(std::get<0>(t).get_lat().value(), m.lat, 1e-12) && mc::close(std::get<0>(t).get_lon().value(), m.lon, 1e-12) && std::get<1>(t).value() == m.p && std::get<2>(t).value() == m.t && std::get<3>(t) == when(m.time) && double(std::get<4>(t)) == m.h, "all parameters");
        mc::check(mc::close(x.get_alt().value(), 7, 1e-12) && mc::close(x.get_az().value(), 8, 1e-12) && x.get_distance().value() == 9, "the coordinates changed with the parameters");
    };
    F x(of<deg_q<d>>(7), of<rad_q<d>>(8), of<km_q<d>>(9)), y(x);
    mc::check(x.get_pressure().value() == 0 && x.get_temprature().value() == 0 && double(x.get_relative_humidity()) == 0, "initial parameters");
    setall(x, mx); setall(y, my); ok(x, mx); ok(y, my);
    for (int s = 0; s < (mc::thorough() ? 6 : 4); ++s)
    {
        double v = 100 + 10 * s;
        switch (mc::pick(10))
        {
        case 9: for (double u : notable())
            {
                mx.p = u; x.set_pressure(u * bu::si::pascals); ok(x, mx); mx.t = u; x.set_temprature(u * bu::celsius::degrees); ok(x, mx); mx.h = u; x.set_relative_humidity(u); ok(x, mx);
                mx.lat = u; x.set_location(loc(mx)); ok(x, mx); mx.lon = u; x.set_location(loc(mx)); ok(x, mx);
                mx = {1, u, 2, 3, 4, 5}; setall(x, mx); ok(x, mx); mx = {u, 1, u, u, u, 3}; setall(x, mx); ok(x, mx);
            }
            break;
        case 0: mx.lat = v; mx.lon = v + 1; x.set_location(loc(mx)); break;
        case 1: mx.p = v + 2; x.set_pressure(mx.p * bu::si::pascals); break;
        case 2: mx.t = v + 3; x.set_temprature(mx.t * bu::celsius::degrees); break;
        case 3: mx.h = v + 4; x.set_relative_humidity(mx.h); break;
        case 4: mx.time = 2 + s; x.set_obs_time(when(mx.time)); break;
        case 5: mx = {v, v + 1, v + 2, v + 3, v + 4, 7}; setall(x, mx); break;
        case 6: y = x; my = mx; break;
        case 7: { F z(y); x = z; mx = my; break; }
        default: { sky_point<F> p(x); y = p.get_point(); my = mx; }
        }
        ok(x, mx); ok(y, my);
        mc::state(mc::str(mx.lat, mx.lon, mx.p, mx.t, mx.h, mx.time, '|', my.lat, my.p, my.t, my.h, my.time));
    }
}
#endif
template <typename F, typename S, typename G> static void times(S set, G get)
{
    F x, y; int mx = 0, my = 1; set(x, when(0)); set(y, when(1));
    for (int s = 0; s < 5; ++s)
    {
        switch (mc::pick(4)) { case 0: mx = s + 2; set(x, when(mx)); break; case 1: y = x; my = mx; break; case 2: { F z(y); x = z; mx = my; break; } default: x.set_distance(of<typename F::representation::quantity3>(1)); }
        mc::check(get(x) == when(mx) && get(y) == when(my), "the time of the frame");
        mc::state(mc::str(mx, ' ', my));
    }
}
SCENARIO("histories of the time of other frames")
{
    switch (mc::pick(3))
    {
    case 0: { typedef cirs<R1, D1> F; times<F>([](F& f, boost::posix_time::ptime t) { f.set_obs_time(t); }, [](F const& f) { return f.get_obs_time(); }); break; }
    case 1: { typedef geocentric<R1, D1> F; times<F>([](F& f, boost::posix_time::ptime t) { f.set_equinox(t); }, [](F const& f) { return f.get_equinox(); }); break; }
    default: { typedef heliocentric<R1, D1> F; times<F>([](F& f, boost::posix_time::ptime t) { f.set_equinox(t); }, [](F const& f) { return f.get_equinox(); }); }
    }
}
// frames made from representations and differentials of other units
#ifndef VERIF_SAME_UNITS
SCENARIO("frames made from other units")
{
    int k = mc::pick(count(frames())); double a = mc::pick(9) * 40 - 160, b = mc::pick(5) * 30, c = 2.5 * mc::pick(2);
    at(k, frames(), [&](auto t) { typedef typename decltype(t)::type F; typedef adapter<F> A;
        spherical_representation<d, deg_q<d>, deg_q<d>, au_q<d>> r(of<deg_q<d>>(a), of<deg_q<d>>(b), of<au_q<d>>(c));
        spherical_coslat_differential<d, deg_q<d>, deg_q<d>, kv_q<d>> m(of<deg_q<d>>(b), of<deg_q<d>>(-a), of<kv_q<d>>(c));
        F x(r), y(r, m); row g = A::each(x), h = A::each(y);
        typedef typename F::representation R; typedef typename F::differential D;
        row want = {a / 180 * 3.14159265358979323846 / scale<typename R::quantity1>::f(), b / 180 * 3.14159265358979323846 / scale<typename R::quantity2>::f(), c * 149597870691.0 / scale<typename R::quantity3>::f(),
            b / 180 * 3.14159265358979323846 / scale<typename D::quantity1>::f(), -a / 180 * 3.14159265358979323846 / scale<typename D::quantity2>::f(), c * 1000 / scale<typename D::quantity3>::f()};
        mc::check(agree<F>(h, want, 1e-12), "components are ", show(h), "instead of ", show(want)); g.resize(3); want.resize(3);
        mc::check(agree<F>(g, want, 1e-12), "components are ", show(g), "instead of ", show(want)); });
    mc::state(mc::str(k, ' ', a, ' ', b, ' ', c));
}
#endif
// what is printed are the components, in their order
template <typename T, typename Q1, typename Q2> static void printed(T const& t, Q1 const& a, Q2 const& b)
{
    std::ostringstream o, x, y; o << t; x << a; y << b;
    std::size_t i = o.str().find(x.str()); mc::check(i != std::string::npos, "'", o.str(), "' does not show ", x.str());
    mc::check(o.str().find(y.str(), i + x.str().size()) != std::string::npos, "'", o.str(), "' does not show ", y.str(), " after it");
}
template <typename T, typename Q1, typename Q2, typename Q3> static void printed(T const& t, Q1 const& a, Q2 const& b, Q3 const& c) { printed(t, a, b); printed(t, b, c); }
SCENARIO("printed coordinates")
{
    int k = mc::pick(8); double a = mc::pick(5) * 1.5 - 2, b = 100 + mc::pick(5) * 1.25;
    deg_q<d> p = of<deg_q<d>>(a); rad_q<d> q = of<rad_q<d>>(b); km_q<d> r = of<km_q<d>>(a + 1000);
    switch (k)
    {
    case 0: printed(make_horizon_coord(p, q), horizon_coord<d, deg_q<d>, rad_q<d>>(p, q).get_altitude(), q); break;
    case 1: printed(make_ecliptic_coord(p, q), make_ecliptic_coord(p, q).get_lat(), q); break;
    case 2: printed(make_galactic_coord(p, q), make_galactic_coord(p, q).get_lat(), q); break;
    case 3: printed(make_equatorial_ra_coord(p, q), make_equatorial_ra_coord(p, q).get_ra(), q); break;
    case 4: printed(make_equatorial_ha_coord(p, q), make_equatorial_ha_coord(p, q).get_ha(), q); break;
    case 5: { auto t = make_spherical_representation(p, q, r); printed(t, t.get_lat(), t.get_lon(), t.get_dist()); break; }
    case 6: { auto t = make_spherical_equatorial_representation(p, q, r); printed(t, t.get_lat(), t.get_lon(), t.get_dist()); break; }
    default: { auto t = make_cartesian_representation(of<m_q<d>>(a), of<km_q<d>>(b), of<m_q<d>>(a * 3 + 5000)); printed(t, t.get_x(), t.get_y(), t.get_z()); }
    }
    mc::state(mc::str(k, ' ', a, ' ', b));
}
