// C16: conversions between representations keep the point they describe.
#include "coord.hpp"
using namespace crd;
typedef double d; typedef float f;
typedef list<
    cartesian_representation<d, m_q<d>, m_q<d>, m_q<d>>,
    cartesian_representation<d, m_q<d>, km_q<d>, au_q<d>>,
    spherical_representation<d, rad_q<d>, rad_q<d>, m_q<d>>,
    spherical_representation<d, deg_q<d>, rad_q<d>, km_q<d>>,
    spherical_equatorial_representation<d, rad_q<d>, rad_q<d>, m_q<d>>,
    spherical_equatorial_representation<d, rad_q<d>, deg_q<d>, au_q<d>>> doubles;
typedef list<
    cartesian_representation<f, m_q<f>, m_q<f>, m_q<f>>,
    spherical_representation<f, deg_q<f>, deg_q<f>, m_q<f>>,
    spherical_equatorial_representation<f, deg_q<f>, rad_q<f>, m_q<f>>> floats;

static std::vector<double> grid() { return mc::thorough() ? std::vector<double>{-3, -1, -1e-3, 0, 1e-4, 1, 2.5} : std::vector<double>{-2, -1e-3, 0, 1, 2.5}; }
static vec pick_vec()
{
    auto const g = grid(); vec v; v.x = mc::pick_from(g); v.y = mc::pick_from(g); v.z = mc::pick_from(g);
    return v;
}
static double const pi = 3.14159265358979323846;
template <typename S, typename R> static void same(S const& s, R const& r, vec v, char const* how, double e)
{
    vec w = phys(r);
    mc::check(near(v, w, len(v) + 1e-300, e), how, ": ", text(v), " became ", text(w));
}
template <typename S> static void convert_all(vec v, int turns, list<>) {}
template <typename S, typename H, typename... T> static void convert_all(vec v, int turns, list<H, T...>)
{
    double const e = std::max(eps<S>(), eps<H>());
    S const s = builder<S>::of(v, turns);
    same(s, s, v, "building", e * 10);
    H const h = fresh<H>(s); same(s, h, v, "constructor", e * 10);
    S const back = fresh<S>(h); same(h, back, v, "constructor and back", e * 10);
    convert_all<S>(v, turns, list<T...>());
}
template <typename S> static void makes(vec v, int turns)
{
    S const s = builder<S>::of(v, turns); double const e = eps<S>() * 10;
    S const own = fresh<S>(s.get_point()); same(s, own, v, "from its point", e);
    poison(); auto c = make_cartesian_representation(s); same(s, c, v, "make_cartesian_representation", e);
    poison(); auto p = make_spherical_representation(s); same(s, p, v, "make_spherical_representation", e);
    poison(); auto q = make_spherical_equatorial_representation(s); same(s, q, v, "make_spherical_equatorial_representation", e);
    auto c2 = make_cartesian_representation(p); same(p, c2, v, "spherical to cartesian", e);
    auto c3 = make_cartesian_representation(q); same(q, c3, v, "equatorial to cartesian", e);
    auto p2 = make_spherical_representation(q); same(q, p2, v, "equatorial to spherical", e);
    auto q2 = make_spherical_equatorial_representation(p); same(p, q2, v, "spherical to equatorial", e);
    // around the triangle
    auto c4 = make_cartesian_representation(make_spherical_equatorial_representation(make_spherical_representation(c))); same(c, c4, v, "around", e);
    // equality is reflexive and a copy is equal
    S const copy(s); S assigned; assigned = s;
    mc::check(s == s && s == copy && s == assigned && copy == s, "a copy is not equal to its original");
    same(s, assigned, v, "assignment", e);
}
SCENARIO("every conversion of every grid point")
{
    int k = mc::pick(count(doubles())); vec v = pick_vec(); int turns = mc::pick(5);
    at(k, doubles(), [&](auto t) { typedef typename decltype(t)::type S; convert_all<S>(v, turns, doubles()); makes<S>(v, turns); });
    mc::state(mc::str(k, text(v), turns));
}
SCENARIO("single precision")
{
    int k = mc::pick(count(floats())); vec v = pick_vec(); int turns = mc::pick(5);
    at(k, floats(), [&](auto t) { typedef typename decltype(t)::type S; convert_all<S>(v, turns, floats()); makes<S>(v, turns); });
    mc::state(mc::str(k, text(v), turns));
}
SCENARIO("every power of ten")
{
    int k = mc::pick(count(doubles())), power = mc::pick(121) - 60;
    for (int n = 0; n < scaled_directions; ++n)
    {
        vec v = scaled(n, power); int turns = (n + power + 60) % 5;
        at(k, doubles(), [&](auto t) { typedef typename decltype(t)::type S; convert_all<S>(v, turns, doubles()); makes<S>(v, turns); });
        if (k < count(floats()) && power > -15 && power < 15) at(k, floats(), [&](auto t) { typedef typename decltype(t)::type S; convert_all<S>(v, turns, floats()); makes<S>(v, turns); });
        mc::steps(1);
    }
    mc::state(mc::str(k, ' ', power));
}
#ifndef VERIF_SAME_UNITS
SCENARIO("every direction of the sphere")
{
    // one degree (quick: five degrees) steps in both angles
    int step = mc::thorough() ? 1 : 5; int lon = mc::pick(360 / step) * step, kind = mc::pick(2);
    for (int lat = 0; lat <= 180; lat += step)
    {
        vec v = kind == 0 ? of_spherical(lon * pi / 180, lat * pi / 180, 2.5) : of_equatorial(lon * pi / 180, (lat - 90) * pi / 180, 2.5);
        spherical_representation<d, deg_q<d>, deg_q<d>, m_q<d>> s(deg_q<d>::from_value(lon), deg_q<d>::from_value(lat), m_q<d>::from_value(2.5));
        spherical_equatorial_representation<d, deg_q<d>, deg_q<d>, m_q<d>> q(deg_q<d>::from_value(lon), deg_q<d>::from_value(lat - 90), m_q<d>::from_value(2.5));
        auto c = kind == 0 ? make_cartesian_representation(s) : make_cartesian_representation(q);
        same(c, c, v, "to cartesian", 1e-12);
        spherical_representation<d, deg_q<d>, deg_q<d>, m_q<d>> s2(c); same(c, s2, v, "to spherical", 1e-12);
        spherical_equatorial_representation<d, deg_q<d>, deg_q<d>, m_q<d>> q2(c); same(c, q2, v, "to equatorial", 1e-12);
        bool pole = lat == 0 || lat == 180;
        auto turn = [](double x, double y) { double t = std::fmod(std::fabs(x - y), 360.0); return std::min(t, 360 - t); };
        if (kind == 0) { mc::check(std::fabs(s2.get_lon().value() - lat) < 1e-6, "polar angle ", lat, " came back as ", s2.get_lon().value()); if (!pole) mc::check(turn(s2.get_lat().value(), lon) < 1e-6, "azimuth ", lon, " came back as ", s2.get_lat().value()); }
        else { mc::check(std::fabs(q2.get_lon().value() - (lat - 90)) < 1e-6, "latitude ", lat - 90, " came back as ", q2.get_lon().value()); if (!pole) mc::check(turn(q2.get_lat().value(), lon) < 1e-6, "longitude ", lon, " came back as ", q2.get_lat().value()); }
        mc::steps(1);
    }
    mc::state(mc::str(lon, ' ', kind));
}
#endif
#ifndef VERIF_SAME_UNITS
SCENARIO("units of a representation can be changed")
{
    vec v = pick_vec();
    cartesian_representation<d, m_q<d>, km_q<d>, au_q<d>> c(make<m_q<d>>(v.x), make<km_q<d>>(v.y), make<au_q<d>>(v.z));
    auto c2 = make_cartesian_representation<d, au_q<d>, m_q<d>, km_q<d>>(c); same(c, c2, v, "make_cartesian_representation of other units", 1e-10);
    spherical_representation<d, rad_q<d>, deg_q<d>, m_q<d>> s = builder<spherical_representation<d, rad_q<d>, deg_q<d>, m_q<d>>>::of(v, 0);
    auto s2 = make_spherical_representation<d, deg_q<d>, rad_q<d>, km_q<d>>(s); same(s, s2, v, "make_spherical_representation of other units", 1e-10);
    mc::check(mc::close(si(s2.get_lat()), si(s.get_lat()), 1e-9, 1e-9) && mc::close(si(s2.get_lon()), si(s.get_lon()), 1e-9, 1e-9), "angles changed");
    auto q = builder<spherical_equatorial_representation<d, rad_q<d>, deg_q<d>, m_q<d>>>::of(v, 0);
    auto q2 = make_spherical_equatorial_representation<d, deg_q<d>, rad_q<d>, km_q<d>>(q); same(q, q2, v, "make_spherical_equatorial_representation of other units", 1e-10);
    // through points of Boost.Geometry
    auto c3 = make_cartesian_representation<d, m_q<d>, m_q<d>, m_q<d>>(s.get_point()); same(s, c3, v, "from a point", 1e-10);
    auto s3 = make_spherical_representation<d, rad_q<d>, rad_q<d>, m_q<d>>(c3.get_point()); same(c3, s3, v, "from a point", 1e-10);
    auto q3 = make_spherical_equatorial_representation<d, rad_q<d>, rad_q<d>, m_q<d>>(c3.get_point()); same(c3, q3, v, "from a point", 1e-10);
    auto t = s.to_representation<cartesian_representation<d, m_q<d>, m_q<d>, m_q<d>>>(); same(s, t, v, "to_representation", 1e-10);
    auto t2 = t.to_representation<spherical_representation<d, rad_q<d>, rad_q<d>, m_q<d>>>(); same(t, t2, v, "to_representation", 1e-10);
    auto t3 = q.to_representation<spherical_representation<d, rad_q<d>, rad_q<d>, m_q<d>>>(); same(q, t3, v, "to_representation", 1e-10);
    mc::state(text(v));
}
#endif
SCENARIO("points are equal only when all components are")
{
    vec v = pick_vec(), w = pick_vec();
    typedef cartesian_representation<d, m_q<d>, m_q<d>, m_q<d>> C;
    C a = builder<C>::of(v, 0), b = builder<C>::of(w, 0);
    bool eq = v.x == w.x && v.y == w.y && v.z == w.z;
    mc::check((a == b) == eq, text(v), eq ? " differs from " : " equals ", text(w));
    mc::state(text(v) + text(w));
}
SCENARIO("equality across units")
{
    mc::split(1);
    static double const vs[] = {1, 2.5, -3};
    double x = vs[mc::pick(3)];
    cartesian_representation<d, m_q<d>, m_q<d>, m_q<d>> a(x * bu::si::meters, x * bu::si::meters, x * bu::si::meters);
    cartesian_representation<d, km_q<d>, km_q<d>, km_q<d>> b(km_q<d>::from_value(x), km_q<d>::from_value(x), km_q<d>::from_value(x));
    if (a == b) mc::finding("equality-ignores-units", mc::str(x, " m equals ", x, " km"));
    auto t = a.to_representation<cartesian_representation<d, km_q<d>, km_q<d>, km_q<d>>>();
    if (si(t.get_x()) != x && mc::close(si(t.get_x()), 1000 * x)) mc::finding("to-representation-ignores-units", mc::str(x, " m became ", si(t.get_x()), " m"));
    else mc::check(mc::close(si(t.get_x()), x), "to_representation made ", x, " m into ", si(t.get_x()), " m");
    mc::state(mc::str(x));
}
