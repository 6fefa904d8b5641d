// C26: length units convert by their defined factors.
#include <boost/astronomy/units/length.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs.hpp>
#include "mc.hpp"
namespace au = boost::astronomy::units; namespace bu = boost::units;
template <typename... T> struct list {};
template <typename U> struct tag { typedef U type; };
typedef list<au::length_meter, au::length_centimeter, au::length_astronomical_unit, au::length_light_second, au::length_light_minute, au::length_light_hour, au::length_light_day, au::length_light_year, au::length_parsec, au::length_metre, au::length_centimetre> units;
static double const c = 299792458.0;
// metres, from the definitions (the astronomical unit as measured before 2012; the parsec is 648000/pi astronomical units)
static double const metres[] = {1, 0.01, 149597870691.0, c, 60 * c, 3600 * c, 86400 * c, 31557600 * c, 3.0856775813e16, 1, 0.01};
enum { n = 11 };
template <typename F> static void at(int, list<>, F) {}
template <typename H, typename... T, typename F> static void at(int k, list<H, T...>, F f) { if (k == 0) f(tag<H>()); else at(k - 1, list<T...>(), f); }
SCENARIO("every pair of units")
{
    int a = mc::pick(n), b = mc::pick(n); double v = mc::pick_from(std::vector<double>{0, 1, -1, 2.5, 1e-12, 1e12, 206264.806247096, 3.26156});
    at(a, units(), [&](auto ta) { at(b, units(), [&](auto tb) { typedef typename decltype(ta)::type A; typedef typename decltype(tb)::type B;
        bu::quantity<A> q = bu::quantity<A>::from_value(v); bu::quantity<B> r(q); bu::quantity<A> back(r);
        double want = v * metres[a] / metres[b];
        mc::check(std::fabs(r.value() - want) <= 1e-13 * std::fabs(want), v, " of unit ", a, " is ", r.value(), " instead of ", want, " of unit ", b);
        mc::check(std::fabs(back.value() - v) <= 1e-13 * std::fabs(v), v, " came back as ", back.value());
        bu::quantity<A, float> qf = bu::quantity<A, float>::from_value(float(v)); bu::quantity<B, float> rf(qf);
        if (std::fabs(want) < 1e30 && std::fabs(want) > 1e-30) mc::check(std::fabs(rf.value() - want) <= 1e-5 * std::fabs(want), "single precision ", rf.value(), " instead of ", want);
        bu::quantity<A> sum = q + bu::quantity<A>(r); mc::check(std::fabs(sum.value() - 2 * v) <= 1e-11 * std::fabs(v), "sum"); }); });
    mc::state(mc::str(a, ' ', b, ' ', v));
}
SCENARIO("the named constants")
{
    double v = mc::pick_from(std::vector<double>{1, -2.5, 1e6}); int k = mc::pick(22);
    auto m = [](auto q) { return bu::quantity<bu::si::length>(q).value(); };
    double got = 0; int unit = 0;
    switch (k)
    {
    case 0: got = m(v * au::astronomical_unit); unit = 2; break; case 1: got = m(v * au::astronomical_units); unit = 2; break;
    case 2: got = m(v * au::light_second); unit = 3; break; case 3: got = m(v * au::light_seconds); unit = 3; break;
    case 4: got = m(v * au::light_minute); unit = 4; break; case 5: got = m(v * au::light_minutes); unit = 4; break;
    case 6: got = m(v * au::light_hour); unit = 5; break; case 7: got = m(v * au::light_hours); unit = 5; break;
    case 8: got = m(v * au::light_day); unit = 6; break; case 9: got = m(v * au::light_days); unit = 6; break;
    case 10: got = m(v * au::light_year); unit = 7; break; case 11: got = m(v * au::light_years); unit = 7; break;
    case 12: got = m(v * au::parsec); unit = 8; break; case 13: got = m(v * au::parsecs); unit = 8; break;
    case 14: got = m(v * au::meter); break; case 15: got = m(v * au::meters); break; case 16: got = m(v * au::metre); break; case 17: got = m(v * au::metres); break;
    case 18: got = m(v * au::centimeter); unit = 1; break; case 19: got = m(v * au::centimeters); unit = 1; break; case 20: got = m(v * au::centimetre); unit = 1; break; default: got = m(v * au::centimetres); unit = 1;
    }
    mc::check(std::fabs(got - v * metres[unit]) <= 1e-13 * std::fabs(v * metres[unit]), "constant ", k, ": ", v, " are ", got, " m");
    mc::state(mc::str(k, ' ', v));
}
