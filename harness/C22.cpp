// C22: separation and positional angle of points on the sky.
#include <boost/units/systems/si.hpp>
#include <boost/astronomy/coordinate/coord_sys/coordinate.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/geocentric.hpp>
#include <boost/astronomy/coordinate/coord_sys/heliocentric.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
#include "coord.hpp"
using namespace crd;
typedef double d;
template <typename T> using v_q = bu::quantity<bu::si::velocity, T>;
typedef spherical_representation<d, deg_q<d>, deg_q<d>, m_q<d>> R1; typedef spherical_coslat_differential<d, deg_q<d>, deg_q<d>, v_q<d>> D1;
typedef spherical_representation<d, rad_q<d>, deg_q<d>, km_q<d>> R2; typedef spherical_coslat_differential<d, rad_q<d>, rad_q<d>, v_q<d>> D2;
typedef spherical_representation<d, deg_q<d>, rad_q<d>, au_q<d>> R3;
typedef list<icrs<R1, D1>, cirs<R1, D1>, alt_az<R1, D1>, galactic<R1, D1>, supergalactic<R1, D1>, geocentric<R1, D1>, heliocentric<R1, D1>, icrs<R2, D2>, alt_az<R3, D2>, geocentric<R2, D1>, galactic<R3, D1>> frames;
static double const pi = 3.14159265358979323846, r = pi / 180;
struct sky { double lat, lon, dist; };
static std::string text(sky s) { return mc::str("(", s.lat, ", ", s.lon, ")"); }
template <typename F> static F make_frame(sky s)
{ typedef typename F::representation R; return F(make<typename R::quantity1>(s.lat * r), make<typename R::quantity2>(s.lon * r), make<typename R::quantity3>(s.dist)); }
static vec unit_of(sky s) { return of_equatorial(s.lon * r, s.lat * r, 1); }
static double separation(sky a, sky b) { vec u = unit_of(a), v = unit_of(b); return std::atan2(len(crossp(u, v)), dotp(u, v)); }
// the angle at a from the direction of the pole to the direction of b, towards growing longitude
static double position(sky a, sky b)
{
    vec u = unit_of(a), v = unit_of(b), north = {-std::sin(a.lat * r) * std::cos(a.lon * r), -std::sin(a.lat * r) * std::sin(a.lon * r), std::cos(a.lat * r)}, east = {-std::sin(a.lon * r), std::cos(a.lon * r), 0};
    return std::atan2(dotp(v, east), dotp(v, north));
}
template <typename F> static void pair_of(sky a, sky b)
{
    F const f = make_frame<F>(a), g = make_frame<F>(b); sky_point<F> const p(f), q(g);
    double want = separation(a, b), s = p.separation(q).value();
    mc::check(std::fabs(s - want) < 1e-12, "the separation of ", text(a), " and ", text(b), " is ", s / r, " instead of ", want / r);
    mc::check(s >= 0 && s <= pi + 1e-14, "the separation ", s, " is out of range");
    mc::check(std::fabs(q.separation(p).value() - s) < 1e-12, "the separation is not symmetric");
    mc::check(std::fabs(f.get_angular_separation(g).value() - s) < 1e-12, "the frames disagree");
    double angle = p.positional_angle(q).value();
    mc::check(angle == angle && std::fabs(angle) <= 2 * pi + 1e-9, "positional angle ", angle);
    if (want > 1e-6 && want < pi - 1e-6)
    {
        double w = position(a, b), diff = std::fmod(std::fabs(angle - w), 2 * pi); diff = std::min(diff, 2 * pi - diff);
        mc::check(diff < 1e-12 / std::sin(want), "the positional angle of ", text(b), " seen from ", text(a), " is ", angle / r, " instead of ", w / r);
    }
}
static std::vector<double> lats() { std::vector<double> v; int s = mc::thorough() ? 5 : 15; for (int i = -90; i <= 90; i += s) v.push_back(i); v.push_back(-51.3); v.push_back(89.999); v.push_back(0.001); return v; }
SCENARIO("every pair of directions")
{
    auto L = lats(); int k = mc::pick(count(frames())); double lat = mc::pick_from(L); int step = mc::thorough() ? 15 : 30;
    int lon = mc::pick(360 / step) * step; static double const dists[] = {1, 2.5e11, 1e-3};
    sky a = {lat, double(lon), dists[k % 3]};
    at(k, frames(), [&](auto t) { typedef typename decltype(t)::type F;
        for (double lat2 : L) for (int lon2 = -180; lon2 < 540; lon2 += step) { pair_of<F>(a, sky{lat2, lon2 + (lat2 == 89.999 ? 0.25 : 0), dists[(k + lon2 / step + 60) % 3]}); mc::steps(1); } });
    mc::state(mc::str(k, ' ', lat, ' ', lon));
}
SCENARIO("close and nearly opposite directions")
{
    static double const tiny[] = {0, 1e-9, 1e-7, 1e-6, 1e-4, 0.01, 1};
    int k = mc::pick(count(frames())); double lat = mc::pick_from(std::vector<double>{-90, -45, 0, 30, 60, 89.9, 90}), lon = mc::pick_from(std::vector<double>{0, 77.5, 180, 359});
    sky a = {lat, lon, 1};
    at(k, frames(), [&](auto t) { typedef typename decltype(t)::type F;
        for (double u : tiny) for (double v : tiny) for (int opposite = 0; opposite < 2; ++opposite)
        {
            sky b = {lat + u, lon + v, 3}; if (b.lat > 90) b.lat = lat - u; if (opposite) { b.lat = -b.lat; b.lon += 180; }
            F const f = make_frame<F>(a), g = make_frame<F>(b); double s = f.get_angular_separation(g).value(), want = separation(a, b);
            mc::check(s == s && std::fabs(s - want) < 1e-12, "the separation of ", text(a), " and ", text(b), " is ", s / r, " instead of ", want / r); mc::steps(1);
        } });
    mc::state(mc::str(k, ' ', lat, ' ', lon));
}
SCENARIO("laws of distances")
{
    typedef icrs<R1, D1> F; static double const la[] = {-90, -30, 0, 45, 90}, lo[] = {0, 100, 200, 300};
    sky a = {la[mc::pick(5)], lo[mc::pick(4)], 1}, b = {la[mc::pick(5)], lo[mc::pick(4)], 2}, c = {la[mc::pick(5)], lo[mc::pick(4)], 3};
    sky_point<F> p(make_frame<F>(a)), q(make_frame<F>(b)), s(make_frame<F>(c));
    mc::check(p.separation(s).value() <= p.separation(q).value() + q.separation(s).value() + 1e-12, "triangle inequality");
    mc::check(p.separation(p).value() < 1e-12, "the separation from itself is ", p.separation(p).value());
    sky_point<F> copy(p), other; other.set_point(q.get_point());
    mc::check(copy.separation(other).value() == p.separation(q).value() && copy.positional_angle(other).value() == p.positional_angle(q).value(), "copies differ");
    mc::state(text(a) + text(b) + text(c));
}
// the same frame made in every way
template <typename F> static void ways(sky a, double u, double w, double t, sky b)
{
    typedef typename F::representation R; typedef typename F::differential D;
    auto q1 = make<typename R::quantity1>(a.lat * r); auto q2 = make<typename R::quantity2>(a.lon * r); auto q3 = make<typename R::quantity3>(a.dist);
    auto d1 = make<typename D::quantity1>(u); auto d2 = make<typename D::quantity2>(w); auto d3 = make<typename D::quantity3>(t);
    sky_point<F> const p(F(q1, q2, q3, d1, d2, d3)), q(R(q1, q2, q3), D(d1, d2, d3)), s(q1, q2, q3, d1, d2, d3), v(q1, q2, q3), far(make_frame<F>(b));
    sky_point<F> k, l; k.set_point(p.get_point()); l = k;
    sky_point<F> const* all[] = {&p, &q, &s, &v, &k, &l};
    for (int n = 0; n < 6; ++n)
    {
        F const f = all[n]->get_point(); auto x = f.get_data();
        mc::check(mc::close(x.get_lat().value(), q1.value(), 1e-12) && mc::close(x.get_lon().value(), q2.value(), 1e-12) && mc::close(x.get_dist().value(), q3.value(), 1e-12), "a sky point made in way ", n, " is ", x.get_lat().value(), " ", x.get_lon().value(), " ", x.get_dist().value(), " instead of ", text(a));
        if (n != 3)
        {
            auto y = f.get_differential();
            mc::check(mc::close(y.get_dlat().value(), d1.value(), 1e-12) && mc::close(y.get_dlon_coslat().value(), d2.value(), 1e-12) && mc::close(y.get_ddist().value(), d3.value(), 1e-12), "the differential of a sky point made in way ", n, " is ", y.get_dlat().value(), " ", y.get_dlon_coslat().value(), " ", y.get_ddist().value());
        }
        mc::check(mc::close(all[n]->separation(far).value(), p.separation(far).value()) && mc::close(all[n]->positional_angle(far).value(), p.positional_angle(far).value()) && mc::close(far.separation(*all[n]).value(), far.separation(p).value()), "the sky point made in way ", n, " has another separation");
        mc::check(k.is_equivalent_system(*all[n]), "points of one system are of different systems");
    }
    sky_point<icrs<R3, D2>> other; mc::check(k.is_equivalent_system(other) == std::is_same<F, icrs<R3, D2>>::value, "points of two systems are of one system");
}
template <typename... Ts> static void ways_of(int k, list<Ts...>, sky a, double u, double w, double t, sky b)
{ int n = 0; int dummy[] = {0, (n++ == k ? (ways<Ts>(a, u, w, t, b), 0) : 0)...}; (void)dummy; }
SCENARIO("a sky point is the same however it is made")
{
    static double const la[] = {-80, 0, 45}, lo[] = {0, 100, 300}, ds[] = {-0.25, 0, 0.5};
    int k = mc::pick(11); sky a = {la[mc::pick(3)], lo[mc::pick(3)], mc::flip() ? 2.5 : 1.0}; double u = ds[mc::pick(3)], w = ds[mc::pick(3)], t = ds[mc::pick(3)];
    ways_of(k, frames(), a, u, w, t, {20, 250, 3});
    mc::state(mc::str(k, text(a), a.dist, u, w, t));
}
