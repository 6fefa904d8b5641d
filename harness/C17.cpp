// C17: vector operations on representations compute the vector result.
#include <boost/units/systems/si/area.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
#include "coord.hpp"
using namespace crd;
typedef double d; typedef float f;
typedef list<
    cartesian_representation<d, m_q<d>, m_q<d>, m_q<d>>,
    cartesian_representation<d, m_q<d>, km_q<d>, au_q<d>>,
    cartesian_representation<d, au_q<d>, m_q<d>, km_q<d>>,
    spherical_representation<d, rad_q<d>, rad_q<d>, m_q<d>>,
    spherical_representation<d, deg_q<d>, rad_q<d>, km_q<d>>,
    spherical_equatorial_representation<d, rad_q<d>, rad_q<d>, m_q<d>>,
    spherical_equatorial_representation<d, rad_q<d>, deg_q<d>, au_q<d>>> kinds;
typedef list<
    cartesian_representation<f, m_q<f>, m_q<f>, m_q<f>>,
    spherical_representation<f, deg_q<f>, deg_q<f>, m_q<f>>,
    spherical_equatorial_representation<f, deg_q<f>, rad_q<f>, m_q<f>>> floats;

template <typename Q> static double area(Q const& q) { return double(static_cast<bu::quantity<bu::si::area, double>>(bu::quantity<typename Q::unit_type, double>::from_value(q.value())).value()); }
template <typename T, typename X, typename Y, typename Z> static vec area_vec(cartesian_representation<T, X, Y, Z> const& c) { return {area(c.get_x()), area(c.get_y()), area(c.get_z())}; }
template <typename T, typename X, typename Y, typename Z> static vec area_vec(spherical_representation<T, X, Y, Z> const& c) { return of_spherical(si(c.get_lat()), si(c.get_lon()), area(c.get_dist())); }
template <typename T, typename X, typename Y, typename Z> static vec area_vec(spherical_equatorial_representation<T, X, Y, Z> const& c) { return of_equatorial(si(c.get_lat()), si(c.get_lon()), area(c.get_dist())); }

static std::vector<vec> const& vectors()
{
    static std::vector<vec> v;
    if (v.empty())
    {
        std::vector<double> g = mc::thorough() ? std::vector<double>{-3, -0.5, 0, 1, 2} : std::vector<double>{-1.5, 0, 2};
        for (double x : g) for (double y : g) for (double z : g) v.push_back({x, y, z});
        v.push_back({1e3, -2e-3, 5}); v.push_back({-1e-4, 1e-4, 1e-4}); v.push_back({1, 2, 3}); v.push_back({-7, 11, -13});
    }
    return v;
}
// next to a pole Boost.Geometry's arc cosine keeps half of the digits
static double least = 0;
template <typename A, typename B> static void pair_of(vec a, vec b, int turns)
{
    double const e = std::max(least, std::max(eps<A>(), eps<B>()) * 20);
    A const p = builder<A>::of(a, turns); B const q = builder<B>::of(b, (turns + 1) % 4);
    A const p0(p); B const q0(q);
    double const la = len(a), lb = len(b);
    poison(); vec c = area_vec(cross(p, q));
    mc::check(near(c, crossp(a, b), la * lb + 1e-300, e), "cross of ", text(a), " and ", text(b), " is ", text(c));
    double dt = area(dot(p, q));
    mc::check(std::fabs(dt - dotp(a, b)) <= e * (la * lb + 1e-300), "dot of ", text(a), " and ", text(b), " is ", dt);
    poison(); A const s = sum(p, q);
    mc::check(near(phys(s), add(a, b), la + lb + 1e-300, e), "sum of ", text(a), " and ", text(b), " is ", text(phys(s)));
    poison(); A const s2 = p + q;
    mc::check(near(phys(s2), add(a, b), la + lb + 1e-300, e), text(a), " + ", text(b), " is ", text(phys(s2)));
    poison(); A const m = mean(p, q);
    mc::check(near(phys(m), mul(add(a, b), 0.5), la + lb + 1e-300, e), "mean of ", text(a), " and ", text(b), " is ", text(phys(m)));
    mc::check(p == p0 && q == q0, "an argument changed");
}
// unit_vector of a spherical class exists in double precision only
template <typename A> static A unit_of(A const& p, std::true_type) { return unit_vector(p); }
template <typename A> static A unit_of(A const& p, std::false_type) { return p; }
template <typename A> struct has_unit : std::integral_constant<bool, std::is_same<typename A::type, double>::value || std::is_same<typename A::system, boost::geometry::cs::cartesian>::value> {};
template <typename A> static void one(vec a, int turns)
{
    double const e = eps<A>() * 20;
    A const p = builder<A>::of(a, turns);
    double mag = si(m_q<double>(bu::quantity<typename decltype(magnitude(p))::unit_type, double>::from_value(magnitude(p).value())));
    mc::check(std::fabs(mag - len(a)) <= e * (len(a) + 1e-300), "magnitude of ", text(a), " is ", mag);
    if (len(a) > 0 && has_unit<A>::value)
    {
        poison(); A const u = unit_of(p, has_unit<A>());
        vec w = phys(u); double l = len(w);
        // parallel to a, with length one in one of the units of the class
        mc::check(near(mul(w, 1 / l), mul(a, 1 / len(a)), 1, e), "unit vector of ", text(a), " points to ", text(w));
        double one = double(magnitude(u).value());
        mc::check(std::fabs(one - 1) < e, "the unit vector of ", text(a), " has length ", one);
    }
}
template <typename L> static void all(vec a, vec b, int ka, int kb, int turns)
{
    at(ka, L(), [&](auto ta) { typedef typename decltype(ta)::type A; one<A>(a, turns);
        at(kb, L(), [&](auto tb) { pair_of<A, typename decltype(tb)::type>(a, b, turns); }); });
}
SCENARIO("every pair of kinds, units and vectors")
{
    int ka = mc::pick(count(kinds())), kb = mc::pick(count(kinds())), ia = mc::pick(int(vectors().size()));
    for (std::size_t ib = 0; ib < vectors().size(); ++ib)
        for (int turns = 0; turns < (mc::thorough() ? 4 : 2); ++turns) { all<kinds>(vectors()[ia], vectors()[ib], ka, kb, turns); mc::steps(1); }
    mc::state(mc::str(ka, ' ', kb, ' ', ia));
}
SCENARIO("single precision")
{
    int ka = mc::pick(count(floats())), kb = mc::pick(count(floats())), ia = mc::pick(int(vectors().size()));
    for (std::size_t ib = 0; ib < vectors().size(); ++ib)
        for (int turns = 0; turns < 2; ++turns) { all<floats>(vectors()[ia], vectors()[ib], ka, kb, turns); mc::steps(1); }
    mc::state(mc::str(ka, ' ', kb, ' ', ia));
}
SCENARIO("mixed precision")
{
    typedef list<cartesian_representation<d, m_q<d>, km_q<d>, m_q<d>>, spherical_representation<d, rad_q<d>, deg_q<d>, km_q<d>>> D;
    int ka = mc::pick(count(D())), kb = mc::pick(count(floats())), ia = mc::pick(int(vectors().size()));
    for (std::size_t ib = 0; ib < vectors().size(); ++ib)
        at(ka, D(), [&](auto ta) { at(kb, floats(), [&](auto tb) { typedef typename decltype(ta)::type A; typedef typename decltype(tb)::type B;
            A p = builder<A>::of(vectors()[ia], 0); B q = builder<B>::of(vectors()[ib], 0);
            vec a = vectors()[ia], b = vectors()[ib]; double t = 4e-5 * (len(a) + len(b)) ;
            mc::check(near(phys(sum(p, q)), add(a, b), 1, t), "sum"); mc::check(near(phys(mean(p, q)), mul(add(a, b), .5), 1, t), "mean");
            mc::check(std::fabs(area(dot(p, q)) - dotp(a, b)) <= 4e-5 * len(a) * len(b), "dot");
            mc::check(near(area_vec(cross(p, q)), crossp(a, b), len(a) * len(b), 4e-5), "cross"); mc::steps(1); }); });
    mc::state(mc::str(ka, ' ', kb, ' ', ia));
}
SCENARIO("every power of ten")
{
    int ka = mc::pick(count(kinds())), kb = mc::pick(count(kinds())), pa = mc::pick(13) * 6 - 36;
    struct loose { loose() { least = 4e-8; } ~loose() { least = 0; } } l;
    for (int n = 0; n < scaled_directions; ++n) for (int pb = pa - 12; pb <= pa + 12; pb += 4)
    {
        vec a = scaled(n, pa), b = scaled((n + pb + 120) % scaled_directions, pb);
        all<kinds>(a, b, ka, kb, 0); mc::steps(1);
        if (ka < count(floats()) && kb < count(floats()) && std::abs(pa) < 10 && std::abs(pb) < 8) all<floats>(a, b, ka, kb, 0);
    }
    mc::state(mc::str(ka, ' ', kb, ' ', pa));
}
// laws that need no reference: for all pairs of directions in steps
SCENARIO("algebraic laws over the sphere")
{
    typedef spherical_representation<d, deg_q<d>, deg_q<d>, m_q<d>> S;
    int step = mc::thorough() ? 10 : 30, a = mc::pick(360 / step) * step, b = mc::pick(180 / step + 1) * step;
    S p(deg_q<d>::from_value(a), deg_q<d>::from_value(b), 2. * bu::si::meters);
    for (int x = 0; x < 360; x += step) for (int y = 0; y <= 180; y += step)
    {
        S q(deg_q<d>::from_value(x), deg_q<d>::from_value(y), 3. * bu::si::meters);
        double pq = dot(p, q).value(), qp = dot(q, p).value();
        mc::check(std::fabs(pq - qp) < 1e-9, "dot is not symmetric");
        auto n = cross(p, q), n2 = cross(q, p);
        double nn = magnitude(n).value();
        mc::check(std::fabs(nn * nn + pq * pq - 36) < 1e-7, "|a x b|^2 + (a.b)^2 is ", nn * nn + pq * pq);
        vec v = area_vec(n), w = area_vec(n2);
        mc::check(near(v, mul(w, -1), 1, 1e-7), "cross is not antisymmetric");
        mc::check(std::fabs(dotp(v, phys(p))) < 1e-7 && std::fabs(dotp(v, phys(q))) < 1e-7, "cross is not perpendicular");
        mc::steps(1);
    }
    mc::state(mc::str(a, ' ', b));
}
