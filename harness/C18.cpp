// C18: differentials convert, add and scale as vectors.
#include <boost/units/systems/si/length.hpp>
#include "coord.hpp"
using namespace crd;
typedef double d; typedef float f;
template <typename T> using v_q = bu::quantity<bu::si::velocity, T>;
#ifndef VERIF_SAME_UNITS
template <typename T> using kv_q = bu::quantity<decltype(bu::si::kilo * bu::si::meters / bu::si::seconds), T>;
#else
template <typename T> using kv_q = v_q<T>;
#endif
typedef list<
    cartesian_differential<d, v_q<d>, v_q<d>, v_q<d>>,
    cartesian_differential<d, kv_q<d>, v_q<d>, kv_q<d>>,
    spherical_differential<d, rad_q<d>, rad_q<d>, v_q<d>>,
    spherical_differential<d, deg_q<d>, rad_q<d>, kv_q<d>>,
    spherical_equatorial_differential<d, rad_q<d>, rad_q<d>, v_q<d>>,
    spherical_equatorial_differential<d, rad_q<d>, deg_q<d>, kv_q<d>>,
    spherical_coslat_differential<d, rad_q<d>, rad_q<d>, v_q<d>>,
    spherical_coslat_differential<d, deg_q<d>, deg_q<d>, kv_q<d>>> kinds;
typedef list<
    cartesian_differential<f, v_q<f>, v_q<f>, v_q<f>>,
    spherical_differential<f, deg_q<f>, rad_q<f>, v_q<f>>,
    spherical_equatorial_differential<f, rad_q<f>, deg_q<f>, v_q<f>>,
    spherical_coslat_differential<f, rad_q<f>, rad_q<f>, v_q<f>>> floats;

template <typename R> struct is_coslat : std::false_type {};
template <typename T, typename X, typename Y, typename Z> struct is_coslat<spherical_coslat_differential<T, X, Y, Z>> : std::true_type {};
// the cos-latitude form cannot express a vector whose azimuth has no cosine
static bool regular(vec v) { return std::fabs(v.x) > 1e-3 * std::hypot(v.x, v.y) || (v.x == 0 && v.y == 0); }
template <typename R> static bool expressible(vec v) { return !is_coslat<R>::value || regular(v); }

template <typename Q> static double m_of(Q const& q) { return static_cast<bu::quantity<bu::si::length, double>>(bu::quantity<typename Q::unit_type, double>::from_value(q.value())).value(); }
template <typename T, typename X, typename Y, typename Z> static vec moved(cartesian_differential<T, X, Y, Z> const& c) { return {m_of(c.get_dx()), m_of(c.get_dy()), m_of(c.get_dz())}; }
template <typename T, typename X, typename Y, typename Z> static vec moved(spherical_differential<T, X, Y, Z> const& c) { return of_spherical(si(c.get_dlat()), si(c.get_dlon()), m_of(c.get_ddist())); }
template <typename T, typename X, typename Y, typename Z> static vec moved(spherical_equatorial_differential<T, X, Y, Z> const& c) { return of_equatorial(si(c.get_dlat()), si(c.get_dlon()), m_of(c.get_ddist())); }
template <typename T, typename X, typename Y, typename Z> static vec moved(spherical_coslat_differential<T, X, Y, Z> const& c) { return of_spherical(si(c.get_dlat()), si(c.get_dlon_coslat()) / cos(si(c.get_dlat())), m_of(c.get_ddist())); }

static std::vector<vec> const& vectors()
{
    static std::vector<vec> v;
    if (v.empty())
    {
        std::vector<double> g = mc::thorough() ? std::vector<double>{-3, -0.5, 0, 1, 2} : std::vector<double>{-1.5, 0, 2};
        for (double x : g) for (double y : g) for (double z : g) v.push_back({x, y, z});
        v.push_back({1e3, -2, 5}); v.push_back({-1e-4, 1e-4, 1e-4}); v.push_back({1, 2, 3}); v.push_back({-7, 11, -13});
    }
    return v;
}
// next to a pole Boost.Geometry's arc cosine keeps half of the digits
static double least = 0;
template <typename A, typename B> static void pair_of(vec a, vec b, int turns)
{
    double const e = std::max(least, std::max(eps<A>(), eps<B>()) * (is_coslat<A>::value || is_coslat<B>::value ? 1000 : 20));
    if (!expressible<A>(a)) return;
    A const p = builder<A>::of(a, turns); A const p0(p);
    if (expressible<B>(a))
    {
        B const c = fresh<B>(p); mc::check(near(phys(c), a, len(a) + 1e-300, e), "converting ", text(a), " gave ", text(phys(c)));
        A const back = fresh<A>(c); mc::check(near(phys(back), a, len(a) + 1e-300, e), "converting ", text(a), " forth and back gave ", text(phys(back)));
    }
    if (!expressible<B>(b)) return;
    B const q = builder<B>::of(b, (turns + 1) % 4); B const q0(q);
    vec s = add(a, b);
    if (expressible<A>(s) && (!is_coslat<A>::value || len(s) > 1e-9))
    {
        A const r = p + q;
        mc::check(near(phys(r), s, len(a) + len(b) + 1e-300, e), "the sum of ", text(a), " and ", text(b), " is ", text(phys(r)));
    }
    mc::check(p == p0 && q == q0, "an argument changed");
}
template <typename A> static void one(vec a, int turns)
{
    double const e = eps<A>() * (is_coslat<A>::value ? 1000 : 20);
    if (!expressible<A>(a)) return;
    A const p = builder<A>::of(a, turns);
    mc::check(near(phys(p), a, len(a) + 1e-300, e), "building ", text(a), " gave ", text(phys(p)));
    static double const times[] = {0, 1, -2, 0.5, 3600};
    for (double t : times)
    {
        auto r = p * bu::quantity<bu::si::time, typename A::type>::from_value(t);
        mc::check(near(moved(r), mul(a, t), len(a) * std::fabs(t) + 1e-300, e), text(a), " times ", t, " s is ", text(moved(r)));
    }
    auto c = make_cartesian_differential(p); mc::check(near(phys(c), a, len(a) + 1e-300, e), "make_cartesian_differential of ", text(a), " is ", text(phys(c)));
    auto s = make_spherical_differential(p); mc::check(near(phys(s), a, len(a) + 1e-300, e), "make_spherical_differential of ", text(a), " is ", text(phys(s)));
    auto q = make_spherical_equatorial_differential(p); mc::check(near(phys(q), a, len(a) + 1e-300, e), "make_spherical_equatorial_differential of ", text(a), " is ", text(phys(q)));
    if (regular(a)) { auto k = make_spherical_coslat_differential(p); mc::check(near(phys(k), a, len(a) + 1e-300, 1000 * eps<A>()), "make_spherical_coslat_differential of ", text(a), " is ", text(phys(k))); }
    A assigned; assigned = p; A const copy(p);
    mc::check(assigned == p && copy == p && p == p, "a copy is not equal to its original");
}
SCENARIO("every pair of kinds, units and vectors")
{
    int ka = mc::pick(count(kinds())), kb = mc::pick(count(kinds())), ia = mc::pick(int(vectors().size()));
    at(ka, kinds(), [&](auto ta) { typedef typename decltype(ta)::type A;
        for (int turns = 0; turns < (is_coslat<A>::value ? 4 : mc::thorough() ? 4 : 2); ++turns)
        {
            one<A>(vectors()[ia], turns);
            for (std::size_t ib = 0; ib < vectors().size(); ++ib) { at(kb, kinds(), [&](auto tb) { pair_of<A, typename decltype(tb)::type>(vectors()[ia], vectors()[ib], turns); }); mc::steps(1); }
        } });
    mc::state(mc::str(ka, ' ', kb, ' ', ia));
}
SCENARIO("single precision")
{
    int ka = mc::pick(count(floats())), kb = mc::pick(count(floats())), ia = mc::pick(int(vectors().size()));
    at(ka, floats(), [&](auto ta) { typedef typename decltype(ta)::type A;
        one<A>(vectors()[ia], 0);
        for (std::size_t ib = 0; ib < vectors().size(); ++ib) { at(kb, floats(), [&](auto tb) { pair_of<A, typename decltype(tb)::type>(vectors()[ia], vectors()[ib], 0); }); mc::steps(1); } });
    mc::state(mc::str(ka, ' ', kb, ' ', ia));
}
SCENARIO("every power of ten")
{
    int ka = mc::pick(count(kinds())), kb = mc::pick(count(kinds())), pa = mc::pick(21) * 6 - 60;
    struct loose { loose() { least = 4e-8; } ~loose() { least = 0; } } l;
    for (int n = 0; n < scaled_directions; ++n) for (int pb = pa - 12; pb <= pa + 12; pb += 4)
    {
        vec a = scaled(n, pa), b = scaled((n + pb + 120) % scaled_directions, pb);
        if (std::fabs(len(a) - len(b)) < 1e-3 * len(a)) b = mul(b, 3);
        at(ka, kinds(), [&](auto ta) { typedef typename decltype(ta)::type A; one<A>(a, 0); at(kb, kinds(), [&](auto tb) { pair_of<A, typename decltype(tb)::type>(a, b, 0); }); });
        mc::steps(1);
    }
    mc::state(mc::str(ka, ' ', kb, ' ', pa));
}
SCENARIO("magnitude and unit vector")
{
    int k = mc::pick(4); vec v = vectors()[mc::pick(int(vectors().size()))]; int turns = mc::pick(4);
    typedef cartesian_differential<d, v_q<d>, v_q<d>, v_q<d>> CD; typedef spherical_differential<d, deg_q<d>, rad_q<d>, v_q<d>> SD;
    typedef spherical_equatorial_differential<d, rad_q<d>, deg_q<d>, v_q<d>> ED; typedef spherical_coslat_differential<d, rad_q<d>, rad_q<d>, v_q<d>> KD;
    typedef list<CD, SD, ED, KD> same;
    at(k, same(), [&](auto t) { typedef typename decltype(t)::type A;
        if (!expressible<A>(v)) return;
        A const p = builder<A>::of(v, turns);
        mc::check(std::fabs(p.magnitude() - len(v)) <= 1e-9 * len(v) + 1e-300, "the magnitude of ", text(v), " is ", p.magnitude());
        if (len(v) == 0) return;
        vec u = mul(v, 1 / len(v));
        CD c = p.template unit_vector<CD>();
        if (is_coslat<A>::value && !near(phys(c), u, 1, 1e-8))
        {
            // the base class takes the stored angle times cos(latitude) for the angle itself
            vec w = of_spherical(p.get_differential().template get<0>(), p.get_differential().template get<1>(), 1);
            mc::check(near(phys(c), w, 1, 1e-8), "unit vector of ", text(v), " is ", text(phys(c)));
            mc::finding("coslat-unit-vector", mc::str("unit vector of ", text(v), " is ", text(phys(c))));
        }
        else mc::check(near(phys(c), u, 1, 1e-8), "unit vector of ", text(v), " is ", text(phys(c)));
        if (is_coslat<A>::value) return;
        SD s = p.template unit_vector<SD>(); mc::check(near(phys(s), u, 1, 1e-8), "spherical unit vector of ", text(v), " is ", text(phys(s)));
        ED q = p.template unit_vector<ED>(); mc::check(near(phys(q), u, 1, 1e-8), "equatorial unit vector of ", text(v), " is ", text(phys(q)));
        mc::check(near(phys(p.template to_differential<CD>()), v, len(v), 1e-9) && near(phys(p.template to_differential<SD>()), v, len(v), 1e-9) && near(phys(p.template to_differential<ED>()), v, len(v), 1e-9), "to_differential of ", text(v)); });
    mc::state(mc::str(k, text(v), turns));
}
#ifndef VERIF_SAME_UNITS
SCENARIO("units of a differential can be changed")
{
    vec v = vectors()[mc::pick(int(vectors().size()))]; int turns = mc::pick(4);
    cartesian_differential<d, kv_q<d>, v_q<d>, kv_q<d>> c = builder<cartesian_differential<d, kv_q<d>, v_q<d>, kv_q<d>>>::of(v, 0);
    mc::check(near(phys(make_cartesian_differential<d, v_q<d>, kv_q<d>, v_q<d>>(c)), v, len(v), 1e-9), "units of a cartesian differential");
    auto s = builder<spherical_differential<d, rad_q<d>, deg_q<d>, v_q<d>>>::of(v, turns);
    mc::check(near(phys(make_spherical_differential<d, deg_q<d>, rad_q<d>, kv_q<d>>(s)), v, len(v), 1e-9), "units of a spherical differential");
    auto q = builder<spherical_equatorial_differential<d, rad_q<d>, deg_q<d>, v_q<d>>>::of(v, turns);
    mc::check(near(phys(make_spherical_equatorial_differential<d, deg_q<d>, rad_q<d>, kv_q<d>>(q)), v, len(v), 1e-9), "units of an equatorial differential");
    if (regular(v))
    {
        auto k = builder<spherical_coslat_differential<d, rad_q<d>, deg_q<d>, v_q<d>>>::of(v, turns);
        mc::check(near(phys(make_spherical_coslat_differential<d, deg_q<d>, rad_q<d>, kv_q<d>>(k)), v, len(v), 1e-7), "units of a cos-latitude differential");
    }
    mc::check(near(phys(make_cartesian_differential<d, v_q<d>, v_q<d>, v_q<d>>(s.get_differential())), v, len(v), 1e-9), "from a point");
    mc::check(near(phys(make_spherical_differential<d, rad_q<d>, deg_q<d>, v_q<d>>(q.get_differential())), v, len(v), 1e-9), "from a point");
    mc::check(near(phys(make_spherical_equatorial_differential<d, rad_q<d>, deg_q<d>, v_q<d>>(s.get_differential())), v, len(v), 1e-9), "from a point");
    if (regular(v) && len(v) > 0)
    {
        typedef spherical_coslat_differential<d, rad_q<d>, rad_q<d>, v_q<d>> K; K const k = builder<K>::of(v, turns), l(k.get_differential()), m = k.to_differential<K>();
        // the point goes through Cartesian numbers, so its angles come back in the principal range
        double const la = k.get_dlat().value(), lo = k.get_dlon_coslat().value();
        if (std::fabs(la) < 3 && lo > 0.1 && lo < 3) mc::check(near(phys(l), phys(k), len(v), 1e-7) && near(phys(m), phys(k), len(v), 1e-7), "a cos-latitude differential made of its own point");
    }
    mc::state(mc::str(text(v), turns));
}
#endif
SCENARIO("differentials are equal only when all components are")
{
    auto const& V = vectors(); vec v = V[mc::pick(int(V.size()))], w = V[mc::pick(int(V.size()))];
    typedef cartesian_differential<d, v_q<d>, v_q<d>, v_q<d>> CD;
    bool eq = v.x == w.x && v.y == w.y && v.z == w.z;
    mc::check((builder<CD>::of(v, 0) == builder<CD>::of(w, 0)) == eq, text(v), eq ? " differs from " : " equals ", text(w));
    mc::state(text(v) + text(w));
}
SCENARIO("operations across units")
{
    mc::split(1);
    static double const vs[] = {1, 2.5, -3};
    double x = vs[mc::pick(3)];
    typedef cartesian_differential<d, v_q<d>, v_q<d>, v_q<d>> M; typedef cartesian_differential<d, kv_q<d>, kv_q<d>, kv_q<d>> K; typedef cartesian_differential<d, kv_q<d>, v_q<d>, v_q<d>> X;
    M a(v_q<d>::from_value(x), v_q<d>::from_value(x), v_q<d>::from_value(x)); K b(kv_q<d>::from_value(x), kv_q<d>::from_value(x), kv_q<d>::from_value(x));
    if (a == b) mc::finding("equality-ignores-units", mc::str(x, " m/s equals ", x, " km/s"));
    auto t = a.to_differential<K>();
    if (mc::close(si(t.get_dx()), 1000 * x)) mc::finding("to-differential-ignores-units", mc::str(x, " m/s became ", si(t.get_dx()), " m/s"));
    else mc::check(mc::close(si(t.get_dx()), x), "to_differential made ", x, " m/s into ", si(t.get_dx()));
    X m(kv_q<d>::from_value(3 * x), v_q<d>::from_value(4000 * x), v_q<d>::from_value(0));
    double g = m.magnitude();
    if (mc::close(g, std::hypot(3 * x, 4000 * x))) mc::finding("magnitude-ignores-units", mc::str("magnitude ", g));
    else mc::check(mc::close(g, std::fabs(5 * x)) || mc::close(g, std::fabs(5000 * x)), "the magnitude is ", g);
    mc::state(mc::str(x));
}
