// C20: celestial coordinate transformations are rotations (or reflections) and invert each other.
#include <boost/units/systems/si.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include "mc.hpp"
namespace co = boost::astronomy::coordinate;
namespace ub = boost::numeric::ublas;
typedef ub::matrix<double> M;
typedef bu::quantity<bu::si::plane_angle, double> rad; typedef bu::quantity<bud::plane_angle, double> deg;
typedef bu::quantity<bud::plane_angle, float> fdeg;
static double const pi = 3.14159265358979323846;
static double const r = pi / 180;
struct dir { double u, v; };                       // longitude-like and latitude-like angle, degrees
static double turn(double a, double b) { double t = std::fmod(std::fabs(a - b), 360.0); return std::min(t, 360 - t); }
static double apart(dir a, dir b)
{
    double x = std::cos(a.v * r) * std::cos(a.u * r) - std::cos(b.v * r) * std::cos(b.u * r), y = std::cos(a.v * r) * std::sin(a.u * r) - std::cos(b.v * r) * std::sin(b.u * r), z = std::sin(a.v * r) - std::sin(b.v * r);
    return 2 * std::asin(std::min(1.0, std::sqrt(x * x + y * y + z * z) / 2)) / r;
}
static std::string text(dir a) { return mc::str("(", a.u, ", ", a.v, ")"); }
static M column(dir a, int unit)
{
    if (unit == 0) return co::column_vector<double, rad, double>(a.u * r * bu::si::radians, a.v * r * bu::si::radians).get();
    return co::column_vector<double, deg, double>(a.u * bud::degrees, a.v * bud::degrees).get();
}
static dir result(M const& m)
{
    auto p = co::extract_coordinates(m).get_coordinates();
    dir d = {p.first.value() / r, p.second.value() / r};
    mc::check(d.u == d.u && d.v == d.v, "the result is not a number");
    mc::check(d.v >= -90 - 1e-9 && d.v <= 90 + 1e-9 && d.u >= -180 - 1e-9 && d.u <= 360 + 1e-9, "the result ", text(d), " is out of range");
    return d;
}
static dir apply(M const& t, dir a, int unit) { return result(M(ub::prod(t, column(a, unit)))); }

enum { horizon, hour_angle, to_ecliptic, from_ecliptic, to_galactic, from_galactic, kinds };
static M matrix_of(int k, double p, int unit)
{
    if (unit == 0) switch (k)
    {
    case horizon: return co::ha_dec_horizon<double, rad, double>(p * r * bu::si::radians).get();
    case hour_angle: return co::ha_dec_ra_dec<double, rad, double>(p * r * bu::si::radians).get();
    case to_ecliptic: return co::ra_dec_to_ecliptic<double, rad, double>(p * r * bu::si::radians).get();
    case from_ecliptic: return co::ecliptic_to_ra_dec<double, rad, double>(p * r * bu::si::radians).get();
    }
    switch (k)
    {
    case horizon: return co::ha_dec_horizon<double, deg, double>(p * bud::degrees).get();
    case hour_angle: return co::ha_dec_ra_dec<double, deg, double>(p * bud::degrees).get();
    case to_ecliptic: return co::ra_dec_to_ecliptic<double, deg, double>(p * bud::degrees).get();
    case from_ecliptic: return co::ecliptic_to_ra_dec<double, deg, double>(p * bud::degrees).get();
    case to_galactic: return co::ra_dec_to_galactic<double>().get();
    default: return co::galactic_to_ra_dec<double>().get();
    }
}
// the textbook formulas of spherical trigonometry
static dir expected(int k, double p, dir a)
{
    double u = a.u * r, v = a.v * r, q = p * r, x, y, z;
    switch (k)
    {
    case horizon: // hour angle and declination to azimuth (from north) and altitude
        z = std::sin(v) * std::sin(q) + std::cos(v) * std::cos(q) * std::cos(u); y = -std::cos(v) * std::sin(u); x = std::sin(v) * std::cos(q) - std::cos(v) * std::cos(u) * std::sin(q); break;
    case hour_angle: return {p - a.u, a.v};
    case to_ecliptic: z = std::sin(v) * std::cos(q) - std::cos(v) * std::sin(q) * std::sin(u); y = std::sin(u) * std::cos(v) * std::cos(q) + std::sin(v) * std::sin(q); x = std::cos(u) * std::cos(v); break;
    case from_ecliptic: z = std::sin(v) * std::cos(q) + std::cos(v) * std::sin(q) * std::sin(u); y = std::sin(u) * std::cos(v) * std::cos(q) - std::sin(v) * std::sin(q); x = std::cos(u) * std::cos(v); break;
    default: // galactic, 1950.0: pole at 192.25, 27.4; the ascending node has longitude 33
        if (k == to_galactic)
        {
            z = std::cos(v) * std::cos(27.4 * r) * std::cos(u - 192.25 * r) + std::sin(v) * std::sin(27.4 * r);
            double l = std::atan2(std::sin(v) - z * std::sin(27.4 * r), std::cos(v) * std::sin(u - 192.25 * r) * std::cos(27.4 * r)) + 33 * r;
            return {l / r, std::asin(std::max(-1.0, std::min(1.0, z))) / r};
        }
        z = std::cos(v) * std::cos(27.4 * r) * std::sin(u - 33 * r) + std::sin(v) * std::sin(27.4 * r);
        return {(std::atan2(std::cos(v) * std::cos(u - 33 * r), std::sin(v) * std::cos(27.4 * r) - std::cos(v) * std::sin(27.4 * r) * std::sin(u - 33 * r)) + 192.25 * r) / r, std::asin(std::max(-1.0, std::min(1.0, z))) / r};
    }
    return {std::atan2(y, x) / r, std::asin(std::max(-1.0, std::min(1.0, z))) / r};
}
static int inverse(int k) { static int const inv[] = {horizon, hour_angle, from_ecliptic, to_ecliptic, from_galactic, to_galactic}; return inv[k]; }
// rounding (galactic: the seven decimals of the matrix), enlarged by the arc sine towards the poles
static double tolerance(int k, double lat = 0)
{
    double c = std::fabs(std::cos(lat * r)), e = k >= to_galactic ? 4e-7 : 1e-14;
    return std::min(e / std::max(c, 1e-300), 2 * std::sqrt(e)) / r + 1e-9;
}
static std::vector<double> parameters(int k)
{
    int step = mc::thorough() ? 5 : 15; std::vector<double> p;
    if (k == horizon) for (int i = -90; i <= 90; i += step) p.push_back(i);
    else if (k == hour_angle) for (int i = 0; i <= 360; i += step) p.push_back(i);
    else if (k == to_ecliptic || k == from_ecliptic) { p = {0, 22, 23.26, 23.43929, 23.5, 24.3, 45, 90}; }
    else p = {0};
    if (k < to_ecliptic) { p.push_back(52.1234); p.push_back(-33.75); }
    return p;
}
SCENARIO("every direction, transformation and parameter")
{
    int k = mc::pick(kinds); double p = mc::pick_from(parameters(k)); int unit = mc::pick(2), step = mc::thorough() ? 3 : 5, col = mc::pick(360 / step);
    M m = matrix_of(k, p, unit), inv = matrix_of(inverse(k), p, unit);
    for (int lat = -90; lat <= 90; lat += step)
    {
        dir a = {double(col * step), double(lat)}, b = apply(m, a, unit), e = expected(k, p, a);
        mc::check(apart(b, e) < tolerance(k, b.v), "transformation ", k, " with ", p, " of ", text(a), " is ", text(b), " instead of ", text(e));
        dir c = apply(inv, b, unit);
        mc::check(apart(c, a) < tolerance(k, a.v) + tolerance(k, b.v), "transformation ", k, " with ", p, " of ", text(a), " is undone to ", text(c));
        if (std::fabs(b.v) < 89 && std::fabs(e.v) < 89) mc::check(turn(b.u, e.u) < tolerance(k, b.v) * 60 && std::fabs(b.v - e.v) < tolerance(k, b.v), "angles ", text(b), " instead of ", text(e));
        mc::steps(1);
    }
    mc::state(mc::str(k, ' ', p, ' ', unit, ' ', col));
}
SCENARIO("the matrices are orthogonal")
{
    int k = mc::pick(kinds); double p = mc::pick_from(parameters(k)); int unit = mc::pick(2);
    M m = matrix_of(k, p, unit), n = matrix_of(inverse(k), p, unit); double e = k >= to_galactic ? 3e-7 : 1e-14;
    mc::check(m.size1() == 3 && m.size2() == 3, "matrix ", k, " has ", m.size1(), " rows and ", m.size2(), " columns");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    {
        double s = 0, t = 0, w = 0;
        for (int l = 0; l < 3; ++l) { s += m(i, l) * m(j, l); t += m(l, i) * m(l, j); w += m(i, l) * n(l, j); }
        mc::check(std::fabs(s - (i == j)) < e && std::fabs(t - (i == j)) < e, "matrix ", k, " with ", p, " is not orthogonal");
        mc::check(std::fabs(w - (i == j)) < e, "matrix ", k, " with ", p, " times its inverse is not the identity");
    }
    mc::state(mc::str(k, ' ', p, ' ', unit));
}
SCENARIO("angles between directions are kept")
{
    int k = mc::pick(kinds); double p = mc::pick_from(parameters(k)); M m = matrix_of(k, p, 1);
    int step = 45; dir a = {double(mc::pick(8) * step), double(mc::pick(5) * 45 - 90)}; dir a2 = apply(m, a, 1);
    for (int u = 10; u < 360; u += 50) for (int v = -85; v < 90; v += 35)
    {
        dir b = {double(u), double(v)}, b2 = apply(m, b, 1);
        mc::check(std::fabs(apart(a, b) - apart(a2, b2)) < tolerance(k, a2.v) + tolerance(k, b2.v) + 1e-5, "the angle between ", text(a), " and ", text(b), " changes from ", apart(a, b), " to ", apart(a2, b2));
        mc::steps(1);
    }
    mc::state(mc::str(k, ' ', p, ' ', text(a)));
}
SCENARIO("chains between all systems")
{
    // horizon -> hour angle -> right ascension -> ecliptic -> right ascension -> galactic and all the way back
    double phi = mc::pick_from(std::vector<double>{-90, -33.75, 0, 52, 90}), st = mc::pick_from(std::vector<double>{0, 71.5, 180, 300}), ob = mc::pick_from(std::vector<double>{23.26, 23.44});
    M h = matrix_of(horizon, phi, 1), s = matrix_of(hour_angle, st, 1), te = matrix_of(to_ecliptic, ob, 0), fe = matrix_of(from_ecliptic, ob, 1), tg = matrix_of(to_galactic, 0, 0), fg = matrix_of(from_galactic, 0, 0);
    int step = mc::thorough() ? 10 : 30;
    for (int u = 0; u < 360; u += step) for (int v = -90; v <= 90; v += step)
    {
        dir a = {double(u), double(v)};
        dir b = apply(tg, apply(fe, apply(te, apply(s, apply(h, a, 1), 0), 1), 0), 1);
        dir c = apply(h, apply(s, apply(fe, apply(te, apply(fg, b, 0), 1), 0), 1), 0);
        mc::check(apart(a, c) < 0.1, text(a), " came back as ", text(c));
        M all = ub::prod(M(ub::prod(tg, s)), h); dir d = apply(all, a, 1);
        mc::check(apart(d, b) < 0.1, "the product of the matrices gives ", text(d), ", the chain ", text(b));
        mc::steps(1);
    }
    mc::state(mc::str(phi, ' ', st, ' ', ob));
}
SCENARIO("column vectors and their angles")
{
    int unit = mc::pick(2), u = mc::pick(mc::thorough() ? 720 : 144) * (mc::thorough() ? 1 : 5) - 360;
    for (int v = -90; v <= 90; v += 1)
    {
        dir a = {double(u), double(v)}; M m = column(a, unit);
        double want[] = {std::cos(u * r) * std::cos(v * r), std::sin(u * r) * std::cos(v * r), std::sin(v * r)};
        mc::check(m.size1() == 3 && m.size2() == 1, "shape");
        for (int i = 0; i < 3; ++i) mc::check(std::fabs(m(i, 0) - want[i]) < 1e-12, "component ", i, " of ", text(a), " is ", m(i, 0));
        dir b = result(m); mc::check(apart(a, b) < 1e-6, text(a), " came back as ", text(b));
        co::column_vector<float, fdeg, double> g(fdeg::from_value(float(u)), fdeg::from_value(float(v)));
        for (int i = 0; i < 3; ++i) mc::check(std::fabs(g.get()(i, 0) - want[i]) < 1e-5, "single precision");
        mc::steps(1);
    }
    mc::state(mc::str(unit, ' ', u));
}
// rounding must not take the last component out of the domain of the arc sine
SCENARIO("directions close to the axes and beyond a turn")
{
    static double const offs[] = {0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4, 1e-3, -1e-3, 0.01, -0.01, 0.1, -0.1, 1, -1, 17, 44.5};
    int quarter = mc::pick(25) - 12, k = mc::pick(kinds), unit = mc::pick(2); double p = parameters(k)[parameters(k).size() / 2];
    M m = matrix_of(k, p, unit);
    for (double o : offs) for (int q = -2; q <= 2; ++q) for (double w : offs)
    {
        double u = quarter * 90 + o, v = q * 45 + w; if (std::fabs(v) > 90) continue;
        dir a = {u, v}; M c = column(a, unit);
        double want[] = {std::cos(u * r) * std::cos(v * r), std::sin(u * r) * std::cos(v * r), std::sin(v * r)};
        for (int i = 0; i < 3; ++i) mc::check(std::fabs(c(i, 0) - want[i]) < 1e-12 + 1e-14 * std::fabs(u), "component ", i, " of ", text(a), " is ", c(i, 0), " instead of ", want[i]);
        dir b = apply(m, a, unit), e = expected(k, p, a);
        mc::check(apart(b, e) < tolerance(k, b.v), "transformation ", k, " with ", p, " of ", text(a), " is ", text(b), " instead of ", text(e));
        mc::steps(1);
    }
    mc::state(mc::str(quarter, ' ', k, ' ', unit));
}
SCENARIO("products whose last component is one up to rounding")
{
    int k = mc::pick(6); double p = mc::pick(37) * 5 - 90; M m = matrix_of(k, k == horizon ? p : p + 90, 0);
    // the direction which the transformation takes to the pole
    M pole(3, 1); for (int i = 0; i < 3; ++i) pole(i, 0) = m(2, i);
    for (int s = -1; s <= 1; s += 2) for (int j = -3; j <= 3; ++j)
    {
        M a = pole; for (int i = 0; i < 3; ++i) a(i, 0) *= s * (1 + j * 1e-16 * 3);
        dir b = result(M(ub::prod(m, a))); mc::check(std::fabs(b.v - s * 90) < 0.1, "the pole is at ", text(b)); mc::steps(1);
    }
    mc::state(mc::str(k, ' ', p));
}

SCENARIO("every element of every matrix, parameters in steps of a quarter degree and notable ones")
{
    static double const notable[] = {1e-12, -1e-9, 1e-6, 1e-3, 0.01, 29.9999, 44.999, 45.001, 89.999, 89.9999999, 90.0000001, 179.9999, 180.0001, 269.999, 359.9999, 360.0001, 719.5, 725, -359.75, -720, 1080.25, 3600};
    int k = mc::pick(kinds), block = mc::pick(37), unit = mc::pick(2);
    auto one = [&](double p) {
        double c = std::cos(p * r), s = std::sin(p * r);
        double w[6][3][3] = {{{-s, 0, c}, {0, -1, 0}, {c, 0, s}}, {{c, s, 0}, {s, -c, 0}, {0, 0, 1}}, {{1, 0, 0}, {0, c, s}, {0, -s, c}}, {{1, 0, 0}, {0, c, -s}, {0, s, c}},
            {{-0.0669887394, -0.8727557659, -0.4835389146}, {0.4927284661, -0.4503469580, 0.7445846333}, {-0.8676008112, -0.1883746017, 0.4601997848}},   // from the pole of 1950.0, to ten digits
            {{-0.0669887394, 0.4927284661, -0.8676008112}, {-0.8727557659, -0.4503469580, -0.1883746017}, {-0.4835389146, 0.7445846333, 0.4601997848}}};
        M m = matrix_of(k, p, unit); double e = k >= to_galactic ? 1e-7 : 1e-12 + 1e-13 * std::fabs(p);
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mc::check(std::fabs(m(i, j) - w[k][i][j]) < e, "element ", i, ",", j, " of matrix ", k, " with ", p, " is ", m(i, j), " instead of ", w[k][i][j]);
        mc::steps(1); };
    if (block == 36) for (double p : notable) one(p);
    else for (int q = 0; q < 80; ++q) one(-360 + block * 20 + q * 0.25);
    mc::state(mc::str(k, ' ', block, ' ', unit));
}
