// C25: decimal hours keep the time they are made from.
#include <sstream>
#include <boost/astronomy/time/parser.hpp>
#include "mc.hpp"
static void parts(decimal_hour const& t, double value, double e)
{
    double back = t.get_hours() + t.get_minutes() / 60.0 + t.get_seconds() / 3600.0;
    mc::check(std::fabs(t.get() - value) <= e, "the value is ", t.get(), " instead of ", value);
    mc::check(std::fabs(back - value) <= e, value, " h is shown as ", t.get_hours(), " h ", t.get_minutes(), " min ", t.get_seconds(), " s");
}
static void ranges(decimal_hour const& t, double value)
{
    mc::check(std::labs(t.get_minutes()) < 60 && std::fabs(t.get_seconds()) < 60 + 1e-6, value, " h has ", t.get_minutes(), " min ", t.get_seconds(), " s");
    if (value >= 0) mc::check(t.get_hours() >= 0 && t.get_minutes() >= 0 && t.get_seconds() >= -1e-9, "a negative part of ", value);
    else mc::check(t.get_hours() <= 0 && t.get_minutes() <= 0 && t.get_seconds() <= 1e-9, "a positive part of ", value);
}
SCENARIO("every second of a day from hours, minutes and seconds")
{
    mc::split(1); int h = mc::pick(24);
    for (int m = 0; m < 60; ++m) for (int s = 0; s < 60; ++s)
    {
        decimal_hour t{double(h), double(m), double(s)}; double v = h + m / 60.0 + s / 3600.0;
        mc::check(t.get_hours() == h && t.get_minutes() == m && std::fabs(t.get_seconds() - s) < 1e-9, h, ":", m, ":", s, " became ", t.get_hours(), ":", t.get_minutes(), ":", t.get_seconds());
        parts(t, v, 1e-12); ranges(t, v);
        decimal_hour u{v}; parts(u, v, 1e-12); ranges(u, v);
        mc::check(std::fabs(u.get_hours() * 3600 + u.get_minutes() * 60 + u.get_seconds() - (h * 3600 + m * 60 + s)) < 1e-6, "the parts of ", v); mc::steps(1);
    }
    mc::state(mc::str(h));
}
SCENARIO("fractions of seconds")
{
    int h = mc::pick(4) * 7, m = mc::pick(60); static double const fr[] = {0, 1e-6, 0.001, 0.25, 0.5, 0.999, 0.999999, 51.67, 59.999999};
    for (double x : fr)
    {
        decimal_hour t{double(h), double(m), x}; double v = h + m / 60.0 + x / 3600;
        mc::check(t.get_hours() == h && t.get_minutes() == m && std::fabs(t.get_seconds() - x) < 1e-9, h, ":", m, ":", x, " became ", t.get_hours(), ":", t.get_minutes(), ":", t.get_seconds());
        parts(t, v, 1e-12); decimal_hour u{v}; parts(u, v, 1e-12); ranges(u, v); mc::steps(1);
    }
    mc::state(mc::str(h, ' ', m));
}
SCENARIO("decimal values of either sign")
{
    // k/7200 h from -240 h to 240 h
    mc::split(1); int block = mc::pick(480) - 240;
    for (int k = 0; k < 7200; k += mc::thorough() ? 1 : 5) { double v = block + k / 7200.0; decimal_hour t{v}; parts(t, v, 1e-10); ranges(t, v); mc::steps(1); }
    mc::state(mc::str(block));
}
SCENARIO("hours with a fraction, minutes beyond an hour")
{
    static double const hs[] = {0, 0.5, 1.25, 23.999, 100}, ms[] = {0, 0.5, 30.75, 59.5, 75, 600}, ss[] = {0, 0.5, 59.5, 90, 3600};
    double h = hs[mc::pick(5)], m = ms[mc::pick(6)], s = ss[mc::pick(5)];
    decimal_hour t{h, m, s}; parts(t, h + m / 60 + s / 3600, 1e-10);
    mc::state(mc::str(h, ' ', m, ' ', s));
}
SCENARIO("long times")
{
    // hours up to 10^15 (whole), minutes and seconds far beyond an hour
    static double const big[] = {1e3, 24855, 32767, 32768, 65536, 596523, 596524, 1e6, 35791394, 35791395, 2147483647, 2147483648., 4294967296., 4294967297., 1e10, 1e12, 1e15};
    double b = big[mc::pick(17)]; int sign = mc::pick(2) ? -1 : 1, which = mc::pick(4); double f = mc::pick(2) * 0.5;
    double x = sign * (b + f); mc::state(mc::str(x, ' ', which));
    double const e = 1e-15 * b * 8;
    if (which == 0) { decimal_hour t{x}; parts(t, x, e); ranges(t, x); }
    if (which == 1) { decimal_hour t{x, 0, 0}; parts(t, x, e); }
    if (which == 2) { decimal_hour t{0, x, 0}; parts(t, x / 60, e); }
    if (which == 3) { decimal_hour t{0, 0, x}; parts(t, x / 3600, e); }
}
SCENARIO("printing and copies")
{
    int h = mc::pick(24), m = mc::pick(60); static double const ss[] = {0, 1.5, 59.25}; double s = ss[mc::pick(3)];
    decimal_hour t{double(h), double(m), s}, c(t), a{0.0}; a = t;
    mc::check(c.get() == t.get() && a.get() == t.get() && a.get_minutes() == m && c.get_seconds() == t.get_seconds(), "copies differ");
    std::ostringstream o; o << t; int x = -1, y = -1; double z = -1; std::string str = o.str();
    std::size_t p = str.find_first_of("0123456789"); mc::check(p != std::string::npos && std::sscanf(str.c_str() + p, "%dh %dm %lfs", &x, &y, &z) == 3, "printed as ", str);
    mc::check(x == h && y == m && std::fabs(z - s) < 1e-5, h, ":", m, ":", s, " is printed as ", str);
    mc::state(mc::str(h, ' ', m, ' ', s));
}
