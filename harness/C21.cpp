// C21: the obliquity of the ecliptic for every date.
#include <boost/units/systems/si.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include "mc.hpp"
namespace co = boost::astronomy::coordinate;
static double const pi = 3.14159265358979323846;
static double got(boost::gregorian::date d) { return co::obliquity_of_ecliptic(d).get().value() / pi * 180; }
// days of the proleptic Gregorian calendar counted independently; 2000-01-01 is 2451545
static long count_days(int y, int m, int d)
{
    long n = 0; int a = (14 - m) / 12; long yy = y + 4800 - a, mm = m + 12 * a - 3;
    n = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; return n;
}
static double formula(long jd)
{
    long double t = (jd - 2451545.0L) / 36525.0L;
    return double(23.439292L - (46.815L * t + 0.0006L * t * t - 0.00181L * t * t * t) / 3600.0L);
}
SCENARIO("every date of every year")
{
    mc::split(1); int y = 1400 + mc::pick(8600);
    double last = 0; bool first = true;
    boost::gregorian::date end(y, 12, 31);
    for (boost::gregorian::date d(y, 1, 1); d <= end; d += boost::gregorian::days(1))
    {
        double e = got(d), w = formula(count_days(d.year(), d.month(), d.day()));
        mc::check(std::fabs(e - w) < 1e-9, "the obliquity of ", int(d.year()), "-", int(d.month()), "-", int(d.day()), " is ", e, " instead of ", w);
        mc::check(e > 22 && e < 26, "the obliquity ", e, " is out of range");
        if (!first) mc::check(std::fabs(e - last) < 1e-5, "the obliquity jumps from ", last, " to ", e);
        last = e; first = false; mc::steps(1);
        if (d == end) break;
    }
    mc::state(mc::str(y));
}
SCENARIO("known values")
{
    struct known { int y, m, d; double degrees; };
    // J2000 by definition; the others from the IAU series, to 0.0001 degrees
    static known const all[] = {{2000, 1, 1, 23.439292}, {1900, 1, 1, 23.4523}, {2100, 1, 1, 23.4263}, {2009, 7, 6, 23.43805}, {1950, 1, 1, 23.4458}};
    mc::split(1); known const& k = all[mc::pick(5)];
    double e = got(boost::gregorian::date(k.y, k.m, k.d));
    mc::check(std::fabs(e - k.degrees) < 1e-4, k.y, ": ", e, " instead of ", k.degrees);
    mc::state(mc::str(k.y));
}
SCENARIO("independent of the order of questions")
{
    static int const ys[] = {1400, 1582, 1900, 2000, 2100, 9999};
    std::string s; for (int i = 0; i < 4; ++i) { int y = ys[mc::pick(6)]; s += mc::str(y, ' '); mc::check(std::fabs(got(boost::gregorian::date(y, 6, 15)) - formula(count_days(y, 6, 15))) < 1e-9, "after ", s); }
    co::obliquity_of_ecliptic a(boost::gregorian::date(1400, 6, 15)), b(a), c(boost::gregorian::date(2000, 6, 15)); c = a;
    mc::check(a.get() == b.get() && a.get() == c.get() && a.get() == a.get(), "copies differ");
    mc::state(s);
}
