// C23: the Julian date of every calendar date.
#include <boost/astronomy/time/time_conversions.hpp>
#include "mc.hpp"
namespace tm_ = boost::astronomy::time;
namespace pt = boost::posix_time; namespace gr = boost::gregorian;
static double got(int y, int m, int d, pt::time_duration t) { return tm_::julian_date(pt::ptime(gr::date(y, m, d), t)); }
// day numbers in integers (Fliegel and van Flandern; Richards), noon of the day
static long gregorian_day(int y, int m, int d) { int a = (14 - m) / 12; long yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
static long julian_day(int y, int m, int d) { int a = (14 - m) / 12; long yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083; }
static double want(int y, int m, int d) { bool g = y > 1582 || (y == 1582 && (m > 10 || (m == 10 && d >= 15))); return (g ? gregorian_day(y, m, d) : julian_day(y, m, d)) - 0.5; }
SCENARIO("every date of every year")
{
    mc::split(1); int y = 1400 + mc::pick(8600); double last = 0; bool first = true; gr::date end(y, 12, 31);
    for (gr::date d(y, 1, 1); ; d += gr::days(1))
    {
        int m = d.month(), k = d.day(); double j = got(y, m, k, pt::hours(0));
        mc::check(j == want(y, m, k), "the Julian date of ", y, "-", m, "-", k, " is ", j, " instead of ", want(y, m, k));
        if (!first && y > 1582) mc::check(j == last + 1, "the Julian date jumps from ", last, " to ", j);
        double e = got(y, m, k, pt::hours(24) - pt::microseconds(1));
        mc::check(e == j, "the Julian date of ", y, "-", m, "-", k, " is ", e, " in its last microsecond");
        last = j; first = false; mc::steps(2);
        if (d == end) break;
    }
    if (y > 1582 && y < 9999) mc::check(got(y + 1, 1, 1, pt::hours(0)) == last + 1, "the Julian date jumps at the end of ", y);
    mc::state(mc::str(y));
}
SCENARIO("every time of notable days")
{
    // the date of the day at midnight is given for every time of the day
    static int const ds[][3] = {{1582, 10, 4}, {1582, 10, 15}, {1582, 10, 16}, {1900, 2, 28}, {1900, 3, 1}, {2000, 1, 1}, {2000, 2, 29}, {2100, 3, 1}, {1400, 1, 1}, {9999, 12, 31}, {2024, 12, 31}};
    int i = mc::pick(11), h = mc::pick(24);
    for (int mi = 0; mi < 60; ++mi) for (int s = 0; s < 60; s += mc::thorough() ? 1 : 7)
    {
        double j = got(ds[i][0], ds[i][1], ds[i][2], pt::time_duration(h, mi, s) + pt::microseconds(s ? 999999 : 0)), w = want(ds[i][0], ds[i][1], ds[i][2]);
        mc::check(j == w, "the Julian date of the day is ", j, " instead of ", w, " at ", h, ":", mi, ":", s); mc::steps(1);
    }
    mc::state(mc::str(i, ' ', h));
}
SCENARIO("known epochs")
{
    mc::split(1);
    struct known { int y, m, d; double jd; };
    static known const all[] = {{2000, 1, 1, 2451544.5}, {1985, 2, 17, 2446113.5}, {1582, 10, 15, 2299160.5}, {1582, 10, 4, 2299159.5}, {1858, 11, 17, 2400000.5}, {1970, 1, 1, 2440587.5}, {1600, 1, 1, 2305447.5}, {1600, 12, 31, 2305812.5}, {1987, 1, 27, 2446822.5}, {1987, 6, 19, 2446965.5}, {1988, 1, 27, 2447187.5}, {1900, 1, 1, 2415020.5}};
    known const& k = all[mc::pick(12)];
    mc::check(got(k.y, k.m, k.d, pt::hours(0)) == k.jd, k.y, "-", k.m, "-", k.d, " is ", got(k.y, k.m, k.d, pt::hours(0)));
    mc::state(mc::str(k.jd));
}
