// C24: sidereal times follow the rotation of the earth.
#include <boost/astronomy/time/time_conversions.hpp>
#include "mc.hpp"
namespace tm_ = boost::astronomy::time;
namespace pt = boost::posix_time; namespace gr = boost::gregorian;
static long gregorian_day(int y, int m, int d) { int a = (14 - m) / 12; long yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - yy / 100 + yy / 400 - 32045; }
static long julian_day(int y, int m, int d) { int a = (14 - m) / 12; long yy = y + 4800 - a, mm = m + 12 * a - 3; return d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083; }
static double circle(double a, double b) { double t = std::fmod(std::fabs(a - b), 24.0); return std::min(t, 24 - t); }
// Duffett-Smith: the mean sidereal time at 0h UT, then the sidereal seconds of the day
static double expected(gr::date d, double hours)
{
    int y = d.year(), m = d.month(), k = d.day(); bool g = y > 1582 || (y == 1582 && (m > 10 || (m == 10 && k >= 15)));
    long double t = ((g ? gregorian_day(y, m, k) : julian_day(y, m, k)) - 0.5L - 2451545.0L) / 36525.0L;
    long double s = 6.697374558L + 2400.051336L * t + 0.000025862L * t * t + hours * 1.002737909L;
    s -= 24 * std::floor(s / 24); return double(s);
}
static double gst(gr::date d, pt::time_duration t) { return tm_::GST(pt::ptime(d, t)).get(); }
static double const eps = 1e-9;   // hours, 4 microseconds
static void check_gst(gr::date d, pt::time_duration t)
{
    double g = gst(d, t), w = expected(d, t.total_microseconds() / 3.6e9);
    mc::check(g >= 0 && g < 24, "GST ", g, " is out of range");
    mc::check(circle(g, w) < eps, "GST of ", int(d.year()), "-", int(d.month()), "-", int(d.day()), " ", t.total_microseconds() / 1e6, " s is ", g, " h instead of ", w);
}
SCENARIO("every date")
{
    mc::split(1); int y = 1400 + mc::pick(8600); gr::date end(y, 12, 31);
    for (gr::date d(y, 1, 1); ; d += gr::days(1))
    {
        check_gst(d, pt::hours(0)); check_gst(d, pt::hours(12)); check_gst(d, pt::time_duration(23, 59, 59) + pt::microseconds(999999)); check_gst(d, pt::seconds((int(d.day()) * 7919 + int(d.month()) * 3571) % 86400));
        mc::steps(4); if (d == end) break;
        if (y > 1582) mc::check(circle(gst(d, pt::time_duration(23, 59, 59) + pt::microseconds(999999)), gst(d + gr::days(1), pt::hours(0))) < 1e-5, "GST jumps at midnight");
    }
    mc::state(mc::str(y));
}
SCENARIO("every second of a day")
{
    static int const ds[][3] = {{1980, 4, 22}, {2000, 1, 1}, {1582, 10, 15}, {2024, 2, 29}, {1400, 1, 1}, {9999, 12, 31}};
    int i = mc::pick(mc::thorough() ? 6 : 3), h = mc::pick(24); gr::date d(ds[i][0], ds[i][1], ds[i][2]); double last = -1;
    for (int s = 0; s < 3600; ++s)
    {
        pt::time_duration t = pt::hours(h) + pt::seconds(s);
        check_gst(d, t); check_gst(d, t + pt::microseconds(s * 277)); double g = gst(d, t);
        if (last >= 0) { double step = g - last; if (step < -12) step += 24; mc::check(std::fabs(step * 3600 - 1.002737909) < 1e-5, "one second of time is ", step * 3600, " s of sidereal time"); }
        last = g; mc::steps(1);
    }
    mc::state(mc::str(i, ' ', h));
}
SCENARIO("every millisecond of a second")
{
    int s = mc::pick(4) * 21599 + mc::pick(2); gr::date d(1980, 4, 22);
    for (int ms = 0; ms < 1000; ++ms) { check_gst(d, pt::seconds(s) + pt::milliseconds(ms)); check_gst(d, pt::seconds(s) + pt::microseconds(ms)); mc::steps(1); }
    mc::state(mc::str(s));
}
SCENARIO("local sidereal time of every longitude")
{
    static int const ds[][3] = {{1980, 4, 22}, {2000, 1, 1}, {1582, 10, 14}, {2024, 2, 29}};
    int i = mc::pick(4), h = mc::pick(24), east = mc::pick(2); gr::date d(ds[i][0], ds[i][1], ds[i][2]); pt::ptime t(d, pt::hours(h) + pt::seconds(1234) + pt::milliseconds(567));
    double g = tm_::GST(t).get();
    for (int l = -720; l <= 1440; l += mc::thorough() ? 1 : 5)
    {
        double lon = l / 2.0, w = g + (east ? lon : -lon) / 15.0;
        double x = tm_::LST(lon, east ? tm_::DIRECTION::EAST : tm_::DIRECTION::WEST, t).get(), y = tm_::LST(-lon, east ? tm_::DIRECTION::WEST : tm_::DIRECTION::EAST, t).get();
        mc::check(x >= 0 && x < 24 + 1e-12, "LST ", x, " is out of range");
        mc::check(circle(x, w - 24 * std::floor(w / 24)) < 1e-9, "LST at longitude ", lon, east ? " east" : " west", " is ", x, " instead of ", w);
        mc::check(circle(x, y) < 1e-9, "a negative longitude is not the other direction"); mc::steps(1);
    }
    mc::state(mc::str(i, ' ', h, ' ', east));
}
SCENARIO("longitudes close to each other")
{
    static double const tiny[] = {1e-12, 1e-9, 1e-6, 1e-5, 1e-4, 5e-4, 9.99e-4, 1e-3, 0.01, 0.1, 0.5, 1}, at[] = {0, 15, 90, 180, 270, 345, 360, 720, -90, -180, -360};
    int i = mc::pick(12), j = mc::pick(11), h = mc::pick(24), east = mc::pick(2); pt::ptime t(gr::date(2001, 3, 9), pt::hours(h) + pt::minutes(7));
    double g = tm_::GST(t).get();
    for (int sign : {-1, 1})
    {
        double lon = at[j] + sign * tiny[i], w = g + (east ? lon : -lon) / 15.0, x = tm_::LST(lon, east ? tm_::DIRECTION::EAST : tm_::DIRECTION::WEST, t).get();
        mc::check(x >= 0 && x < 24 + 1e-12, "LST ", x, " is out of range");
        mc::check(circle(x, w - 24 * std::floor(w / 24)) < 1e-12, "LST at longitude ", lon, east ? " east" : " west", " is ", x, " instead of ", w); mc::steps(1);
    }
    mc::state(mc::str(i, ' ', j, ' ', h, ' ', east));
}
SCENARIO("known values")
{
    mc::split(1);
    int k = mc::pick(3);
    if (k == 0) { double g = tm_::GST(pt::ptime(gr::date(1980, 4, 22), pt::hours(14) + pt::minutes(36) + pt::seconds(51) + pt::milliseconds(670))).get(); mc::check(std::fabs(g - 4.668119) < 1e-5, "GST ", g); }
    if (k == 1) { double g = tm_::LST(64, tm_::DIRECTION::WEST, pt::ptime(gr::date(1980, 4, 22), pt::hours(14) + pt::minutes(36) + pt::seconds(51) + pt::milliseconds(670))).get(); mc::check(std::fabs(g - 0.401453) < 1e-5, "LST ", g); }
    if (k == 2) { double g = tm_::GST(pt::ptime(gr::date(1987, 4, 10), pt::hours(19) + pt::minutes(21))).get(); mc::check(std::fabs(g - (8 + 34 / 60. + 57.0896 / 3600)) < 1e-6, "GST ", g); } // Meeus 12.b
    mc::state(mc::str(k));
}
