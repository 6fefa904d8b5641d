// one operation for every part of the library, whose results are given as text (shared by C27 and C29)
#ifndef VERIF_OPS_HPP
#define VERIF_OPS_HPP
#include <boost/units/io.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/io.hpp>
#include <boost/astronomy/io/fits.hpp>
#include <boost/astronomy/time/time_conversions.hpp>
#include <boost/astronomy/units/length.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include <boost/astronomy/coordinate/coord_sys/coordinate.hpp>
#include <boost/astronomy/coordinate/ref_frame/frame.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/alt_az.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic.hpp>
#include <boost/astronomy/coordinate/coord_sys/supergalactic.hpp>
#include <boost/astronomy/coordinate/sky_point.hpp>
#include <boost/astronomy/coordinate/io/io.hpp>
#include "coord.hpp"
#include "files.hpp"
using namespace crd; using namespace files;
typedef double d;
template <typename T> using v_q = bu::quantity<bu::si::velocity, T>;
typedef decltype(fits::open("")) reader;
typedef card<card_policy> card_t;

static std::string x(double v) { char b[64]; std::snprintf(b, sizeof b, "%a ", v); return b; }
static std::string x(std::string const& s) { return s + "|"; }
static std::string n(long long v) { char b[32]; std::snprintf(b, sizeof b, "%lld ", v); return b; }
template <typename F> static std::string refused(F f) { try { f(); } catch (std::exception& e) { return std::string("refused ") + typeid(e).name() + "|"; } return "accepted|"; }
struct input { int v; std::string file, out; };   // variant of the data; the thread's own files

static header_t make_header_of(part const& p, std::string const& path)
{
    { std::ofstream f(path, std::ios::binary); std::string b = p.h.bytes(); f.write(b.data(), std::streamsize(b.size())); }
    fits_stream s; s.set_file(path); header_t h; h.read_header(s); return h;
}
static std::string cards(input const& i)
{
    card_t a, b, c, e, f; std::string r;
    a.create_card("NUM", 17 + i.v * 1000003, "number"); b.create_card("REAL", 0.1 + i.v, "real"); c.create_card("TEXT", std::string("it's / ") + char('a' + i.v), "text");
    e.create_card("FLAG", i.v % 2 == 0); f.create_card("CPLX", std::complex<double>(1.5 + i.v, -0.25));
    card_t g(std::string(c.raw_card())), h = b;
    r += x(a.raw_card()) + n(a.value<int>()) + n(a.value<long long>()) + x(b.value<double>()) + x(double(b.value<float>())) + x(g.value<std::string>()) + n(e.value<bool>()) + x(f.value<std::complex<double>>().imag());
    h.set_value(2.5f + i.v); r += x(h.raw_card()) + x(h.keyword()) + x(h.value_with_comment()) + x(b.raw_card());
    card_t k; k.create_commentary_card("COMMENT", "free text " + std::string(std::size_t(i.v) + 1, 'z')); r += x(k.raw_card()) + x(k.value<std::string>());
    r += refused([&] { card_t("TOOLONGKEY", "v"); }) + refused([&] { c.value<int>(); });
    return r;
}
static std::string headers(input const& i)
{
    fits_stream s; s.set_file(i.file); header_t h, g; h.read_header(s); s.set_unit_end();
    std::string r = n(int(h.bitpix())) + n((long long)h.data_size()) + n((long long)h.data_unit_size()) + n((long long)h.card_count()) + x(h.get_hdu_name()) + n(h.contains_keyword("EXTEND")) + n(h.value_of<int>("NAXIS"));
    s.set_reading_pos(s.get_current_pos() + h.data_unit_size()); s.set_unit_end(); g.read_header(s);
    r += x(g.get_hdu_name()) + n(g == h) + refused([&] { h.value_of<int>("NOTHERE"); }) + refused([&] { h.naxis(99); });
    fits_stream w; w.create_file(i.out); h.write_header(w); g.write_header(w); w.close();
    return r + x(gen::read_file(i.out));
}
static std::string streams(input const& i)
{
    fits_stream s; s.create_file(i.out); s.write(std::string(3000, char('a' + i.v))); s.write("end"); s.write("xy", 5); std::string r = n((long long)s.find_unit_end());
    s.close(); s.set_file(i.out); r += x(s.read(10)); r += n(s.get()); r += n((long long)s.get_current_pos()); s.set_reading_pos(2998); r += x(s.read(5)); r += n(s.at_end()); r += refused([&] { s.read(1); });
    r += refused([&] { s.set_file("nowhere/none"); });
    return r;
}
static std::string readers(input const& i)
{
    reader q = fits::open(i.file); std::string r = n((long long)q.get_hdu_list().size()) + n((long long)q.get_control_block_info().total_hdus());
    auto& t = fits::convert_to<binary_table>(q["BINTABLE"]); auto& a = fits::convert_to<ascii_table>(q["TABLE"]); auto p = fits::convert_to<primary_hdu>(q[0]).get_data<bitpix::B16>();
    r += n(t.get_column<boost::int32_t>("A")[0]) + x(std::string(a.get_column<std::string>("NAME")[0])) + n(a.get_column<long long>("N")[1]) + n(p(0, 0)) + x(p.mean());
    t.get_column<boost::int32_t>("A")[1] = 1000 + i.v; a.get_column<long long>("N")[0] = 7 + i.v;
    q.write_to(i.out); r += x(gen::read_file(i.out));
    reader h = fits::open(i.file, reading_options::read_only_headers); r += n((long long)h.get_hdu_list().size());
    return r + refused([&] { fits::open("nowhere/none"); }) + refused([&] { q["NOTHERE"]; });
}
static std::string binary(input const& i)
{
    part p = bin({{"1J", "A"}, {"2D", "B"}, {"3A", "C"}, {"1L", "D"}, {"1C", "E"}, {"2I", "F"}, {"1P", "G"}, {"1E", "H"}}, 53, 3, 4, i.v);
    binary_table t(make_header_of(p, i.out + ".h"), p.data), u(t); std::string r;
    u.get_column<boost::int32_t>("A")[1] = -5 - i.v; u.get_column<std::vector<d>>("B")[2] = std::vector<d>{1.5 + i.v, -2.5}; u.get_column<bool>("D")[0] = true; u.get_column<std::complex<float>>("E")[1] = std::complex<float>(1, float(i.v));
    u.get_column<std::vector<char>>("C")[0] = std::vector<char>{'x', 'y', char('a' + i.v)}; u.get_column<float>("H")[2] = 0.5f + i.v;
    for (int k = 0; k < 3; ++k) r += n(t.get_column<boost::int32_t>("A")[k]) + n(u.get_column<boost::int32_t>("A")[k]) + x(std::vector<d>(u.get_column<std::vector<d>>("B")[k])[0]) + n(std::vector<boost::int16_t>(u.get_column<std::vector<boost::int16_t>>("F")[k])[1]) + n(std::pair<boost::int32_t, boost::int32_t>(u.get_column<std::pair<boost::int32_t, boost::int32_t>>("G")[k]).first);
    auto m = t.get_column_metadata("B"); r += n((long long)m.index()) + x(m.TFORM()) + n((long long)m.TBCOL()) + refused([&] { t.get_column_metadata("Z"); });
    t = u; for (auto const& row : t.get_data()) for (auto const& c : row) r += x(c);
    return r;
}
static std::string ascii_tables(input const& i)
{
    part p = ascii({{"A8", "NAME", 1}, {"I6", "N", 10}, {"F10.3", "X", 17}, {"E14.6", "Y", 28}, {"D20.10", "Z", 43}}, 64, 3);
    ascii_table t(make_header_of(p, i.out + ".h"), p.data), u(t); std::string r;
    u.get_column<long long>("N")[1] = -5 - i.v; u.get_column<double>("X")[0] = 1.5 + i.v; u.get_column<float>("Y")[2] = 0.1f + i.v; u.get_column<double>("Z")[1] = 1.0 / (3 + i.v); u.get_column<std::string>("NAME")[2] = std::string("n") + char('a' + i.v);
    for (int k = 0; k < 3; ++k) r += x(std::string(t.get_column<std::string>("NAME")[k])) + n(u.get_column<long long>("N")[k]) + x(double(u.get_column<double>("X")[k])) + x(double(float(u.get_column<float>("Y")[k]))) + x(double(u.get_column<double>("Z")[k]));
    for (auto cell : u.get_column<long long>("N")) { long long v = cell; r += n(v); }
    fits_stream w; w.create_file(i.out); u.write_to(w); w.close(); r += x(gen::read_file(i.out)) + x(t.get_column_metadata("X").TFORM()) + refused([&] { u.get_column<double>("NAME"); });
    return r;
}
static std::string images(input const& i)
{
    part p = img(true, -32, {5, 4}, 0); part q = img(false, 16, {7, 3}, i.v);
    image_extension e(make_header_of(q, i.out + ".h"), q.data); primary_hdu f(make_header_of(p, i.out + ".h"), p.data);
    auto a = e.get_data<bitpix::B16>(); auto b = f.get_data<bitpix::_B32>();
    std::string r = n(a.max()) + n(a.min()) + x(a.mean()) + n(a.median()) + x(a.std_dev()) + n(a(1, 2)) + n((long long)a.size()) + x(double(b.max())) + x(b.mean()) + x(b.std_dev()) + n(f.is_simple()) + n(f.is_extended());
    fits_stream w; w.create_file(i.out); e.write_to(w); f.write_to(w); w.close(); return r + x(gen::read_file(i.out));
}
static std::string converters(input const& i)
{
    std::string r; typedef binary_data_converter b; int v = i.v; std::complex<double> cz(v, 1); std::vector<boost::int32_t> cv{1, v}; std::pair<boost::int32_t, boost::int32_t> cp(v, 2); std::vector<float> cf{1, float(v)};
    r += x(b::serialize(boost::int16_t(300 + v))) + x(b::serialize(boost::int32_t(70000 + v))) + x(b::serialize(1.5f + v)) + x(b::serialize(2.5 + v)) + x(b::serialize(true)) + x(b::serialize(cz)) + x(b::serialize(cv)) + x(b::serialize(cp));
    r += x(b::deserialize_to<double>(b::serialize(0.1 + v), 1)) + n(b::deserialize_to<boost::int16_t>(b::serialize(boost::int16_t(-v)), 1)) + x(b::deserialize_to<std::vector<float>>(b::serialize(cf), 2)[1]) + refused([&] { b::deserialize_to<double>("abc", 1); });
    r += x(ascii_converter::serialize(0.1 + v)) + x(ascii_converter::serialize(12345 + v)) + x(ascii_converter::deserialize_to<double>("1.5D3", 1)) + n(ascii_converter::deserialize_to<long long>("42", 1)) + refused([&] { ascii_converter::deserialize_to<int>("4x", 1); });
    return r;
}
static std::string representations(input const& i)
{
    auto a = make_cartesian_representation((1.0 + i.v) * bu::si::meters, 2.0 * bu::si::meters, -3.0 * bu::si::meters);
    auto s = make_spherical_representation(a); auto q = make_spherical_equatorial_representation(s); auto b = make_cartesian_representation(q);
    cartesian_representation<d, km_q<d>, m_q<d>, km_q<d>> k(b); spherical_representation<d, deg_q<d>, deg_q<d>, km_q<d>> g(q);
    std::string r = x(s.get_lat().value()) + x(s.get_lon().value()) + x(q.get_lat().value()) + x(q.get_dist().value()) + x(b.get_z().value()) + x(k.get_x().value()) + x(g.get_lat().value()) + n(a == b);
    r += x(dot(a, s).value()) + x(magnitude(a).value()) + x(magnitude(q).value()) + x(boost::astronomy::coordinate::unit_vector(a).get_y().value()) + x(sum(a, b).get_x().value()) + x(mean(s, a).get_dist().value()) + x(cross(a, k).get_x().value()) + x((s + a).get_lon().value());
    s.set_lat(0.25 * bu::si::radians); r += x(s.get_lat().value()) + x(a.to_representation<decltype(s)>().get_lon().value());
    return r;
}
static std::string differentials(input const& i)
{
    auto mps = bu::si::meters / bu::si::seconds;
    auto a = make_cartesian_differential((1.0 + i.v) * mps, 2.0 * mps, -3.0 * mps); auto s = make_spherical_differential(a); auto q = make_spherical_equatorial_differential(s); auto c = make_spherical_coslat_differential(q);
    auto m = a * (5.0 * bu::si::seconds); auto e = a + s;
    return x(s.get_dlat().value()) + x(q.get_dlat().value()) + x(c.get_dlon_coslat().value()) + x(m.get_dx().value()) + x(e.get_dz().value()) + x(make_cartesian_differential(c).get_dy().value()) + n(a == a);
}
template <typename F> static std::string frame_of(int v)
{
    typedef typename F::representation R; typedef typename F::differential D;
    F f(R(make<typename R::quantity1>(0.1 + 0.1 * v), make<typename R::quantity2>(0.5), make<typename R::quantity3>(2)), D(make<typename D::quantity1>(0.01), make<typename D::quantity2>(0.02 + 0.01 * v), make<typename D::quantity3>(3)));
    F g(make<typename R::quantity1>(-0.2), make<typename R::quantity2>(1.5 + v), make<typename R::quantity3>(2));
    sky_point<F> p(f), q(g); std::string r = x(p.separation(q).value()) + x(p.positional_angle(q).value()) + x(f.get_angular_separation(g).value()) + x(f.get_data().get_lat().value()) + x(std::get<1>(f.get_proper_motion()).value()) + x(f.get_radial_velocity().value());
    p.set_point(g); return r + x(p.get_point().get_data().get_lon().value());
}
typedef spherical_representation<d, deg_q<d>, deg_q<d>, m_q<d>> R1; typedef spherical_coslat_differential<d, deg_q<d>, deg_q<d>, v_q<d>> D1;
static std::string frames_(input const& i) { return frame_of<icrs<R1, D1>>(i.v) + frame_of<cirs<R1, D1>>(i.v) + frame_of<alt_az<R1, D1>>(i.v) + frame_of<galactic<R1, D1>>(i.v) + frame_of<supergalactic<R1, D1>>(i.v); }
static std::string systems(input const& i)
{
    namespace ub = boost::numeric::ublas; typedef bu::quantity<bu::si::plane_angle, d> rad;
    auto c = column_vector<d, rad, d>((0.3 + i.v) * bu::si::radians, 0.4 * bu::si::radians).get(); std::string r;
    auto show = [&](ub::matrix<d> const& m) { auto p = extract_coordinates(ub::matrix<d>(ub::prod(m, c))).get_coordinates(); r += x(p.first.value()) + x(p.second.value()); };
    show(ha_dec_horizon<d, rad, d>(0.9 * bu::si::radians).get()); show(ha_dec_ra_dec<d, rad, d>((1.0 + i.v) * bu::si::radians).get()); show(ra_dec_to_ecliptic<d, rad, d>(0.41 * bu::si::radians).get()); show(ecliptic_to_ra_dec<d, rad, d>(0.41 * bu::si::radians).get()); show(ra_dec_to_galactic<d>().get()); show(galactic_to_ra_dec<d>().get());
    auto h = make_horizon_coord(0.1 * bu::si::radians, (0.2 + i.v) * bu::si::radians); auto e = make_equatorial_ha_coord((0.3 + i.v) * bu::si::radians, 0.4 * bu::si::radians);
    return r + x(h.get_azimuth().value()) + x(e.get_ha().value());
}
static std::string times(input const& i)
{
    using namespace boost::posix_time; using boost::gregorian::date; namespace t = boost::astronomy::time;
    ptime a(date(1980 + i.v, 4, 22), hours(14) + minutes(36) + seconds(51) + microseconds(670000)); std::string r;
    r += x(t::julian_date(a)) + x(t::GST(a).get()) + x(t::LST(64 + i.v, t::DIRECTION::WEST, a).get()) + x(t::LST(10, t::DIRECTION::EAST, a).get()) + x(boost::astronomy::coordinate::obliquity_of_ecliptic(date(2009 + i.v, 7, 6)).get().value());
    decimal_hour h(4.5 + i.v * 0.37), g(1, 2 + i.v, 3.5); return r + n(h.get_hours()) + n(h.get_minutes()) + x(h.get_seconds()) + x(g.get());
}
static std::string printing(input const& i)
{
    std::ostringstream o; o.precision(5 + i.v);
    o << make_cartesian_representation((1.0 / 3 + i.v) * bu::si::meters, 2.0 * bu::si::meters, 3.0 * bu::si::meters) << make_spherical_representation(0.1 * bu::si::radians, 0.2 * bu::si::radians, (3.0 + i.v) * bu::si::meters);
    o << make_horizon_coord(0.1 * bu::si::radians, (0.2 + i.v) * bu::si::radians) << make_ecliptic_coord(0.1 * bu::si::radians, 0.2 * bu::si::radians) << make_galactic_coord(0.1 * bu::si::radians, 0.2 * bu::si::radians);
    o << decimal_hour(3.25 + i.v) << (2.0 * boost::astronomy::units::parsecs);
    return o.str();
}
static std::string lengths(input const& i)
{
    using namespace boost::astronomy::units; typedef bu::quantity<bu::si::length> M;
    return x(static_cast<M>((1.5 + i.v) * parsecs).value()) + x(static_cast<M>(2.0 * light_years).value()) + x(static_cast<M>((3.0 + i.v) * astronomical_units).value());
}
struct op { char const* name; std::string (*run)(input const&); };
static op const ops[] = {{"cards", cards}, {"headers", headers}, {"streams", streams}, {"readers", readers}, {"binary tables", binary}, {"ASCII tables", ascii_tables}, {"images", images}, {"converters", converters}, {"representations", representations}, {"differentials", differentials}, {"frames", frames_}, {"transformations", systems}, {"times", times}, {"printing", printing}, {"lengths", lengths}};
static int const op_count = int(sizeof ops / sizeof *ops);

static input input_of(int thread, int v)
{
    input i; i.v = v; i.file = "in" + std::to_string(thread); i.out = "out" + std::to_string(thread); return i;
}
static std::string bytes_of(int v)
{
    std::string b = img(true, 16, {4, 3}, v).bytes();
    b += bin({{"1J", "A"}, {"3A", "C"}}, 7, 3, 0, v).bytes();
    return b + ascii({{"A8", "NAME", 1}, {"I6", "N", 10}}, 16, 3).bytes();
}
static void inputs(input const& i) { std::ofstream f(i.file, std::ios::binary); std::string b = bytes_of(i.v); f.write(b.data(), std::streamsize(b.size())); }
static std::string run_op(int k, input const& i)
{
    try { return ops[k].run(i); }
    catch (std::exception& e) { return std::string("exception ") + typeid(e).name() + " " + e.what(); }
}
#endif
