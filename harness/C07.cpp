// C07: binary values <-> big-endian bytes, exactly and inversely.
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
using namespace boost::astronomy::io;
typedef binary_data_converter conv;

template <typename T> static bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }
template <typename T> static void one(T v)
{
    std::string want = gen::be(v);
    std::string got = conv::serialize(v);
    mc::check(got == want, "serialized bytes of ", +v, " are ", mc::show(got), " instead of ", mc::show(want));
    T back = conv::deserialize_to<T>(want, 1);
    mc::check(same(back, v), "bytes ", mc::show(want), " give ", +back, " instead of ", +v);
}
template <typename T, typename U> static T bits(U u) { T t; std::memcpy(&t, &u, sizeof t); return t; }

SCENARIO("every byte, character and logical")
{
    mc::split(1);
    int v = mc::pick(256);
    one<std::uint8_t>(std::uint8_t(v)); one<char>(char(v));
    std::string raw(1, char(v));
    mc::check(conv::deserialize_to<bool>(raw, 1) == (v == 'T'), "logical byte ", v);
    mc::check(conv::serialize(v % 2 == 0) == (v % 2 == 0 ? "T" : "F"), "logical serialized");
    mc::state(std::uint64_t(v));
}
SCENARIO("every 16 bit integer")
{
    mc::split(1);
    int hi = mc::pick(256);
    for (int lo = 0; lo < 256; ++lo) one<boost::int16_t>(bits<boost::int16_t>(std::uint16_t(hi * 256 + lo)));
    mc::steps(256); mc::state(std::uint64_t(hi));
}
static std::vector<unsigned> const bytes_q = {0x00, 0x01, 0x0a, 0x20, 0x27, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x55, 0xc3};
static std::vector<std::uint32_t> const& words()
{
    static std::vector<std::uint32_t> w;
    if (w.empty()) for (unsigned a : bytes_q) for (unsigned b : bytes_q) for (unsigned c : bytes_q) for (unsigned d : bytes_q) w.push_back((a << 24) | (b << 16) | (c << 8) | d);
    return w;
}
SCENARIO("32 bit integers and floats: all patterns of notable bytes")
{
    auto& w = words();
    int blocks = 144; int b = mc::pick(blocks); int t = mc::pick(2);
    std::size_t per = w.size() / blocks;
    for (std::size_t k = b * per; k < (b + 1) * per; ++k)
    {
        if (t == 0) one<boost::int32_t>(bits<boost::int32_t>(w[k])); else one<float>(bits<float>(w[k]));
    }
    mc::steps(per); mc::state(std::uint64_t(b * 2 + t));
}
SCENARIO("32 bit: every value of the high and of the low half")
{
    int half = mc::pick(2), hi = mc::pick(256);
    for (unsigned lo = 0; lo < 256; ++lo)
    {
        std::uint32_t u = (unsigned(hi) << 8 | lo) << (half ? 16 : 0);
        u |= half ? 0x1234u : 0x43210000u;
        one<boost::int32_t>(bits<boost::int32_t>(u)); one<float>(bits<float>(u));
    }
    mc::steps(512); mc::state(std::uint64_t(half * 256 + hi));
}
SCENARIO("doubles: every exponent and sign with notable mantissas")
{
    int e = mc::pick(2048); int s = mc::pick(2);
    static std::vector<std::uint64_t> const man = {0, 1, 0x8000000000000ull, 0xfffffffffffffull, 0x5555555555555ull, 0x123456789abcdull, 0xff, 0xff00000000000ull, 0x20202020202020ull & 0xfffffffffffffull};
    for (auto m : man) one<double>(bits<double>((std::uint64_t(s) << 63) | (std::uint64_t(e) << 52) | m));
    mc::steps(man.size()); mc::state(std::uint64_t(e * 2 + s));
}
SCENARIO("doubles: every byte at every place")
{
    int at = mc::pick(8), v = mc::pick(256);
    for (std::uint64_t bg : {0ull, 0xffffffffffffffffull, 0x3ff0000000000001ull, 0x2020202020202020ull})
    {
        std::uint64_t u = (bg & ~(0xffull << (8 * at))) | (std::uint64_t(v) << (8 * at));
        one<double>(bits<double>(u));
    }
    mc::state(std::uint64_t(at * 256 + v));
}
static std::vector<std::uint32_t> const w32 = {0, 1, 0x80000000u, 0xffffffffu, 0x3f800000u, 0x20202020u, 0x01020304u, 0x7f800000u};
static std::vector<std::uint64_t> const w64 = {0, 1, 0x8000000000000000ull, 0x3ff0000000000000ull, 0x2020202020202020ull, 0x0102030405060708ull};
SCENARIO("complex and descriptors: all pairs of notable words")
{
    int a = mc::pick(int(w32.size())), b = mc::pick(int(w32.size()));
    {
        std::complex<float> z(bits<float>(w32[a]), bits<float>(w32[b]));
        std::string want = gen::be(w32[a]) + gen::be(w32[b]);
        mc::check(conv::serialize(z) == want, "complex<float> bytes differ");
        auto y = conv::deserialize_to<std::complex<float>>(want, 1);
        mc::check(same(y.real(), z.real()) && same(y.imag(), z.imag()), "complex<float> value differs");
    }
    {
        std::pair<boost::int32_t, boost::int32_t> p(bits<boost::int32_t>(w32[a]), bits<boost::int32_t>(w32[b]));
        std::string want = gen::be(w32[a]) + gen::be(w32[b]);
        mc::check(conv::serialize(p) == want, "descriptor bytes differ");
        auto y = conv::deserialize_to<std::pair<boost::int32_t, boost::int32_t>>(want, 1);
        mc::check(y == p, "descriptor value differs");
    }
    {
        std::uint64_t x = w64[a % w64.size()], y = w64[b % w64.size()];
        std::complex<double> z(bits<double>(x), bits<double>(y));
        std::string want = gen::be(x) + gen::be(y);
        mc::check(conv::serialize(z) == want, "complex<double> bytes differ");
        auto v = conv::deserialize_to<std::complex<double>>(want, 1);
        mc::check(same(v.real(), z.real()) && same(v.imag(), z.imag()), "complex<double> value differs");
    }
    mc::state(std::uint64_t(a * 100 + b));
}
template <typename T> static bool eq(std::vector<T> const& a, std::vector<T> const& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t k = 0; k < a.size(); ++k) if (!same<T>(a[k], b[k])) return false;
    return true;
}
template <typename T> static bool eq(std::vector<std::complex<T>> const& a, std::vector<std::complex<T>> const& b)
{
    if (a.size() != b.size()) return false;
    for (std::size_t k = 0; k < a.size(); ++k) if (!same(a[k].real(), b[k].real()) || !same(a[k].imag(), b[k].imag())) return false;
    return true;
}
template <typename T> static void array(std::vector<T> const& v, std::string const& want, char const* what)
{
    std::string got = conv::serialize(v);
    mc::check(got == want, what, " array of ", v.size(), " serialized to ", mc::show(got), " instead of ", mc::show(want));
    std::vector<T> back = conv::deserialize_to<std::vector<T>>(want, int(v.size()));
    mc::check(eq(back, v), what, " array of ", v.size(), " elements read from ", mc::show(want), " differs");
    mc::state(mc::hash_str(want, mc::hash_str(what)));
}
SCENARIO("arrays of every type: all sequences of notable values")
{
    int type = mc::pick(9);
    int len = mc::pick(mc::thorough() ? 5 : 4);
    std::vector<int> ix; for (int k = 0; k < len; ++k) ix.push_back(mc::pick(6));
    std::string want;
    if (type == 0) { std::vector<boost::int16_t> v; for (int i : ix) { static std::uint16_t const w[] = {0, 1, 0x8000, 0xffff, 0x2020, 0x0102}; v.push_back(bits<boost::int16_t>(w[i])); want += gen::be(w[i]); } array(v, want, "int16"); }
    if (type == 1) { std::vector<boost::int32_t> v; for (int i : ix) { v.push_back(bits<boost::int32_t>(w32[i])); want += gen::be(w32[i]); } array(v, want, "int32"); }
    if (type == 2) { std::vector<float> v; for (int i : ix) { v.push_back(bits<float>(w32[i + 2])); want += gen::be(w32[i + 2]); } array(v, want, "float"); }
    if (type == 3) { std::vector<double> v; for (int i : ix) { v.push_back(bits<double>(w64[i])); want += gen::be(w64[i]); } array(v, want, "double"); }
    if (type == 4) { std::vector<std::uint8_t> v; for (int i : ix) { static unsigned char const w[] = {0, 1, 0x80, 0xff, 0x20, 0x27}; v.push_back(w[i]); want += char(w[i]); } array(v, want, "byte"); }
    if (type == 5) { std::vector<char> v; for (int i : ix) { v.push_back("a \0'9\xff"[i]); want += v.back(); } array(v, want, "char"); }
    if (type == 6) { std::vector<std::complex<float>> v; for (int i : ix) { v.emplace_back(bits<float>(w32[i]), bits<float>(w32[(i + 3) % 8])); want += gen::be(w32[i]) + gen::be(w32[(i + 3) % 8]); } array(v, want, "complex<float>"); }
    if (type == 7) { std::vector<std::complex<double>> v; for (int i : ix) { v.emplace_back(bits<double>(w64[i]), bits<double>(w64[(i + 1) % 6])); want += gen::be(w64[i]) + gen::be(w64[(i + 1) % 6]); } array(v, want, "complex<double>"); }
    if (type == 8)
    {
        std::vector<std::pair<boost::int32_t, boost::int32_t>> v;
        for (int i : ix) { v.emplace_back(bits<boost::int32_t>(w32[i]), bits<boost::int32_t>(w32[(i + 1) % 8])); want += gen::be(w32[i]) + gen::be(w32[(i + 1) % 8]); }
        std::string got = conv::serialize(v);
        mc::check(got == want, "descriptor array serialized to ", mc::show(got));
        mc::check((conv::deserialize_to<std::vector<std::pair<boost::int32_t, boost::int32_t>>>(want, int(v.size())) == v), "descriptor array differs");
        mc::state(want);
    }
}
SCENARIO("logical arrays: all of them up to a length")
{
    int len = mc::pick(10);
    std::vector<bool> v; std::string want;
    for (int k = 0; k < len; ++k) { bool b = mc::flip(); v.push_back(b); want += b ? 'T' : 'F'; }
    mc::check(conv::serialize(v) == want, "logical array serialized to ", conv::serialize(v));
    mc::check(conv::deserialize_to<std::vector<bool>>(want, len) == v, "logical array differs for ", want);
    mc::state(want);
}
SCENARIO("logical arrays of every byte")
{
    // only T stands for true, whatever else the field holds
    int a = mc::pick(256), at = mc::pick(3);
    for (int b = 0; b < 256; ++b)
    {
        std::string raw = {char(at == 0 ? a : 'T'), char(at == 0 ? b : at == 1 ? a : 'F'), char(at == 0 ? 'T' : b)};
        std::vector<bool> got = conv::deserialize_to<std::vector<bool>>(raw, 3);
        mc::check(got.size() == 3, "three logicals became ", got.size());
        for (int k = 0; k < 3; ++k) mc::check(got[std::size_t(k)] == (raw[std::size_t(k)] == 'T'), "logical ", k, " of ", mc::show(raw), " is ", bool(got[std::size_t(k)]));
        mc::steps(1);
    }
    mc::state(mc::str(a, ' ', at));
}
SCENARIO("long arrays")
{
    mc::split(1);
    static std::vector<int> const more = {511, 512, 513, 999, 1000, 1023, 1024, 1025, 2048, 2880, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 100000};
    int len = mc::pick(300 + int(more.size()));
    if (len >= 300) len = more[std::size_t(len - 300)];
    std::vector<boost::int16_t> v; std::string want; std::vector<double> d; std::string dw; std::vector<std::complex<float>> z; std::string zw;
    for (int k = 0; k < len; ++k)
    {
        v.push_back(boost::int16_t(k * 257 - 3000)); want += gen::be(v.back());
        d.push_back(k * 1.25 - 7); dw += gen::be(d.back());
        z.emplace_back(float(k), -float(k) / 3); zw += gen::be(z.back().real()) + gen::be(z.back().imag());
    }
    array(v, want, "int16"); array(d, dw, "double"); array(z, zw, "complex<float>");
    std::vector<boost::int32_t> i; std::string iw; std::vector<float> f; std::string fw; std::vector<std::uint8_t> u; std::vector<char> c; std::string uw; std::vector<bool> l; std::string lw;
    std::vector<std::complex<double>> y; std::string yw; std::vector<std::pair<boost::int32_t, boost::int32_t>> p; std::string pw;
    for (int k = 0; k < len; ++k)
    {
        i.push_back(boost::int32_t(std::uint32_t(k) * 2654435761u)); iw += gen::be(i.back());
        f.push_back(float(k) / 7 - 1000); fw += gen::be(f.back());
        u.push_back(std::uint8_t(k * 37 + k / 256)); c.push_back(char(u.back())); uw += char(u.back());
        l.push_back(k % 3 == 0); lw += l.back() ? 'T' : 'F';
        y.emplace_back(k * 0.1, -k * 0.3); yw += gen::be(y.back().real()) + gen::be(y.back().imag());
        p.emplace_back(k, -k * 3); pw += gen::be(p.back().first) + gen::be(p.back().second);
    }
    array(i, iw, "int32"); array(f, fw, "float"); array(u, uw, "byte"); array(c, uw, "char"); array(y, yw, "complex<double>");
    mc::check(conv::serialize(l) == lw && conv::deserialize_to<std::vector<bool>>(lw, len) == l, "logical array of ", len, " elements differs");
    mc::check(conv::serialize(p) == pw && (conv::deserialize_to<std::vector<std::pair<boost::int32_t, boost::int32_t>>>(pw, len) == p), "descriptor array of ", len, " elements differs");
}
template <typename T> static void too_short(std::size_t size, char const* what)
{
    for (std::size_t n = 0; n < size; ++n)
    {
        std::string raw(n, 'x');
        std::string th = mc::thrown([&] { conv::deserialize_to<T>(raw, 1); });
        mc::check(!th.empty(), what, " was read from ", n, " bytes");
    }
}
template <typename T> static void too_short_array(int count, std::size_t size, char const* what)
{
    for (std::size_t n = 0; n < std::size_t(count) * size; ++n)
    {
        std::string raw(n, 'x');
        std::string th = mc::thrown([&] { conv::deserialize_to<std::vector<T>>(raw, count); });
        mc::check(!th.empty(), count, " elements of ", what, " were read from ", n, " bytes");
    }
}
SCENARIO("bytes that are too short are reported")
{
    mc::split(1);
    int count = mc::pick(mc::thorough() ? 70 : 20);
    mc::state(std::uint64_t(count));
    typedef std::pair<boost::int32_t, boost::int32_t> desc;
    if (count == 0)
    {
        too_short<boost::int16_t>(2, "a 16 bit integer"); too_short<boost::int32_t>(4, "a 32 bit integer"); too_short<float>(4, "a float"); too_short<double>(8, "a double");
        too_short<std::complex<float>>(8, "a complex<float>"); too_short<std::complex<double>>(16, "a complex<double>"); too_short<desc>(8, "a descriptor"); too_short<std::uint8_t>(1, "a byte"); too_short<char>(1, "a character"); too_short<bool>(1, "a logical");
        return;
    }
    too_short_array<boost::int16_t>(count, 2, "16 bit integer"); too_short_array<boost::int32_t>(count, 4, "32 bit integer"); too_short_array<float>(count, 4, "float"); too_short_array<double>(count, 8, "double");
    too_short_array<std::complex<float>>(count, 8, "complex<float>"); too_short_array<std::complex<double>>(count, 16, "complex<double>"); too_short_array<desc>(count, 8, "descriptor"); too_short_array<std::uint8_t>(count, 1, "byte"); too_short_array<char>(count, 1, "character"); too_short_array<bool>(count, 1, "logical");
}

// of more bytes than the elements need the first ones are taken
template <typename T> static void more_bytes(int count, std::size_t size, char const* what)
{
    std::string raw; for (std::size_t k = 0; k < std::size_t(count) * size; ++k) raw += "TF\1\x7e"[(k * 7 + k / 3) % 4];
    auto want = conv::deserialize_to<std::vector<T>>(raw, count);
    mc::check(want.size() == std::size_t(count), count, " elements of ", what, " are read as ", want.size());
    for (std::size_t more = 1; more <= 2 * size + 1; ++more)
    {
        auto got = conv::deserialize_to<std::vector<T>>(raw + std::string(more, 'T'), count);
        mc::check(got == want, count, " elements of ", what, " differ when ", more, " bytes follow them (", got.size(), " elements)"); mc::steps(1);
    }
}
SCENARIO("bytes behind the elements asked for do not matter")
{
    mc::split(1);
    int count = mc::pick(mc::thorough() ? 70 : 20); mc::state(std::uint64_t(count));
    typedef std::pair<boost::int32_t, boost::int32_t> desc;
    more_bytes<boost::int16_t>(count, 2, "16 bit integer"); more_bytes<boost::int32_t>(count, 4, "32 bit integer"); more_bytes<float>(count, 4, "float"); more_bytes<double>(count, 8, "double"); more_bytes<std::complex<float>>(count, 8, "complex<float>");
    more_bytes<std::complex<double>>(count, 16, "complex<double>"); more_bytes<desc>(count, 8, "descriptor"); more_bytes<std::uint8_t>(count, 1, "byte"); more_bytes<char>(count, 1, "character"); more_bytes<bool>(count, 1, "logical");
}
