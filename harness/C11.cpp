// C11: images give the stored pixels, their statistics, and write the same bytes.
#include "files.hpp"
using namespace files;

template <bitpix B> struct pix;
template <> struct pix<bitpix::B8> { typedef std::uint8_t t; static const int bp = 8; };
template <> struct pix<bitpix::B16> { typedef boost::int16_t t; static const int bp = 16; };
template <> struct pix<bitpix::B32> { typedef boost::int32_t t; static const int bp = 32; };
template <> struct pix<bitpix::_B32> { typedef float t; static const int bp = -32; };
template <> struct pix<bitpix::_B64> { typedef double t; static const int bp = -64; };

template <typename T> static std::vector<T> values()
{
    T lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
    if (std::is_floating_point<T>::value) return {T(0), T(-1.5), T(1e30), T(-1e30), T(3.25), T(0.1)};
    return {T(0), T(1), T(7), hi, lo, T(hi / 2 + 1)};
}
template <typename T> static bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }

template <bitpix B, typename Img> static void stats(Img im, std::vector<typename pix<B>::t> const& v, std::size_t width)
{
    typedef typename pix<B>::t T;
    mc::check(im.size() == v.size(), "the image has ", im.size(), " pixels instead of ", v.size());
    if (v.empty()) { mc::check(im.mean() == 0 && im.std_dev() == 0, "mean or standard deviation of an image without pixels is not zero"); return; }
    for (std::size_t k = 0; k < v.size(); ++k)
    {
        T g = im(k / width, k % width);
        mc::check(same<T>(g, v[k]), "pixel ", k % width, " of line ", k / width, " is ", double(g), " instead of ", double(v[k]));
    }
    bool nan = false; for (auto x : v) if (x != x) nan = true;
    if (nan) return;
    std::vector<T> s = v; std::sort(s.begin(), s.end());
    mc::check(im.min() == s.front(), "min is ", double(im.min()), " instead of ", double(s.front()));
    mc::check(im.max() == s.back(), "max is ", double(im.max()), " instead of ", double(s.back()));
    mc::check(im.median() == s[s.size() / 2], "median is ", double(im.median()), " instead of ", double(s[s.size() / 2]));
    long double sum = 0, mag = 0; for (auto x : v) { sum += x; mag += std::fabs((long double)x); }
    long double mean = sum / v.size();
    if (!std::isfinite(double(mean)) || double(mag) > 1e150) return; // beyond the range of double
    double tol = double(mag) * 1e-12 + 1e-140; // squares of smaller numbers underflow
    mc::check(std::fabs(double(im.mean() - mean)) <= tol, "mean is ", im.mean(), " instead of ", double(mean));
    if (v.size() >= 2)
    {
        long double q = 0; for (auto x : v) q += ((long double)x - mean) * ((long double)x - mean);
        double sd = double(std::sqrt(q / (v.size() - 1)));
        mc::check(mc::close(im.std_dev(), sd, 1e-9, tol), "standard deviation is ", im.std_dev(), " instead of ", sd);
    }
}
template <bitpix B> static void one(std::vector<long long> const& ax, std::string const& data, bool ext)
{
    typedef typename pix<B>::t T;
    std::vector<T> v; for (std::size_t k = 0; k + sizeof(T) <= data.size(); k += sizeof(T)) v.push_back(gen::from_be<T>(data, k));
    std::size_t width = ax.empty() ? 1 : std::size_t(ax[0]);
    gen::header g = ext ? gen::extension("IMAGE", pix<B>::bp, ax) : gen::primary(pix<B>::bp, ax);
    header_t h = make_header(g.bytes());
    std::string o;
    if (ext)
    {
        image_extension x(h, data); stats<B>(x.get_data<B>(), v, width);
        image_extension y(x); o = written(y); stats<B>(y.get_data<B>(), v, width);
        mc::check(written(x) == o, "a copy of the image was written differently");
    }
    else
    {
        primary_hdu x(h, data); stats<B>(x.get_data<B>(), v, width);
        primary_hdu y(x); o = written(y); stats<B>(y.get_data<B>(), v, width);
        mc::check(written(x) == o, "a copy of the image was written differently");
        primary_hdu z; z = x; mc::check(written(z) == o, "an assigned image was written differently");
    }
    mc::check(o == g.bytes() + gen::record_pad(data, '\0'), "the image was written with other bytes than it was read from");
    mc::state(mc::hash_str(o));
}
static void dispatch(int b, std::vector<long long> const& ax, std::string const& d, bool ext)
{
    switch (b)
    {
    case 0: one<bitpix::B8>(ax, d, ext); break;
    case 1: one<bitpix::B16>(ax, d, ext); break;
    case 2: one<bitpix::B32>(ax, d, ext); break;
    case 3: one<bitpix::_B32>(ax, d, ext); break;
    default: one<bitpix::_B64>(ax, d, ext);
    }
}
static std::size_t const sizes[] = {1, 2, 4, 4, 8};
template <typename T> static std::string encode(std::vector<int> const& c) { auto const vs = values<T>(); std::string d; for (int k : c) d += gen::be<T>(vs[std::size_t(k)]); return d; }

SCENARIO("every image of up to five pixels over six values")
{
    int b = mc::pick(5); bool ext = mc::flip();
    static std::vector<std::vector<long long>> const shapes = {{1}, {2}, {3}, {4}, {2, 2}, {1, 3}, {3, 1}, {1, 1, 2}, {5}};
    int lim = mc::thorough() ? 9 : 8;
    auto const& ax = shapes[std::size_t(mc::pick(lim))];
    long long n = 1; for (auto a : ax) n *= a;
    std::vector<int> c; for (long long k = 0; k < n; ++k) c.push_back(mc::pick(mc::thorough() ? 6 : 5));
    std::string d;
    switch (b) { case 0: d = encode<std::uint8_t>(c); break; case 1: d = encode<boost::int16_t>(c); break; case 2: d = encode<boost::int32_t>(c); break; case 3: d = encode<float>(c); break; default: d = encode<double>(c); }
    dispatch(b, ax, d, ext);
}
SCENARIO("every shape")
{
    int b = mc::pick(5); bool ext = mc::flip(); int dims = mc::pick(4);
    std::vector<long long> ax; for (int k = 0; k < dims; ++k) ax.push_back(mc::pick(k == 0 ? 12 : 6));
    std::size_t n = ax.empty() ? 0 : 1; for (auto a : ax) n *= std::size_t(a);
    dispatch(b, ax, fill(n * sizes[b], mc::pick(4) * 2 % 5, 16), ext);
}
SCENARIO("every pixel bit pattern of 8 and 16 bits")
{
    mc::split(1);
    int part = mc::pick(64);
    std::string d; for (int k = 0; k < 1024; ++k) d += gen::be<boost::int16_t>(boost::int16_t(part * 1024 + k));
    dispatch(1, {32, 32}, d, mc::flip());
    if (part == 0) { std::string e; for (int k = 0; k < 256; ++k) e += char(k); dispatch(0, {16, 16}, e, false); dispatch(0, {256}, e, true); }
    mc::steps(1024);
}
SCENARIO("every exponent and sign of real pixels")
{
    int b = 3 + mc::pick(2); bool ext = mc::flip(); int mant = mc::pick(4);
    std::string d;
    if (b == 3) for (unsigned e = 0; e < 512; ++e) { std::uint32_t x = (e << 23) | (mant == 0 ? 0 : mant == 1 ? 1 : mant == 2 ? 0x7fffff : 0x400001); d += gen::be(x); }
    else for (std::uint64_t e = 0; e < 4096; ++e) { std::uint64_t x = (e << 52) | (mant == 0 ? 0 : mant == 1 ? 1 : mant == 2 ? 0xfffffffffffffull : 0x8000000000001ull); d += gen::be(x); }
    long long n = (long long)(d.size() / sizes[b]);
    dispatch(b, {n / 8, 8}, d, ext);
    mc::steps(std::uint64_t(n));
}
SCENARIO("image sizes around the record length")
{
    int b = mc::pick(5); bool ext = mc::flip();
    long long n = 2880 / (long long)sizes[b] * (1 + mc::pick(2)) + mc::pick(5) - 2;
    dispatch(b, {n}, fill(std::size_t(n) * sizes[b], 0), ext);
    dispatch(b, {1, n}, fill(std::size_t(n) * sizes[b], 3), ext);
}
SCENARIO("images without data")
{
    int b = mc::pick(5); bool ext = mc::flip(); int shape = mc::pick(3);
    std::vector<long long> ax = shape == 0 ? std::vector<long long>{} : shape == 1 ? std::vector<long long>{0} : std::vector<long long>{0, 4};
    dispatch(b, ax, "", ext);
}
SCENARIO("large images")
{
    static std::vector<std::vector<long long>> const shapes = {{32767}, {32768}, {65535}, {65536}, {65537}, {100000}, {1, 70000}, {70000, 1}, {256, 256}, {257, 255}, {300, 300}, {1000, 100}, {100, 1000}, {3, 5, 4400}, {41, 41, 41}, {17, 17, 17, 17}, {2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2}};
    int b = mc::pick(5); bool ext = mc::flip(); auto const& ax = mc::pick_from(shapes);
    std::size_t n = 1; for (auto a : ax) n *= std::size_t(a);
    std::string d;
    if (b < 3) d = fill(n * sizes[b], 0, 1000);
    else for (std::size_t k = 0; k < n; ++k) { double x = double((k * 7919) % n) * 0.25 - 1000; d += b == 3 ? gen::be(float(x)) : gen::be(x); }
    dispatch(b, ax, d, ext);
}
SCENARIO("an image buffer of a given width and height")
{
    std::size_t w = std::size_t(mc::pick(9)), h = std::size_t(mc::pick(9));
    image_buffer<boost::int16_t> b(w, h); image_buffer<double> d(w, h);
    mc::state(mc::str(w, ",", h));
    mc::check(b.size() == w * h && d.size() == w * h, "an image of ", w, " x ", h, " pixels has ", b.size(), " and ", d.size(), " pixels");
    for (std::size_t x = 0; x < h; ++x) for (std::size_t y = 0; y < w; ++y) mc::check(b(x, y) == 0 && d(x, y) == 0, "a new pixel is not zero");
    if (w * h) mc::check(b.max() == 0 && b.min() == 0 && b.mean() == 0 && d.median() == 0, "statistics of a new image are not zero");
}

SCENARIO("images of millions of pixels, read from a file")
{
    mc::split(1);
    static std::vector<std::vector<long long>> const shapes = {{1024, 1024}, {1025, 1024}, {2048, 2048}, {2049, 2050}, {3000, 3000}, {1 << 24}, {1, 5000000}};
    auto const& ax = mc::pick_from(shapes); int b = mc::pick(2); if (b && ax[0] >= 3000) throw mc::prune();
    std::size_t n = 1; for (auto a : ax) n *= std::size_t(a);
    std::string d(n * (b ? 2 : 1), '\0'); { unsigned x = 777; for (auto& c : d) { x = x * 1664525u + 1013904223u; c = char(x >> 24); } }
    gen::header g = gen::primary(b ? 16 : 8, ax);
    gen::write_file("large.fits", g.bytes() + gen::record_pad(d, '\0'));
    auto r = fits::open("large.fits"); std::remove("large.fits");
    auto& h = fits::convert_to<primary_hdu>(r[0]);
    std::string o = written(h);
    mc::check(o == g.bytes() + gen::record_pad(d, '\0'), "an image of ", n, " pixels was written with other bytes than it was read from");
    std::size_t w = std::size_t(ax[0]);
    if (b) { auto im = h.get_data<bitpix::B16>(); mc::check(im.size() == n, "the image has ", im.size(), " pixels"); for (std::size_t k = 0; k < n; ++k) if (im(k / w, k % w) != gen::from_be<boost::int16_t>(d, 2 * k)) mc::fail(mc::str("pixel ", k, " differs")); }
    else { auto im = h.get_data<bitpix::B8>(); mc::check(im.size() == n, "the image has ", im.size(), " pixels"); for (std::size_t k = 0; k < n; ++k) if (im(k / w, k % w) != std::uint8_t(d[k])) mc::fail(mc::str("pixel ", k, " differs")); }
    mc::state(mc::str(n, ' ', b));
}
