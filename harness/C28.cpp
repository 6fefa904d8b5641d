// C28: a read of the device that fails is reported, and how the device cuts up the bytes does not matter.
#include "badread.hpp"
#include "files.hpp"
using namespace files;

typedef fits_io<fits_stream, default_hdu_manager<card_policy, ascii_converter, binary_data_converter>> reader;
struct file { std::vector<part> ps; std::string bytes; std::vector<std::size_t> at, data; };
static std::vector<file> const& defs()
{
    static std::vector<file> const all = [] {
        std::vector<std::vector<part>> v = {
            {img(true, 16, {3, 2}, 0), bin({{"1J", "A"}, {"4A", "B"}}, 8, 3, 5), ascii({{"A8", "NAME", 1}}, 8, 3)},
            {img(true, 8, {}), ascii({{"A8", "NAME", 1}}, 8, 360), bin({{"8A", "NAME"}}, 8, 359, 9)},
            {img(true, -32, {720})},
            {img(true, 8, {2880}, 1), img(false, 16, {5, 5}), other("FOREIGN", 2881), bin({{"16A", "B"}}, 16, 3, 0)},
            // headers and data larger than the buffer of the stream
            {img(true, 8, {8640}, 1), bin({{"1000B", "A"}}, 1000, 9, 0)}, {img(true, 8, {}), ascii({{"A10", "A", 1}}, 10, 900)}};
        for (int k = 0; k < 120; ++k) v[5][0].h.i("K" + std::to_string(k), k);
        std::vector<file> f;
        for (auto const& ps : v)
        {
            file x; x.ps = ps;
            for (auto const& p : ps) { x.at.push_back(x.bytes.size()); x.data.push_back(x.bytes.size() + p.h.bytes().size()); x.bytes += p.bytes(); }
            f.push_back(x);
        }
        return f; }();
    return all;
}
struct device
{
    device(badread::kind k, std::size_t from, std::size_t to, std::size_t size, int err = EIO)
    { auto& p = badread::plan(); p = badread::plan_t(); p.what = k; p.from = (long long)from; p.to = (long long)to; p.size = (long long)size; p.n = from; p.err = err; }
    ~device() { badread::plan().what = badread::none; }
};
// the HDUs a reader shows, with all their cards and their data as written again
static std::string shown(reader& r, bool headers)
{
    std::string s; auto cb = r.get_control_block_info(); std::size_t n = r.get_hdu_list().size();
    s += mc::str(n, " HDUs, ", cb.total_hdus(), '\n');
    for (auto const& i : cb.hdus_info) s += mc::str(i.first, ' ', i.second.hdu_index, ' ', i.second.header_location, ' ', i.second.data_location, '\n');
    for (std::size_t k = 0; k < n; ++k) s += mc::str(k, ' ', r[int(k)].which(), '\n');
    if (!headers) { r.write_to("again.fits"); s += gen::read_file("again.fits"); }
    return s;
}
static std::vector<std::size_t> places(file const& f, int block, int blocks)
{
    std::size_t lo = f.bytes.size() * std::size_t(block) / std::size_t(blocks), hi = f.bytes.size() * std::size_t(block + 1) / std::size_t(blocks);
    std::set<std::size_t> s;
    for (std::size_t n = lo; n < hi; n += mc::thorough() ? 1 : 37) s.insert(n);
    auto near = [&](std::size_t n) { for (std::size_t m = n ? n - 1 : 0; m <= n + 1; ++m) if (m >= lo && m < hi) s.insert(m); };
    for (std::size_t n = 0; n <= f.bytes.size(); n += 2880) near(n);
    for (std::size_t k = 0; k < f.ps.size(); ++k) { near(f.at[k] + (f.ps[k].h.cards.size() + 1) * 80); near(f.data[k] + f.ps[k].data.size()); }
    for (std::size_t n = 8191; n < f.bytes.size(); n += 8191) near(n);
    return std::vector<std::size_t>(s.begin(), s.end());
}

SCENARIO("every byte of a file that cannot be read")
{
    int which = mc::pick(int(defs().size())); file const& f = defs()[std::size_t(which)];
    int block = mc::pick(16), how = mc::pick(5), mode = mc::pick(2);
    gen::write_file("in.fits", f.bytes);
    auto option = mode ? reading_options::read_only_headers : reading_options::read_entire_hdus;
    std::string full; { auto r = fits::open("in.fits", option); full = shown(r, mode); }
    for (std::size_t b : places(f, block, 16))
    {
        std::size_t to = how == 0 || how == 4 ? b + 1 : how == 1 ? f.bytes.size() : b + 512;
        std::string got, th; long hits;
        reader r;
        {
            device d(how == 3 ? badread::error_once : badread::error, b, to, f.bytes.size(), how == 4 ? EAGAIN : EIO);
            th = mc::thrown([&] { r.initialize("in.fits"); if (mode) r.read_only_headers(); else r.read_entire_hdus(); });
            hits = badread::plan().hits;
        }
        mc::check(th != "unknown", "an exception that is no std::exception");
        if (th.empty())
        {
            got = shown(r, mode);
            mc::check(got == full, "byte ", b, " of ", f.bytes.size(), " could not be read (", hits, " failed attempts) but no error was reported and the HDUs differ from those of the file");
        }
        else mc::check(hits > 0, "all reads succeeded but ", th, " was thrown");
        // the same reader reads the file once the device works again
        th = mc::thrown([&] { r.initialize("in.fits"); if (mode) r.read_only_headers(); else r.read_entire_hdus(); });
        mc::check(th.empty(), "after a failed read at byte ", b, " the file can not be read any more: ", th);
        got = shown(r, mode);
        mc::check(got == full, "after a failed read at byte ", b, " the HDUs differ from those of the file");
        mc::steps(1);
    }
    mc::state(mc::str(which, ' ', block, ' ', how, ' ', mode));
}
SCENARIO("the file gets shorter while it is read")
{
    int which = mc::pick(int(defs().size())); file const& f = defs()[std::size_t(which)];
    int block = mc::pick(32);
    gen::write_file("in.fits", f.bytes);
    for (std::size_t b : places(f, block, 32))
    {
        reader r; std::string th;
        {
            device d(badread::shorter, b, f.bytes.size(), f.bytes.size());
            th = mc::thrown([&] { r.initialize("in.fits"); r.read_entire_hdus(); });
        }
        mc::check(th != "unknown", "an exception that is no std::exception");
        if (th.empty())
        {
            // only HDUs that are there completely, and no part of another one left out
            std::size_t n = r.get_hdu_list().size();
            mc::check(n <= f.ps.size(), "more HDUs than the file has");
            std::size_t whole = 0, touched = 0;
            for (std::size_t k = 0; k < f.ps.size(); ++k)
            {
                if (b >= (f.ps[k].data.empty() ? f.at[k] + (f.ps[k].h.cards.size() + 1) * 80 : f.data[k] + f.ps[k].data.size())) whole = k + 1;
                if (b > f.at[k]) touched = k + 1;
            }
            mc::check(n <= whole, n, " HDUs were read although only ", whole, " were there when byte ", b, " was reached");
            mc::check(n >= touched, "the file ended at byte ", b, " within HDU ", touched - 1, " but no error was reported");
        }
        th = mc::thrown([&] { r.initialize("in.fits"); r.read_entire_hdus(); });
        mc::check(th.empty() && r.get_hdu_list().size() == f.ps.size(), "after a failed read at byte ", b, " the file can not be read any more: ", th);
        mc::steps(1);
    }
    mc::state(mc::str(which, ' ', block));
}
SCENARIO("reads that give few bytes or are interrupted make no difference")
{
    int which = mc::pick(int(defs().size())); file const& f = defs()[std::size_t(which)];
    int how = mc::pick(12), mode = mc::pick(2);
    static std::size_t const chunks[] = {1, 2, 7, 79, 80, 81, 512, 2879, 2880, 2881, 8190};
    gen::write_file("in.fits", f.bytes);
    auto option = mode ? reading_options::read_only_headers : reading_options::read_entire_hdus;
    std::string full, got; { auto r = fits::open("in.fits", option); full = shown(r, mode); }
    std::string th;
    {
        device d(how < 11 ? badread::chunk : badread::interrupted, how < 11 ? chunks[how] : 0, 0, f.bytes.size());
        th = mc::thrown([&] { auto r = fits::open("in.fits", option); badread::plan().what = badread::none; got = shown(r, mode); });
    }
    mc::check(th.empty(), "a device that gives ", how < 11 ? mc::str(chunks[how], " bytes at a time") : "interrupted reads", " made reading fail: ", th);
    mc::check(got == full, "a device that gives ", how < 11 ? mc::str(chunks[how], " bytes at a time") : "interrupted reads", " made a difference");
    mc::state(mc::str(which, ' ', how, ' ', mode));
}
// a stream over a device with a bad spot: every read gives the bytes of the file or an error
SCENARIO("every short history of a stream over a bad spot")
{
    std::string f; for (int k = 0; k < 17280; ++k) f += char('A' + k % 23 + k / 2880);
    static std::size_t const spots[] = {0, 1, 80, 2879, 2880, 2881, 8190, 8191, 8192, 14400, 17279}, lens[] = {1, 80, 100000};
    std::size_t b = spots[mc::pick(11)], len = lens[mc::pick(3)]; int how = mc::pick(3);
    std::size_t to = std::min(b + len, f.size());
    gen::write_file("s.bin", f);
    fits_stream s; s.set_file("s.bin");
    std::string trace;
    {
        device d(how == 0 ? badread::error : how == 1 ? badread::error_once : badread::shorter, b, to, f.size());
        std::size_t pos = 0; int depth = mc::thorough() ? 4 : 3;
        for (int step = 0; step < depth; ++step)
        {
            long before = badread::plan().hits;
            int op = mc::pick(8);
            static std::size_t const n[] = {1, 80, 2880, 9000};
            if (op < 4)
            {
                std::string got; std::string th = mc::thrown([&] { got = s.read(n[op]); });
                mc::check(th != "unknown", "an exception that is no std::exception");
                if (!th.empty())
                {
                    mc::check(badread::plan().hits > 0 || pos + n[op] > f.size(), "all reads succeeded but reading ", n[op], " bytes at ", pos, " threw ", th);
                    trace += "!"; break;
                }
                mc::check(pos + n[op] <= f.size() && got == f.substr(pos, n[op]), "reading ", n[op], " bytes at ", pos, " over bad bytes ", b, "-", to - 1, " gave other bytes than those of the file and no error");
                pos += n[op];
            }
            else if (op == 4)
            {
                unsigned char c = 0; std::string th = mc::thrown([&] { c = s.get(); });
                mc::check(th != "unknown", "an exception that is no std::exception");
                if (!th.empty()) { mc::check(badread::plan().hits > 0, "all reads succeeded but get() at ", pos, " threw ", th); trace += "!"; break; }
                if (pos < f.size() && c == (unsigned char)f[pos]) { ++pos; trace += "g"; continue; }
                // at the end of the file get() gives 0
                mc::check(pos >= f.size() || how == 2, "get() at ", pos, " over bad bytes ", b, "-", to - 1, " gave ", int(c), " and no error");
                mc::check(c == 0, "get() behind the end gave ", int(c));
                break;
            }
            else if (op == 5)
            {
                bool end = false; std::string th = mc::thrown([&] { end = s.at_end(); });
                mc::check(th != "unknown", "an exception that is no std::exception");
                if (!th.empty()) { mc::check(badread::plan().hits > 0, "all reads succeeded but at_end() at ", pos, " threw ", th); trace += "!"; break; }
                if (pos >= f.size()) mc::check(end || badread::plan().hits > 0, "the end was not reported");
                else mc::check(!end || how == 2, "the end is reported at byte ", pos, " of ", f.size(), ", which could not be read");
                if (badread::plan().hits > before) { trace += "e"; }
            }
            else
            {
                std::size_t p = op == 6 ? b : (pos + 2879) / 2880 * 2880;
                std::string th = mc::thrown([&] { if (op == 6) s.set_reading_pos(p); else s.set_unit_end(); });
                if (!th.empty()) { mc::check(badread::plan().hits > 0, "all reads succeeded but seeking threw ", th); break; }
                if (badread::plan().hits) { trace += "?"; pos = p; continue; }   // a failed stream may stay failed
                pos = p;
            }
            trace += char('0' + op);
        }
    }
    mc::state(mc::str(b, ' ', len, ' ', how, ' ', trace));
    // opening again makes the stream usable
    s.set_file("s.bin");
    mc::check(s.read(9000) == f.substr(0, 9000), "after opening again the stream does not give the bytes of the file");
}
