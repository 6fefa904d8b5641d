// C15: a write that does not get everything to the file is reported.
#include "badwrite.hpp"
#include "files.hpp"
using namespace files;

static std::vector<std::vector<part>> const& defs()
{
    static std::vector<std::vector<part>> const all = [] {
    std::vector<std::vector<part>> v = {
        {img(true, 16, {3, 2}, 0), bin({{"1J", "A"}, {"4A", "B"}}, 8, 3, 5)},
        {img(true, 8, {}), ascii({{"A8", "NAME", 1}}, 8, 3)},
        {img(true, -64, {2000}, 0)},
        {img(true, 8, {2880}, 1), ascii({{"A8", "NAME", 1}}, 8, 360), bin({{"16A", "B"}}, 16, 180, 0)},
        // headers, rows and images larger than the buffer of the stream
        {img(true, 8, {})}, {img(true, 8, {}), bin({{"12000B", "A"}}, 12000, 2, 0)}, {img(true, 8, {28800}, 1)},
        {img(true, 8, {}), bin({{"1B", "A"}}, 1, 2880, 17280)}};
    for (int k = 0; k < 176; ++k) v[4][0].h.i("K" + std::to_string(k), k);
    for (int k = 0; k < 138; ++k) v[5][1].h.i("K" + std::to_string(k), k);
    return v; }();
    return all;
}
struct limit
{
    rlimit old;
    limit(std::size_t n) { getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = n; if (setrlimit(RLIMIT_FSIZE, &l)) mc::fail("cannot set the limit"); }
    ~limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
static std::string bytes_of(std::vector<part> const& ps) { std::string f; for (auto const& p : ps) f += p.bytes(); return f; }

SCENARIO("the device is full after every number of bytes")
{
    std::signal(SIGXFSZ, SIG_IGN);
    int which = mc::pick(int(defs().size())); auto const& ps = defs()[std::size_t(which)];
    std::string f = bytes_of(ps);
    int block = mc::pick(32);
    std::size_t step = mc::thorough() ? 1 : f.size() > 20000 ? 97 : 13;
    std::size_t lo = f.size() * std::size_t(block) / 32, hi = f.size() * std::size_t(block + 1) / 32;
    gen::write_file("in.fits", f);
    auto r = fits::open("in.fits");
    r.write_to("ref.fits");
    std::string const ref = gen::read_file("ref.fits");
    auto attempt = [&](std::size_t n) {
        std::string th;
        { limit l(n); th = mc::thrown([&] { r.write_to("out.fits"); }); }
        mc::check(th != "unknown", "an exception that is no std::exception");
        mc::check(!th.empty(), "only ", n, " of ", f.size(), " bytes could be written but no error was reported");
        mc::steps(1);
    };
    for (std::size_t n = lo; n < hi; n += step) attempt(n);
    for (std::size_t n = (lo + 2879) / 2880 * 2880; n < hi; n += 2880) { attempt(n); if (n + 1 < f.size()) attempt(n + 1); if (n) attempt(n - 1); }
    if (hi == f.size()) { attempt(f.size() - 1); }
    // afterwards the same reader writes the complete file
    { limit l(f.size()); r.write_to("out.fits"); }
    mc::check(gen::read_file("out.fits") == ref, "the file written after failures differs");
    mc::state(mc::str(which, ' ', block));
}
SCENARIO("targets that cannot be written")
{
    int which = mc::pick(int(defs().size())); int target = mc::pick(5);
    gen::write_file("in.fits", bytes_of(defs()[std::size_t(which)]));
    auto r = fits::open("in.fits");
    mkdir("adir", 0700);
    std::string path = target == 0 ? "nowhere/out.fits" : target == 1 ? "adir" : target == 2 ? "" : target == 3 ? "in.fits/out.fits" : "/dev/full";
    std::string th = mc::thrown([&] { r.write_to(path); });
    mc::check(!th.empty(), "writing to '", path, "' reported no error");
    mc::check(th != "unknown", "an exception that is no std::exception");
    r.write_to("out.fits");
    std::vector<gen::parsed_hdu> w; std::string why;
    if (!gen::parse_file(gen::read_file("out.fits"), w, why)) mc::fail("after a failed write the file is no FITS file: " + why);
    mc::check(w.size() == defs()[std::size_t(which)].size(), "after a failed write the file has ", w.size(), " HDUs");
    for (std::size_t k = 0; k < w.size(); ++k) same_hdu(defs()[std::size_t(which)][k], w[k], k);
    mc::state(mc::str(which, target));
}
SCENARIO("histories of failing and succeeding writes")
{
    std::signal(SIGXFSZ, SIG_IGN);
    auto const& ps = defs()[std::size_t(mc::pick(2))]; std::string f = bytes_of(ps);
    gen::write_file("in.fits", f);
    auto r = fits::open("in.fits"); std::string ref, trace; r.write_to("ref.fits"); ref = gen::read_file("ref.fits");
    std::remove("out.fits");
    int depth = mc::thorough() ? 4 : 3;
    for (int s = 0; s < depth; ++s)
    {
        static std::size_t const cuts[] = {0, 1, 2879, 2880, 5000, 5759, 5760, 8639};
        int op = mc::pick(10); trace += char('a' + op);
        if (op < 8)
        {
            std::size_t n = std::min(cuts[op], f.size() - 1); std::string th;
            { limit l(n); th = mc::thrown([&] { r.write_to("out.fits"); }); }
            mc::check(!th.empty(), "only ", n, " bytes could be written but no error was reported");
        }
        else if (op == 8) { r.write_to("out.fits"); mc::check(gen::read_file("out.fits") == ref, "the written file differs"); }
        else { mc::check(!mc::thrown([&] { r.write_to("nowhere/x"); }).empty(), "no error for a missing directory"); }
        mc::state(trace);
    }
}
SCENARIO("the stream reports what it could not do")
{
    std::signal(SIGXFSZ, SIG_IGN);
    fits_stream s; std::size_t n = std::size_t(mc::pick(40)) * 300; int chunk = 1 << (4 * mc::pick(5));
    mc::check(!s.create_file("nowhere/x"), "a file in a missing directory was created");
    mc::check(s.create_file("s.fits"), "a file could not be created");
    std::size_t done = 0; bool ok = true;
    {
        limit l(n);
        while (done < 14000) { bool w = s.write(std::string(std::size_t(chunk), 'x')); if (!w) ok = false; done += std::size_t(chunk); }
        if (!s.get_internal_stream().flush()) ok = false;
    }
    mc::check(!ok, "14000 bytes were written to a file of at most ", n);
    mc::state(mc::str(n, ' ', chunk));
}
SCENARIO("sources that cannot be read")
{
    mc::split(1);
    int k = mc::pick(4); mkdir("adir", 0700); gen::write_file("plain", "x");
    std::string path = k == 0 ? "adir" : k == 1 ? "nowhere/in.fits" : k == 2 ? "" : "plain/in.fits";
    for (int m = 0; m < 2; ++m)
    {
        std::string th = mc::thrown([&] { fits::open(path, m ? reading_options::read_only_headers : reading_options::read_entire_hdus); });
        mc::check(!th.empty() && th != "unknown", "reading '", path, "' reported no error");
    }
    mc::state(std::uint64_t(k));
}
// the device fails once and works again afterwards: what follows must not hide it
SCENARIO("every single write to the device fails once")
{
    mc::split(1);
    int which = mc::pick(int(defs().size())), err = mc::pick(2); auto const& ps = defs()[std::size_t(which)];
    gen::write_file("in.fits", bytes_of(ps));
    auto r = fits::open("in.fits");
    r.write_to("ref.fits"); std::string const ref = gen::read_file("ref.fits");
    auto& plan = badwrite::plan();
    plan = badwrite::plan_t(); plan.what = badwrite::count;
    r.write_to("out.fits");
    long calls = plan.calls; plan.what = badwrite::none;
    for (long k = 0; k < calls; ++k)
    {
        plan = badwrite::plan_t(); plan.what = badwrite::error_once; plan.at = k; plan.err = err ? ENOSPC : EIO;
        std::string th = mc::thrown([&] { r.write_to("out.fits"); });
        plan.what = badwrite::none;
        mc::check(th != "unknown", "an exception that is no std::exception");
        if (th.empty()) mc::check(gen::read_file("out.fits") == ref, "write ", k, " of ", calls, " to the device failed, the file is not complete but no error was reported");
        else mc::check(plan.hits > 0, "nothing failed but ", th, " was thrown");
        r.write_to("out.fits");
        mc::check(gen::read_file("out.fits") == ref, "the file written after a failure differs");
        mc::steps(1);
    }
    mc::state(mc::str(which, ' ', err));
}
SCENARIO("writes that take few bytes or are interrupted make no difference")
{
    int which = mc::pick(int(defs().size())), how = mc::pick(8); auto const& ps = defs()[std::size_t(which)];
    static std::size_t const chunks[] = {1, 79, 80, 512, 2879, 2880, 8191};
    gen::write_file("in.fits", bytes_of(ps));
    auto r = fits::open("in.fits");
    r.write_to("ref.fits"); std::string const ref = gen::read_file("ref.fits");
    auto& plan = badwrite::plan();
    plan = badwrite::plan_t(); plan.what = how < 7 ? badwrite::chunk : badwrite::interrupted; plan.n = how < 7 ? chunks[how] : 0;
    std::string th = mc::thrown([&] { r.write_to("out.fits"); });
    plan.what = badwrite::none;
    mc::check(th.empty(), "a device that takes ", how < 7 ? mc::str(chunks[how], " bytes at a time") : "interrupted writes", " made writing fail: ", th);
    mc::check(gen::read_file("out.fits") == ref, "a device that takes ", how < 7 ? mc::str(chunks[how], " bytes at a time") : "interrupted writes", " made a difference");
    mc::state(mc::str(which, ' ', how));
}
SCENARIO("the stream reports a single failed write")
{
    int failing = mc::pick(6), chunk = 1 << (3 * mc::pick(5)), more = mc::pick(3);
    fits_stream s; mc::check(s.create_file("s.fits"), "a file could not be created");
    auto& plan = badwrite::plan();
    plan = badwrite::plan_t(); plan.what = badwrite::error_once; plan.at = failing;
    bool ok = true; std::size_t done = 0;
    while (done < 60000)
    {
        bool w = s.write(std::string(std::size_t(chunk), 'x')); done += std::size_t(chunk);
        if (!w) ok = false;
        if (more == 1) { std::size_t p = s.get_current_pos(); (void)p; }
        if (more == 2 && s.is_open()) s.find_unit_end();
    }
    if (!s.get_internal_stream().flush()) ok = false;
    plan.what = badwrite::none;
    s.close();
    mc::check(!ok || gen::read_file("s.fits") == std::string(done, 'x'), "a write to the device failed but the stream reported only success");
    mc::state(mc::str(failing, ' ', chunk, ' ', more));
}
