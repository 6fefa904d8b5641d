// C06: a header answers for exactly the cards it was read from.
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
#include "files.hpp"
using namespace files;


static void read_into(header_t& h, std::string const& bytes)
{
    gen::write_file("h.fits", bytes);
    fits_stream s; s.set_file("h.fits");
    h.read_header(s);
    // the position is right behind the END card
    std::size_t end = bytes.find("END     ");
    while (end % 80) end = bytes.find("END     ", end + 1);
    mc::check(s.get_current_pos() == end + 80, "reading the header ended at ", s.get_current_pos(), " instead of ", end + 80);
}

static bitpix const enums[] = {bitpix::B8, bitpix::B16, bitpix::B32, bitpix::_B32, bitpix::_B64};
static int const pixs[] = {8, 16, 32, -32, -64};

// compares everything the header answers with the cards
static void agree(header_t& h, std::vector<std::string> const& cards, int pix, std::vector<long long> const& axes)
{
    mc::check(h.bitpix() == enums[pix], "bitpix() differs for BITPIX = ", pixs[pix]);
    std::vector<std::size_t> ax(axes.begin(), axes.end());
    mc::check(h.all_naxis() == ax, "all_naxis() differs");
    mc::check(h.total_dimensions() == axes.size(), "total_dimensions() is ", h.total_dimensions());
    std::size_t prod = axes.empty() ? 0 : 1;
    for (std::size_t k = 0; k < axes.size(); ++k)
    {
        mc::check(h.naxis(k + 1) == ax[k], "naxis(", k + 1, ") is ", h.naxis(k + 1), " instead of ", ax[k]);
        prod *= ax[k];
    }
    mc::check(h.data_size() == prod, "data_size() is ", h.data_size(), " instead of ", prod);
    std::string t = mc::thrown([&] { h.naxis(axes.size() + 1); });
    mc::check(!t.empty(), "naxis beyond the last axis returned a value");
    mc::check(h.card_count() == cards.size(), "card_count() is ", h.card_count(), " instead of ", cards.size());
    std::map<std::string, int> count;
    for (auto& c : cards) count[gen::parse_card(c).key]++;
    bool ext = false;
    for (auto& c : cards)
    {
        gen::parsed_card p = gen::parse_card(c);
        mc::check(h.contains_keyword(p.key), "contains_keyword(", p.key, ") is false");
        if (count[p.key] > 1) continue;
        std::string want = p.has_value ? gen::rtrim(p.value) : p.text;
        std::string got; std::string th = mc::thrown([&] { got = h.value_of<std::string>(p.key); });
        mc::check(th.empty() && got == want, "value_of<string>(", mc::show(p.key), ") is ", th.empty() ? mc::show(got) : th, " instead of ", mc::show(want));
        if (p.has_value && !p.is_string && p.value != "T" && p.value != "F" && p.value.find_first_of(".ED ") == std::string::npos)
        {
            long long v = std::atoll(p.value.c_str());
            mc::check(h.value_of<long long>(p.key) == v, "value_of<long long>(", p.key, ") is not ", v);
            mc::check(h.value_of<double>(p.key) == double(v), "value_of<double>(", p.key, ") is not ", v);
        }
        if (p.has_value && !p.is_string && p.value.find('.') != std::string::npos && p.value.find(' ') == std::string::npos)
        {
            std::string d = p.value; for (auto& ch : d) if (ch == 'D') ch = 'E';
            mc::check(h.value_of<double>(p.key) == std::strtod(d.c_str(), nullptr), "value_of<double>(", p.key, ") differs for ", p.value);
        }
        if (p.has_value && !p.is_string && (p.value == "T" || p.value == "F"))
            mc::check(h.value_of<bool>(p.key) == (p.value == "T"), "value_of<bool>(", p.key, ") differs");
        if (p.key == "XTENSION") ext = true;
    }
    for (std::string k : {"ABSENT", "NAXIS9", "", "BITPI", "naxis"})
    {
        if (count.count(k)) continue;
        mc::check(!h.contains_keyword(k), "contains_keyword(", mc::show(k), ") is true");
        std::string th = mc::thrown([&] { h.value_of<std::string>(k); });
        mc::check(th.find("out_of_range") != std::string::npos, "value_of(", mc::show(k), ") of an absent keyword ", th.empty() ? "returned a value" : "threw " + th);
    }
    if (ext) mc::check(h.get_hdu_name() == h.value_of<std::string>("XTENSION"), "name of the HDU is ", h.get_hdu_name());
    else mc::check(h.get_hdu_name() == "primary_hdu", "name of the primary HDU is ", h.get_hdu_name());
    // written out again: the same cards, END, blanks up to the record end
    std::string want; for (auto& c : cards) want += c;
    want += gen::rpad("END", 80); while (want.size() % 2880) want += ' ';
    fits_stream w; w.create_file("o.fits"); h.write_header(w); w.close();
    std::string got = gen::read_file("o.fits");
    mc::check(got == want, "written header differs from the one read (", got.size(), " and ", want.size(), " bytes)");
}
static std::vector<std::string> extra_cards()
{
    gen::header h;
    h.i("COUNT", -17, "a count").s("OBJECT", "it's M31/32", "the / object").b("FLAG", false).t("FLOAT", gen::lpad("1.5E-3", 20), "f").t("DBL", "  -2.5D2");
    h.text("COMMENT", " first = line / x").text("HISTORY", "done").text("", "blank keyword text").s("EMPTY", "").i("BIG", 9223372036854775807ll).text("COMMENT", " second");
    h.s("LONG", std::string(60, 'l')).t("CPLX", gen::lpad("1.5", 20) + gen::lpad("2.5", 20));
    h.i("ENDTIME", 5).s("END-OBS", "x").t("ENDING", gen::lpad("0.5", 20)).raw("").i("ABCDEFGH", 8).i("X", 1).i("NAXIS_", 3).s("BITPIXEL", "b");
    return h.cards;
}
static gen::header base(bool ext, int pix, std::vector<long long> const& ax)
{
    return ext ? gen::extension("IMAGE", pixs[pix], ax) : gen::primary(pixs[pix], ax, false);
}

SCENARIO("axes")
{
    bool ext = mc::flip(); int pix = mc::pick(5);
    int n = mc::pick(5);
    static std::vector<long long> const sizes = {0, 1, 2, 7, 1000};
    std::vector<long long> ax;
    for (int k = 0; k < n; ++k) ax.push_back(mc::pick_from(sizes));
    gen::header g = base(ext, pix, ax);
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, pix, ax);
}
SCENARIO("many axes")
{
    mc::split(1);
    static std::vector<int> const more = {98, 99, 100, 101, 127, 128, 255, 256, 257, 998, 999};
    int n = mc::pick(40 + int(more.size())); // up to NAXIS39 and notable ones to the largest allowed
    if (n >= 40) n = more[std::size_t(n - 40)];
    std::vector<long long> ax; for (int k = 0; k < n; ++k) ax.push_back(k < 30 ? 1 + k % 2 : 1);
    gen::header g = base(false, 1, ax);
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, 1, ax);
}
SCENARIO("every order of up to three further cards")
{
    static std::vector<std::string> const ex = extra_cards();
    bool ext = mc::flip();
    gen::header g = base(ext, 1, {4, 3});
    int n = mc::pick(4);
    std::set<std::string> used;
    for (int k = 0; k < n; ++k)
    {
        std::string c = ex[mc::pick(int(ex.size()))];
        g.raw(c);
    }
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, 1, {4, 3});
}
SCENARIO("every number of cards")
{
    mc::split(1);
    int small = mc::thorough() ? 400 : 150;
    static std::vector<int> const more = {254, 255, 256, 257, 500, 511, 512, 998, 999, 1000, 1001, 1024, 2048, 4096};
    int n = mc::pick(small + int(more.size()));
    if (n >= small) n = more[std::size_t(n - small)];
    gen::header g = base(false, 2, {2});
    for (int k = 0; k < n; ++k) g.i("K" + std::to_string(k), k * 3, k % 2 ? "odd" : "");
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, 2, {2});
}
SCENARIO("a card of every kind at every place of a long header")
{
    static std::vector<std::string> const ex = extra_cards();
    static std::vector<int> const places_quick = {0, 1, 2, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 60, 66, 67, 68, 69, 70, 71, 72, 73, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110};
    std::string const c = mc::pick_from(ex);
    int at = mc::thorough() ? mc::pick(151) : mc::pick_from(places_quick);
    int times = 1 + mc::pick(2), rest = mc::pick(2) * 5;
    gen::header g = base(at % 2, 2, {2});
    for (int k = 0; k < at; ++k) g.i("K" + std::to_string(k), k * 3, k % 2 ? "odd" : "");
    for (int k = 0; k < times; ++k) g.raw(c);
    for (int k = 0; k < rest; ++k) g.i("L" + std::to_string(k), k);
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, 2, {2});
}
SCENARIO("mandatory cards anywhere")
{
    // BITPIX / NAXISn cards pushed back by other cards
    mc::split(1);
    int a = mc::pick(3), b = mc::pick(3), c = mc::pick(3), d = mc::pick(3), pix = mc::pick(5);
    gen::header g; g.b("SIMPLE", true);
    int id = 0;
    auto fill = [&](int n) { for (int k = 0; k < n; ++k) { if (k == 1) g.text("COMMENT", " c"); else g.i("X" + std::to_string(id++), 100 + id); } };
    fill(a); g.i("BITPIX", pixs[pix]); fill(b); g.i("NAXIS", 2); fill(c); g.i("NAXIS1", 5); fill(d); g.i("NAXIS2", 6);
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, pix, {5, 6});
}
SCENARIO("keywords that only begin like END")
{
    mc::split(1);
    static std::vector<std::string> const keys = {"ENDX", "END1", "END-A", "END_", "ENDED", "ENDING", "ENDPOINT", "END2END", "XEND", "EN", "E", "EEND", "ENDEND"};
    int k = mc::pick(int(keys.size())), at = mc::pick(4), how = mc::pick(2);
    gen::header g; g.b("SIMPLE", true); std::string const& key = keys[std::size_t(k)];
    auto put = [&](int n) { if (n != at) return; if (how == 0) g.i(key, 7); if (how == 1) g.s(key, "END"); };
    g.i("BITPIX", 8); put(0); g.i("NAXIS", 1); put(1); g.i("NAXIS1", 5); put(2); g.i("LAST", 9); put(3);
    header_t h; read_into(h, g.bytes());
    mc::state(g.bytes());
    agree(h, g.cards, 0, {5});
}
SCENARIO("the same object read again")
{
    bool e1 = mc::flip(), e2 = mc::flip();
    int p1 = mc::pick(5), p2 = mc::pick(5);
    static std::vector<std::vector<long long>> const axes = {{}, {3}, {2, 5}, {4, 1, 2}};
    auto a1 = mc::pick_from(axes), a2 = mc::pick_from(axes);
    static std::vector<std::string> const ex = extra_cards();
    gen::header g1 = base(e1, p1, a1), g2 = base(e2, p2, a2);
    g1.raw(ex[mc::pick(3)]); g1.i("ONLY1", 1);
    g2.i("ONLY2", 2);
    header_t h; read_into(h, g1.bytes()); agree(h, g1.cards, p1, a1);
    read_into(h, g2.bytes()); agree(h, g2.cards, p2, a2);
    mc::state(g1.bytes() + g2.bytes());
    mc::check(!h.contains_keyword("ONLY1"), "a keyword of the previous header is still there");
    mc::check(mc::thrown([&] { h.value_of<int>("ONLY1"); }).find("out_of_range") != std::string::npos, "a value of the previous header is still there");
    header_t copy = h; agree(copy, g2.cards, p2, a2);
}
SCENARIO("unsupported or missing mandatory cards")
{
    int what = mc::pick(9);
    gen::header g; g.b("SIMPLE", true);
    if (what == 0) g.i("NAXIS", 0);                       // no BITPIX
    else if (what == 1) g.i("BITPIX", 8);                 // no NAXIS
    else if (what == 2) g.i("BITPIX", 8).i("NAXIS", 2).i("NAXIS1", 3);
    else { static int const bad[] = {7, 0, 64, -8, -16, 128}; g.i("BITPIX", bad[what - 3]).i("NAXIS", 0); }
    header_t h;
    std::string t = mc::thrown([&] { read_into(h, g.bytes()); });
    mc::state(g.bytes());
    mc::check(!t.empty(), "a header with an unsupported or missing mandatory card was accepted (case ", what, ")");
}
SCENARIO("headers are equal exactly when their cards are")
{
    static std::vector<std::string> const ex = extra_cards();
    bool ext = mc::flip(); int pix = mc::pick(5);
    static std::vector<std::vector<long long>> const axes = {{}, {3}, {2, 5}};
    auto ax = mc::pick_from(axes);
    gen::header g = base(ext, pix, ax); g.raw(ex[0]).raw(ex[5]).raw(ex[1]);
    int how = mc::pick(6); gen::header k = g;
    if (how == 1) k.raw(ex[6]);
    if (how == 2) k.cards.pop_back();
    if (how == 3) std::swap(k.cards[k.cards.size() - 1], k.cards[k.cards.size() - 2]);
    if (how == 4) { k = base(ext, (pix + 1) % 5, ax); k.raw(ex[0]).raw(ex[5]).raw(ex[1]); }
    if (how == 5) { auto& c = k.cards[k.cards.size() - 1 - std::size_t(mc::pick(3))]; c[79] = c[79] == '!' ? '?' : '!'; }
    header_t a, b; read_into(a, g.bytes()); read_into(b, k.bytes());
    int asked = mc::pick(4); // questions put to one of them before
    if (asked & 1) { a.get_hdu_name(); a.data_size(); a.contains_keyword("COUNT"); a.value_of<std::string>("BITPIX"); mc::thrown([&] { a.value_of<int>("ABSENT"); }); }
    if (asked & 2) { b.get_hdu_name(); b.value_of<long long>("COUNT"); b.total_dimensions(); b.data_unit_size(); b.card_count(); }
    header_t c = a, d; d = b;
    bool same = g.cards == k.cards;
    mc::check((a == b) == same && (b == a) == same && (c == d) == same && (d == a) == same, same ? "headers of the same cards are not equal" : "headers of different cards are equal");
    mc::check(a == c && c == a && b == d && a == a, "a copy of a header is not equal to it");
    mc::state(mc::hash_str(g.bytes() + k.bytes(), std::uint64_t(asked)));
}
SCENARIO("a header that is neither of a primary HDU nor of an extension has no name")
{
    mc::split(1);
    int k = mc::pick(4);
    gen::header g; if (k == 1) g.i("NOTSIMPL", 1); if (k == 2) g.text("COMMENT", "SIMPLE"); if (k == 3) g.s("EXTNAME", "X");
    g.i("BITPIX", 8).i("NAXIS", 0);
    header_t h; read_into(h, g.bytes());
    std::string n, th = mc::thrown([&] { n = h.get_hdu_name(); });
    mc::check(!th.empty(), "a header without SIMPLE and XTENSION is named ", mc::show(n));
    mc::state(std::uint64_t(k));
}
SCENARIO("a primary HDU knows whether it is simple and may be extended")
{
    bool simple = mc::flip(); int extend = mc::pick(3), pix = mc::pick(5), at = mc::pick(2); bool copied = mc::flip();
    gen::header g; g.b("SIMPLE", simple).i("BITPIX", pixs[pix]).i("NAXIS", 0);
    if (at) g.s("OBJECT", "x");
    if (extend) g.b("EXTEND", extend == 2);
    header_t h; read_into(h, g.bytes());
    primary_hdu p(h, ""), q; q = p; primary_hdu r(copied ? q : p);
    mc::check(r.is_simple() == simple, "is_simple() is ", r.is_simple(), " for SIMPLE = ", simple);
    mc::check(r.is_extended() == (extend == 2), "is_extended() is ", r.is_extended(), " for EXTEND ", extend == 0 ? "absent" : extend == 1 ? "= F" : "= T");
    header_t k = r.get_header(); agree(k, g.cards, pix, {});
    mc::state(mc::hash_str(g.bytes(), copied));
}
SCENARIO("HDUs with a missing or unusable mandatory card are refused")
{
    int kind = mc::pick(4); // primary, image extension, ASCII table, binary table
    files::part p = kind == 0 ? files::img(true, 16, {3, 2}) : kind == 1 ? files::img(false, 16, {3, 2})
        : kind == 2 ? files::ascii({{"A8", "NAME", 1}, {"I4", "N", 10}}, 14, 2) : files::bin({{"1J", "A"}, {"4A", "B"}}, 8, 3, 5);
    std::vector<std::string> keys = {"BITPIX", "NAXIS", "NAXIS1", "NAXIS2"};
    if (kind == 0) keys.push_back("SIMPLE"); else { keys.push_back("PCOUNT"); keys.push_back("GCOUNT"); }
    if (kind > 1) for (char const* k : {"XTENSION", "TFIELDS", "TFORM1", "TFORM2"}) keys.push_back(k);
    if (kind == 2) { keys.push_back("TBCOL1"); keys.push_back("TBCOL2"); }
    int which = mc::pick(int(keys.size()) + 1), how = mc::pick(2);
    gen::header g; int hit = 0;
    for (auto const& c : p.h.cards)
    {
        bool is = which < int(keys.size()) && gen::parse_card(c).key == keys[std::size_t(which)];
        hit += is;
        if (is && how == 0) continue;
        if (is) { std::string k = keys[std::size_t(which)]; k.resize(8, ' '); k += "= '?!      '"; k.resize(80, ' '); g.cards.push_back(k); }
        else g.cards.push_back(c);
    }
    if (which < int(keys.size())) mc::check(hit == 1, "the generated header has no ", keys[std::size_t(which)]);
    // an extension of another type is not refused
    if (which < int(keys.size()) && how == 1 && keys[std::size_t(which)] == "XTENSION") return;
    std::string t = mc::thrown([&] {
        header_t h = make_header(g.bytes());
        if (kind == 0) primary_hdu x(h, p.data);
        else if (kind == 1) image_extension x(h, p.data);
        else if (kind == 2) ascii_table x(h, p.data);
        else binary_table x(h, p.data);
    });
    std::string o;
    if (kind != 1)
    {
        files::part q = p; q.h = g;
        gen::write_file("mandatory.fits", (kind ? files::img(true, 8, {}).bytes() : std::string()) + q.bytes());
        o = mc::thrown([] { fits::open("mandatory.fits"); });
    }
    mc::state(mc::str(kind, ",", which, ",", how));
    if (which == int(keys.size())) mc::check(t.empty() && o.empty(), "a complete HDU was refused: ", t, o);
    else
    {
        mc::check(!t.empty() || keys[std::size_t(which)] == "XTENSION", "an HDU whose ", keys[std::size_t(which)], how ? " is unusable" : " is missing", " was accepted");
        mc::check(kind == 1 || !o.empty(), "a file with an HDU whose ", keys[std::size_t(which)], how ? " is unusable" : " is missing", " was opened");
    }
}
