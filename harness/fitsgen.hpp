// Independent builder / parser of FITS bytes, written from the FITS standard.
// It shares no code with the library and serves as the reference.
#ifndef VERIF_FITSGEN_HPP
#define VERIF_FITSGEN_HPP

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <utility>
#include <vector>

namespace gen {

inline std::string rpad(std::string s, std::size_t n, char c = ' ') { if (s.size() < n) s.append(n - s.size(), c); return s; }
inline std::string lpad(std::string s, std::size_t n, char c = ' ') { if (s.size() < n) s.insert(0, n - s.size(), c); return s; }
inline std::string rtrim(std::string const& s) { std::size_t e = s.find_last_not_of(' '); return e == std::string::npos ? std::string() : s.substr(0, e + 1); }
inline std::string trim(std::string const& s)
{
    std::size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' ');
    return a == std::string::npos ? std::string() : s.substr(a, b - a + 1);
}
inline std::string quote(std::string const& v)
{
    std::string o = "'";
    for (char c : v) { if (c == '\'') o += '\''; o += c; }
    return o + "'";
}
inline std::string raw_card(std::string const& key, std::string const& field, std::string const& comment = "")
{
    std::string s = rpad(key, 8) + "= " + field;
    if (!comment.empty()) s += " / " + comment;
    return rpad(s, 80);
}

struct header
{
    std::vector<std::string> cards; // without END
    header& i(std::string const& k, long long v, std::string const& c = "") { cards.push_back(raw_card(k, lpad(std::to_string(v), 20), c)); return *this; }
    header& s(std::string const& k, std::string const& v, std::string const& c = "") { cards.push_back(raw_card(k, rpad(quote(v), 10), c)); return *this; }
    header& b(std::string const& k, bool v, std::string const& c = "") { cards.push_back(raw_card(k, lpad(v ? "T" : "F", 20), c)); return *this; }
    header& t(std::string const& k, std::string const& field, std::string const& c = "") { cards.push_back(raw_card(k, field, c)); return *this; }
    header& text(std::string const& k, std::string const& v) { cards.push_back(rpad(rpad(k, 8) + v, 80)); return *this; }
    header& raw(std::string const& c) { cards.push_back(rpad(c, 80)); return *this; }
    std::string bytes() const
    {
        std::string o;
        for (auto& c : cards) o += c;
        o += rpad("END", 80);
        while (o.size() % 2880) o += ' ';
        return o;
    }
};

inline std::string record_pad(std::string d, char fill) { while (d.size() % 2880) d += fill; return d; }

inline header primary(int bitpix, std::vector<long long> const& naxis, bool extend = true)
{
    header h; h.b("SIMPLE", true, "conforms to FITS").i("BITPIX", bitpix).i("NAXIS", (long long)naxis.size());
    for (std::size_t k = 0; k < naxis.size(); ++k) h.i("NAXIS" + std::to_string(k + 1), naxis[k]);
    if (extend) h.b("EXTEND", true);
    return h;
}
inline header extension(std::string const& type, int bitpix, std::vector<long long> const& naxis, long long pcount = 0, long long gcount = 1)
{
    header h; h.s("XTENSION", rpad(type, 8)).i("BITPIX", bitpix).i("NAXIS", (long long)naxis.size());
    for (std::size_t k = 0; k < naxis.size(); ++k) h.i("NAXIS" + std::to_string(k + 1), naxis[k]);
    h.i("PCOUNT", pcount).i("GCOUNT", gcount);
    return h;
}
struct bin_col { std::string form, name; };
inline header bintable(std::vector<bin_col> const& cols, long long row, long long rows, long long heap = 0, std::string const& extname = "")
{
    header h = extension("BINTABLE", 8, {row, rows}, heap);
    h.i("TFIELDS", (long long)cols.size());
    for (std::size_t k = 0; k < cols.size(); ++k)
    {
        h.s("TTYPE" + std::to_string(k + 1), cols[k].name);
        h.s("TFORM" + std::to_string(k + 1), cols[k].form);
    }
    if (!extname.empty()) h.s("EXTNAME", extname);
    return h;
}
struct asc_col { std::string form, name; long long tbcol; };
inline header asciitable(std::vector<asc_col> const& cols, long long row, long long rows, std::string const& extname = "")
{
    header h = extension("TABLE", 8, {row, rows});
    h.i("TFIELDS", (long long)cols.size());
    for (std::size_t k = 0; k < cols.size(); ++k)
    {
        h.i("TBCOL" + std::to_string(k + 1), cols[k].tbcol);
        h.s("TFORM" + std::to_string(k + 1), cols[k].form);
        h.s("TTYPE" + std::to_string(k + 1), cols[k].name);
    }
    if (!extname.empty()) h.s("EXTNAME", extname);
    return h;
}

template <typename T> inline std::string be(T v)
{
    unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof v);
    std::string o;
    for (int k = int(sizeof(T)) - 1; k >= 0; --k) o += char(b[k]);
    return o;
}
template <typename T> inline T from_be(std::string const& s, std::size_t at = 0)
{
    unsigned char b[sizeof(T)];
    for (std::size_t k = 0; k < sizeof(T); ++k) b[sizeof(T) - 1 - k] = (unsigned char)s.at(at + k);
    T v; std::memcpy(&v, b, sizeof v); return v;
}

inline void write_file(std::string const& path, std::string const& bytes)
{
    std::FILE* f = std::fopen(path.c_str(), "wb");
    if (!f) std::abort();
    if (!bytes.empty() && std::fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size()) std::abort();
    std::fclose(f);
}
inline std::string read_file(std::string const& path)
{
    std::string o;
    std::FILE* f = std::fopen(path.c_str(), "rb");
    if (!f) return o;
    char buf[8192]; std::size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) o.append(buf, n);
    std::fclose(f);
    return o;
}

// ---- parsing --------------------------------------------------------------
struct parsed_card
{
    std::string key;
    bool has_value = false, is_string = false;
    std::string value;    // string without quotes, or the text of the value
    std::string comment;
    std::string text;     // free text of a card without value
};
inline parsed_card parse_card(std::string const& c)
{
    parsed_card p;
    p.key = trim(c.substr(0, 8));
    if (c.size() < 10 || c.compare(8, 2, "= ") != 0) { p.text = trim(c.substr(8)); return p; }
    p.has_value = true;
    std::size_t i = c.find_first_not_of(' ', 10);
    if (i == std::string::npos) return p;
    if (c[i] == '\'')
    {
        p.is_string = true; ++i;
        for (; i < c.size(); ++i)
        {
            if (c[i] == '\'') { if (i + 1 < c.size() && c[i + 1] == '\'') { p.value += '\''; ++i; continue; } break; }
            p.value += c[i];
        }
        std::size_t s = c.find('/', i);
        if (s != std::string::npos) p.comment = trim(c.substr(s + 1));
    }
    else
    {
        std::size_t s = c.find('/', i);
        p.value = trim(c.substr(i, s == std::string::npos ? std::string::npos : s - i));
        if (s != std::string::npos) p.comment = trim(c.substr(s + 1));
    }
    return p;
}

struct parsed_hdu
{
    std::size_t header_at = 0, data_at = 0, data_bytes = 0, end = 0;
    std::vector<std::string> cards; // with END
    std::string data;               // data_bytes of it
    std::string fill;
    std::string get(std::string const& k) const
    {
        for (auto it = cards.rbegin(); it != cards.rend(); ++it) { parsed_card p = parse_card(*it); if (p.key == k) return trim(p.value); }
        return "";
    }
    bool has(std::string const& k) const { for (auto& c : cards) if (parse_card(c).key == k) return true; return false; }
};
// splits a file into HDUs following the standard; returns false with a reason
inline bool parse_file(std::string const& f, std::vector<parsed_hdu>& out, std::string& why)
{
    out.clear();
    std::size_t at = 0;
    if (f.size() % 2880) { why = "file size is no multiple of 2880"; return false; }
    while (at < f.size())
    {
        parsed_hdu h; h.header_at = at;
        for (;;)
        {
            if (at + 80 > f.size()) { why = "header without END"; return false; }
            h.cards.push_back(f.substr(at, 80)); at += 80;
            if (h.cards.back().compare(0, 8, "END     ") == 0) break;
        }
        while (at % 2880) { if (f[at] != ' ') { why = "header not filled with blanks"; return false; } ++at; }
        h.data_at = at;
        long long n = std::atoll(h.get("NAXIS").c_str());
        long long elems = n > 0 ? 1 : 0;
        for (long long k = 1; k <= n; ++k) elems *= std::atoll(h.get("NAXIS" + std::to_string(k)).c_str());
        if (h.has("XTENSION") && n > 0) elems = (elems + std::atoll(h.get("PCOUNT").c_str())) * (h.has("GCOUNT") ? std::atoll(h.get("GCOUNT").c_str()) : 1);
        long long bp = std::atoll(h.get("BITPIX").c_str());
        h.data_bytes = std::size_t(elems * (bp < 0 ? -bp : bp) / 8);
        if (at + h.data_bytes > f.size()) { why = "data cut off"; return false; }
        h.data = f.substr(at, h.data_bytes); at += h.data_bytes;
        while (at % 2880) { h.fill += f[at]; ++at; }
        h.end = at;
        out.push_back(h);
    }
    return true;
}

} // namespace gen
#endif
