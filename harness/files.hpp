// generated whole files shared by the file level harnesses
#ifndef VERIF_FILES_HPP
#define VERIF_FILES_HPP
#include "lib.hpp"
namespace files {
using namespace lib;

struct part
{
    std::string kind;        // primary, bin, ascii, image, other
    gen::header h;
    std::string data;        // without fill
    std::vector<gen::asc_col> cols; // of an ASCII table
    std::size_t row = 0, rows = 0;
    std::string bytes() const { return h.bytes() + gen::record_pad(data, kind == "ascii" ? ' ' : '\0'); }
};
inline std::string fill(std::size_t n, int how, std::size_t row = 16)
{
    std::string d; d.reserve(n);
    for (std::size_t k = 0; k < n; ++k) d += byte_at(k / row, k % row, how);
    return d;
}
inline part img(bool primary, int bitpix, std::vector<long long> const& ax, int how = 0, std::string const& name = "")
{
    part p; p.kind = primary ? "primary" : "image";
    p.h = primary ? gen::primary(bitpix, ax) : gen::extension("IMAGE", bitpix, ax);
    if (!name.empty()) p.h.s("EXTNAME", name);
    std::size_t n = ax.empty() ? 0 : 1;
    for (auto a : ax) n *= std::size_t(a);
    p.data = fill(n * std::size_t(std::abs(bitpix)) / 8, how);
    return p;
}
inline part bin(std::vector<gen::bin_col> const& c, std::size_t row, std::size_t rows, std::size_t heap, int how = 0, std::string const& name = "")
{
    part p; p.kind = "bin"; p.row = row; p.rows = rows;
    p.h = gen::bintable(c, (long long)row, (long long)rows, (long long)heap, name);
    p.data = fill(row * rows, how, row ? row : 1) + fill(heap, 3);
    return p;
}
inline part ascii(std::vector<gen::asc_col> const& c, std::size_t row, std::size_t rows, std::string const& name = "", bool gaps = false)
{
    part p; p.kind = "ascii"; p.row = row; p.rows = rows; p.cols = c;
    p.h = gen::asciitable(c, (long long)row, (long long)rows, name);
    for (std::size_t r = 0; r < rows; ++r)
    {
        std::string line(row, gaps ? '#' : ' ');
        for (std::size_t k = 0; k < c.size(); ++k)
        {
            std::size_t w = std::size_t(std::atoi(c[k].form.c_str() + 1));
            std::string v = c[k].form[0] == 'A' ? "s" + std::to_string(r) + std::to_string(k) : std::to_string((r * 7 + k * 3) % 10);
            if (c[k].form[0] == 'F' || c[k].form[0] == 'E' || c[k].form[0] == 'D') v += ".5";
            if (v.size() > w) v.resize(w);
            line.replace(std::size_t(c[k].tbcol) - 1, w, r % 2 ? gen::rpad(v, w) : gen::lpad(v, w));
        }
        p.data += line;
    }
    return p;
}
inline part other(std::string const& type, std::size_t n, std::string const& name = "")
{
    part p; p.kind = "other"; p.h = gen::extension(type, 8, {(long long)n});
    if (!name.empty()) p.h.s("EXTNAME", name);
    p.data = fill(n, 0);
    return p;
}
inline std::size_t form_width(std::string const& f) { return std::size_t(std::atoi(f.c_str() + 1)); }

// the written HDU carries the same cards and data as the part it was read from
inline void same_hdu(part const& p, gen::parsed_hdu const& w, std::size_t index)
{
    auto const& c = p.h.cards;
    mc::check(w.cards.size() == c.size() + 1, "HDU ", index, " was written with ", w.cards.size() - 1, " cards instead of ", c.size());
    for (std::size_t k = 0; k < c.size(); ++k)
        mc::check(w.cards[k] == c[k], "card ", k, " of HDU ", index, " became ", mc::show(w.cards[k]), " instead of ", mc::show(c[k]));
    if (p.kind != "ascii")
    {
        mc::check(w.data.size() == p.data.size(), "HDU ", index, " has ", w.data.size(), " data bytes instead of ", p.data.size());
        for (std::size_t k = 0; k < p.data.size(); ++k)
            if (w.data[k] != p.data[k]) mc::fail(mc::str("data byte ", k, " of HDU ", index, " (", p.kind, ") became ", int((unsigned char)w.data[k]), " instead of ", int((unsigned char)p.data[k])));
        mc::evaluated(p.data.size());
        for (char f : w.fill) if (f != '\0') mc::fail(mc::str("the last record of HDU ", index, " is not filled with zeros"));
    }
    else
    {
        mc::check(w.data.size() == p.data.size(), "HDU ", index, " has ", w.data.size(), " data bytes instead of ", p.data.size());
        for (std::size_t r = 0; r < p.rows; ++r) for (auto const& col : p.cols)
        {
            std::size_t at = r * p.row + std::size_t(col.tbcol) - 1, n = form_width(col.form);
            mc::check(gen::trim(w.data.substr(at, n)) == gen::trim(p.data.substr(at, n)), "field ", col.name, " of row ", r, " of HDU ", index,
                " became ", mc::show(w.data.substr(at, n)), " instead of ", mc::show(p.data.substr(at, n)));
        }
        for (char f : w.fill) if (f != ' ') mc::fail(mc::str("the last record of ASCII table ", index, " is not filled with blanks"));
    }
}
}
#endif
