// helpers to drive the library from generated bytes
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
namespace lib {
using namespace boost::astronomy::io;
typedef header<card_policy> header_t;
inline header_t make_header(std::string const& bytes)
{
    gen::write_file("lib_h.fits", bytes);
    fits_stream s; s.set_file("lib_h.fits");
    header_t h; h.read_header(s);
    return h;
}
// what write_to of an HDU puts into an empty file
template <typename Hdu> inline std::string written(Hdu& h)
{
    { fits_stream w; if (!w.create_file("lib_w.fits")) mc::fail("cannot create lib_w.fits"); h.write_to(w); w.close(); }
    return gen::read_file("lib_w.fits");
}
// pseudo content that makes every byte of a table tell where it is from
inline char byte_at(std::size_t row, std::size_t at, int fill)
{
    switch (fill)
    {
    case 0: return char((row * 31 + at * 7 + 3) & 0xff);
    case 1: return ' ';
    case 2: return char(at % 2 ? ' ' : (row * 11 + at));       // blanks between
    case 3: return char(0xff - ((row + at * 5) & 0x7f));
    case 4: return '\0';
    default: return char("T F'/\n\t\r"[(row + at) % 8]);
    }
}
}
#endif
