// the numbers a text denotes by the FITS grammar (written without the library)
#ifndef VERIF_NUMBERS_HPP
#define VERIF_NUMBERS_HPP
#include <cmath>
#include <cstdlib>
#include <limits>
#include <string>
#include <type_traits>
namespace numbers {
// ---- what a text denotes, by the FITS grammar
static bool digits_from(std::string const& t, std::size_t& k) { std::size_t b = k; while (k < t.size() && t[k] >= '0' && t[k] <= '9') ++k; return k > b; }
static bool is_integer(std::string const& t) { std::size_t k = (t[0] == '+' || t[0] == '-') ? 1 : 0; return digits_from(t, k) && k == t.size(); }
// 1: a real number, 0: none, -1: a notation of other languages which may be taken or refused
static int is_real(std::string const& t)
{
    std::size_t k = (t[0] == '+' || t[0] == '-') ? 1 : 0;
    bool a = digits_from(t, k), b = false;
    if (k < t.size() && t[k] == '.') { ++k; b = digits_from(t, k); }
    if (!a && !b) return 0;
    if (k == t.size()) return 1;
    char e = t[k++];
    if (e != 'E' && e != 'D' && e != 'e' && e != 'd') return 0;
    if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k;
    if (!digits_from(t, k) || k != t.size()) return 0;
    return e == 'E' || e == 'D' ? 1 : -1;
}
template <typename T> static bool denotes(std::string const& t, T& v, std::true_type /* integer */)
{
    if (!is_integer(t)) return false;
    bool neg = t[0] == '-'; __int128 x = 0;
    for (char c : t) if (c >= '0' && c <= '9') x = x * 10 + (c - '0');
    if (neg) x = -x;
    if (x < __int128(std::numeric_limits<T>::min()) || x > __int128(std::numeric_limits<T>::max())) return false;
    v = T(x); return true;
}
template <typename T> static bool denotes(std::string t, T& v, std::false_type /* real */)
{
    if (is_real(t) <= 0) return false;
    for (char& c : t) if (c == 'D') c = 'E';
    v = std::is_same<T, float>::value ? T(std::strtof(t.c_str(), nullptr)) : T(std::strtod(t.c_str(), nullptr));
    return true;
}
}
#endif
