// small helpers of the demonstrations: FITS files made by hand
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
static std::string mkcard(std::string k, std::string v) { k.resize(8, ' '); k += "= " + v; k.resize(80, ' '); return k; }
static std::string num(long v) { std::string s = std::to_string(v); return s.size() < 20 ? std::string(20 - s.size(), ' ') + s : s; }
static std::string kv(std::string k, long v) { return mkcard(k, num(v)); }
static std::string ks(std::string k, std::string v) { return mkcard(k, "'" + v + "'"); }
static std::string kb(std::string k, bool v) { return mkcard(k, std::string(19, ' ') + (v ? "T" : "F")); }
static std::string endcard() { std::string s = "END"; s.resize(80, ' '); return s; }
static std::string pad(std::string s, char c) { while (s.size() % 2880) s += c; return s; }
static std::string hdr(std::vector<std::string> cards) { std::string s; for (auto& c : cards) s += c; return pad(s + endcard(), ' '); }
static std::string primary0() { return hdr({kb("SIMPLE", true), kv("BITPIX", 8), kv("NAXIS", 0), kb("EXTEND", true)}); }
static void put(std::string f, std::string const& s) { std::ofstream o(f, std::ios::binary); o << s; }
static std::string get(std::string f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
#define CHECK(x) do { if (!(x)) { std::cerr << "failed: " #x "\n"; std::exit(1); } } while (0)
