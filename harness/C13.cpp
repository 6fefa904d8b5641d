// C13: the file stream is a byte array with one position, whatever the sequence
// of operations.
#include <boost/astronomy/io/fits.hpp>
#include "mc.hpp"
#include "fitsgen.hpp"
using namespace boost::astronomy::io;

struct model
{
    bool open = false, writable = false, dead = false;   // dead: the last operation hit the end, only reopening is specified
    std::string* data = nullptr; std::size_t pos = 0;
};

static std::string content(int n)
{
    std::string s; s.reserve(n);
    for (int k = 0; k < n; ++k) s += char((k * 7 + k / 251) & 0xff);
    return s;
}
static std::vector<int> const sizes = {0, 1, 79, 80, 2879, 2880, 2881, 5760, 5761};

static void end_of_unit(fits_stream& s, model& m)
{
    std::size_t want = (m.pos + 2879) / 2880 * 2880;
    std::size_t got = s.find_unit_end();
    mc::check(got == want, "end of the record at ", m.pos, " is ", got, " instead of ", want);
}
static bool reading_done(std::string const& t) { return t.find("file_reading_exception") != std::string::npos; }

// one read-side operation
static int const n_read_ops = 15;
static void read_op(fits_stream& s, model& m, int op)
{
    static int const counts[] = {0, 1, 3, 80, 2880};
    static int const poss[] = {0, 1, 2879, 2880, 2882};
    std::size_t size = m.data->size();
    if (op < 5)
    {
        std::size_t n = counts[op];
        std::string got; std::string t = mc::thrown([&] { got = s.read(n); });
        mc::log("read(", n, ") at ", m.pos, " of ", size, " -> ", t.empty() ? "ok" : t);
        std::size_t left = m.pos < size ? size - m.pos : 0;
        if (n > left) { mc::check(reading_done(t), "read(", n, ") with ", left, " bytes left ", t.empty() ? "returned data" : "threw " + t); return; }
        mc::check(t.empty(), "read(", n, ") threw ", t, " with ", left, " bytes left");
        mc::check(got == m.data->substr(std::min(m.pos, size), n), "read(", n, ") at ", m.pos, " returned other bytes");
        m.pos += n;
    }
    else if (op == 5)
    {
        mc::log("get() at ", m.pos);
        unsigned char got = s.get();
        if (m.pos < size) { mc::check(got == (unsigned char)(*m.data)[m.pos], "get() at ", m.pos, " is ", int(got)); m.pos++; }
        else { mc::check(got == 0, "get() at the end is ", int(got)); m.dead = true; }
    }
    else if (op == 6)
    {
        bool got = s.at_end();
        mc::check(got == (m.pos >= size), "at_end() at ", m.pos, " of ", size, " is ", got);
    }
    else if (op == 7)
    {
        mc::check(s.get_current_pos() == m.pos, "get_current_pos() is ", s.get_current_pos(), " instead of ", m.pos);
    }
    else if (op == 8) { end_of_unit(s, m); }
    else if (op == 9)
    {
        s.set_unit_end(); m.pos = (m.pos + 2879) / 2880 * 2880;
        mc::check(s.get_current_pos() == m.pos, "set_unit_end() went to ", s.get_current_pos(), " instead of ", m.pos);
    }
    else
    {
        std::size_t p = poss[op - 10];
        mc::log("set_reading_pos(", p, ")");
        s.set_reading_pos(p); m.pos = p; 
        mc::check(s.get_current_pos() == p, "set_reading_pos(", p, ") went to ", s.get_current_pos());
    }
}
SCENARIO("reading: all operation sequences on files of every critical size")
{
    int which = mc::pick(int(sizes.size()));
    std::string data = content(sizes[which]);
    gen::write_file("r.bin", data);
    fits_stream s; s.set_file("r.bin");
    mc::check(s.is_open(), "not open after set_file");
    model m; m.open = true; m.data = &data;
    int depth = mc::thorough() ? 5 : 4;
    for (int step = 0; step < depth && !m.dead; ++step)
    {
        read_op(s, m, mc::pick(n_read_ops));
        mc::state(mc::str(which, ",", m.pos, ",", m.dead, ","));
    }
    mc::check(gen::read_file("r.bin") == data, "reading changed the file");
}
SCENARIO("every byte value, read one at a time or together")
{
    int first = mc::pick(256), how = mc::pick(3);
    std::string data; for (int k = 0; k < 5; ++k) data += char((first + (k % 2 ? 0 : k * 51)) & 0xff);
    gen::write_file("b.bin", data);
    fits_stream s; s.set_file("b.bin");
    model m; m.open = true; m.data = &data;
    for (std::size_t k = 0; k < data.size(); ++k)
    {
        bool by_get = how == 0 || (how == 2 && k % 2);
        read_op(s, m, 6); read_op(s, m, by_get ? 5 : 1); read_op(s, m, 7);
    }
    read_op(s, m, 6);
    s.set_reading_pos(0); mc::check(s.read(5) == data, "the bytes read together differ");
    fits_stream w; w.create_file("c.bin"); for (char c : data) w.write(std::string(1, c)); w.close();
    mc::check(gen::read_file("c.bin") == data, "the bytes written differ");
    mc::state(data);
}
SCENARIO("positions beyond 2 and 4 GB")
{
    static unsigned long long const base[] = {2147483648ull, 4294967296ull, 6442450944ull};
    std::size_t b = base[mc::pick(3)], at = b - 3000 + std::size_t(mc::pick(7)) * 1000; int how = mc::pick(3);
    std::string const marks = content(9000);   // lie around the boundary
    {
        int fd = ::open("big.bin", O_CREAT | O_TRUNC | O_RDWR, 0600);
        bool ok = fd >= 0 && pwrite(fd, marks.data(), marks.size(), off_t(b - 4500)) == ssize_t(marks.size());
        if (fd >= 0) ::close(fd);
        if (!ok) { unlink("big.bin"); return; }    // the file system takes no such file
    }
    std::size_t const size = b + 4500; auto byte = [&](std::size_t p) { return marks[p - (b - 4500)]; };
    fits_stream s; s.set_file("big.bin"); unlink("big.bin");
    s.set_reading_pos(at); mc::check(s.get_current_pos() == at, "set_reading_pos(", at, ") went to ", s.get_current_pos());
    mc::check(!s.at_end(), "at_end() at ", at, " of ", size);
    std::size_t end = (at + 2879) / 2880 * 2880;
    mc::check(s.find_unit_end() == end, "end of the record at ", at, " is ", s.find_unit_end());
    if (how == 0) { std::string g = s.read(100); for (int k = 0; k < 100; ++k) mc::check(g[k] == byte(at + k), "other bytes at ", at + k); mc::check(s.get_current_pos() == at + 100, "position after reading"); }
    if (how == 1) { for (int k = 0; k < 5; ++k) mc::check((unsigned char)s.get() == (unsigned char)byte(at + k), "other byte at ", at + k); }
    if (how == 2)
    {
        s.set_unit_end(); mc::check(s.get_current_pos() == end, "set_unit_end() at ", at, " went to ", s.get_current_pos());
        if (end < size) mc::check((unsigned char)s.get() == (unsigned char)byte(end), "other byte at ", end);
    }
    s.set_reading_pos(size); mc::check(s.at_end(), "the end is not seen at ", size);
    mc::state(mc::str(b, ' ', at, ' ', how));
}
SCENARIO("record end: every position of the first records")
{
    int hi = mc::pick(73); int m3 = mc::pick(2);
    static std::string data = content(2880 * 3);
    gen::write_file("u.bin", data);
    fits_stream s; s.set_file("u.bin");
    for (int lo = 0; lo < 80; ++lo)
    {
        std::size_t p = std::size_t(hi) * 80 + lo;
        s.set_reading_pos(p);
        std::size_t want = (p + 2879) / 2880 * 2880;
        if (m3) { s.set_unit_end(); mc::check(s.get_current_pos() == want, "set_unit_end() from ", p, " went to ", s.get_current_pos()); }
        else mc::check(s.find_unit_end() == want, "find_unit_end() from ", p, " is ", s.find_unit_end());
    }
    mc::steps(80); mc::state(std::uint64_t(hi * 2 + m3));
}
SCENARIO("writing: all operation sequences")
{
    gen::write_file("w.bin", content(5000)); // an older, longer file
    fits_stream s;
    mc::check(s.create_file("w.bin"), "create_file failed");
    std::string data; model m; m.open = m.writable = true; m.data = &data;
    static std::vector<std::string> const chunks = {"", "a", std::string("b\0c\n\r", 5), std::string(2879, 'x'), std::string(2880, 'y')};
    int depth = mc::thorough() ? 4 : 3;
    for (int step = 0; step < depth && !m.dead; ++step)
    {
        int op = mc::pick(14);
        if (op < 5)
        {
            mc::check(s.write(chunks[op]), "write failed");
            if (m.pos + chunks[op].size() > data.size()) data.resize(m.pos + chunks[op].size(), '\0');
            data.replace(m.pos, chunks[op].size(), chunks[op]); m.pos += chunks[op].size();
        }
        else if (op < 9)
        {
            static std::size_t const at[] = {0, 1, 2880, 100};
            std::size_t p = at[op - 5]; std::string c = op % 2 ? "QQ" : "Z";
            if (p > data.size()) throw mc::prune();
            mc::check(s.write(c, p), "write at ", p, " failed");
            if (p + c.size() > data.size()) data.resize(p + c.size(), '\0');
            data.replace(p, c.size(), c); m.pos = p + c.size();
        }
        else if (op == 9) { if (m.pos > data.size()) throw mc::prune(); mc::check(s.get_current_pos() == m.pos, "position is ", s.get_current_pos(), " instead of ", m.pos); }
        else if (op == 10) end_of_unit(s, m);
        else if (op == 11) { s.set_reading_pos(0); m.pos = 0; }
        else if (op == 12)
        {
            std::size_t left = data.size() - std::min(m.pos, data.size()); std::size_t n = std::min<std::size_t>(left, 3);
            std::string got = s.read(n);
            mc::check(got == data.substr(m.pos, n), "bytes read back after writing differ at ", m.pos);
            m.pos += n;
            s.set_reading_pos(m.pos);
        }
        else
        {
            std::size_t end = s.find_unit_end();
            mc::check(s.write(std::string(end - m.pos, ' ')), "write of the fill failed");
            std::string c(end - m.pos, ' ');
            if (m.pos + c.size() > data.size()) data.resize(m.pos + c.size(), '\0');
            data.replace(m.pos, c.size(), c); m.pos = end;
        }
        mc::state(mc::hash_str(data, m.pos));
    }
    s.close();
    mc::check(!s.is_open(), "open after close");
    mc::check(gen::read_file("w.bin") == data, "the file holds ", gen::read_file("w.bin").size(), " bytes that differ from the ", data.size(), " written");
}
SCENARIO("reopening: all sequences of files on one stream")
{
    std::string a = content(100), b = content(2880) + "tail";
    gen::write_file("a.bin", a); gen::write_file("b.bin", b);
    fits_stream s; model m;
    mc::check(!s.is_open(), "open before any file was set");
    int depth = mc::thorough() ? 5 : 4;
    for (int step = 0; step < depth; ++step)
    {
        int op = mc::pick(7);
        mc::log("op ", op);
        if (op == 0 || op == 1)
        {
            std::string t = mc::thrown([&] { s.set_file(op ? "b.bin" : "a.bin"); });
            mc::check(t.empty(), "set_file threw ", t);
            m = model(); m.open = true; m.data = op ? &b : &a;
        }
        else if (op == 2)
        {
            std::string t = mc::thrown([&] { s.set_file("missing.bin"); });
            mc::check(reading_done(t), "set_file of a missing file ", t.empty() ? "succeeded" : "threw " + t);
            m = model();
            mc::check(!s.is_open(), "open after a missing file");
        }
        else if (op == 3) { s.close(); m = model(); }
        else
        {
            if (!m.open || m.dead) throw mc::prune();
            if (op == 4) read_op(s, m, 2);            // read(3)
            if (op == 5) { while (!s.at_end()) { s.read(1); m.pos++; }  mc::check(m.pos >= m.data->size(), "at_end() too early at ", m.pos); }
            if (op == 6) read_op(s, m, 5);            // get()
        }
        mc::check(s.is_open() == m.open, "is_open() is ", s.is_open());
        mc::state(mc::str(m.open, m.pos, m.dead, m.data == &a));
    }
}
SCENARIO("files that cannot be created")
{
    mc::split(1);
    int k = mc::pick(3);
    static char const* const paths[] = {"no/such/dir/f", ".", ""};
    fits_stream s;
    mc::check(!s.create_file(paths[k]), "create_file(", paths[k], ") reports success");
    mc::state(std::uint64_t(k));
}

SCENARIO("a file that is replaced and opened again under its name")
{
    fits_stream s; std::string data; std::size_t pos = 0; int version = 0; bool open = false; int depth = mc::thorough() ? 6 : 5; std::string trace;
    auto put = [&](bool rename) { data = std::string(1, char('A' + version)) + content(90 + 7 * version); ++version; gen::write_file(rename ? "n.bin" : "s.bin", data); if (rename) std::rename("n.bin", "s.bin"); };
    put(false);
    for (int step = 0; step < depth; ++step)
    {
        int op = mc::pick(5); trace += char('0' + op);
        if (op == 3) { if (!open || pos + 40 > data.size()) throw mc::prune(); std::string g = s.read(40); mc::check(g == data.substr(pos, 40), "other bytes at ", pos); pos += 40; }
        else if (op == 4) { s.close(); open = false; mc::check(!s.is_open(), "open after close"); }
        else
        {
            if (op > 0) put(op == 2);
            s.set_file("s.bin"); open = true; pos = 0;
            mc::check(s.is_open() && s.get_current_pos() == 0 && !s.at_end(), "a file opened again does not start at its beginning");
        }
    }
    if (open) { std::string g = s.read(data.size() - pos); mc::check(g == data.substr(pos) && s.at_end(), "other bytes in the rest of the file"); }
    mc::state(trace);
}
SCENARIO("large pieces")
{
    // written and read in one piece, or in two
    int e = 12 + mc::pick(mc::thorough() ? 15 : 13); std::size_t n = (std::size_t(1) << e) + std::size_t(mc::pick(3)) - 1; int how = mc::pick(3);
    static std::size_t const heads[] = {0, 1, 2880}; std::size_t head = heads[mc::pick(3)];
    std::string data(head + n, '\0'); { unsigned x = 12345; for (auto& c : data) { x = x * 1664525u + 1013904223u; c = char(x >> 24); } }
    fits_stream w; mc::check(w.create_file("l.bin"), "create_file failed");
    if (head) mc::check(w.write(data.substr(0, head)), "write failed");
    if (how < 2) { mc::check(w.write(data.substr(head)), "write failed"); mc::check(w.get_current_pos() == data.size(), "after ", data.size(), " bytes the position is ", w.get_current_pos()); }
    else { mc::check(w.write(data.substr(head, n / 2)), "write failed"); mc::check(w.write(data.substr(head + n / 2)), "write failed"); }
    w.close();
    mc::check(gen::read_file("l.bin") == data, "a file written with a piece of ", n, " bytes differs");
    fits_stream r; r.set_file("l.bin");
    if (head) mc::check(r.read(head) == data.substr(0, head), "the first bytes differ");
    if (how == 1) { mc::check(r.read(n / 3) == data.substr(head, n / 3), "a piece of ", n / 3, " bytes differs"); mc::check(r.read(n - n / 3) == data.substr(head + n / 3), "a piece of ", n - n / 3, " bytes differs"); }
    else mc::check(r.read(n) == data.substr(head), "a piece of ", n, " bytes at ", head, " differs");
    mc::check(r.get_current_pos() == data.size() && r.at_end(), "after ", data.size(), " bytes the position is ", r.get_current_pos());
    std::remove("l.bin");
    mc::state(mc::str(n, ' ', how, ' ', head));
}
