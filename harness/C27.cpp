// C27: separate objects can be used by different threads at the same time.
//
// Every pair of operations is run in two threads of the real code with all memory accesses recorded. When no memory is
// used by both of which one writes, every two steps of different threads commute, so all interleavings of the pair are
// equivalent to the one executed (partial order reduction with no dependent transitions) and it decides for all of
// them. A dependent pair is a race and is reported. The results are compared with those of a run alone.
#include <iomanip>
#include <pthread.h>
#include <semaphore.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tsanrt.hpp"
#include "ops.hpp"
static std::string run_ops(std::vector<int> const& k, input const& i) { std::string r; for (int o : k) r += run_op(o, i); return r; }
// an object and a copy of it are separate objects
struct two { std::function<std::string(int)> use[2]; };
template <typename T, typename F> static two pair_of(T const& t, F f)
{
    two r; T* a = new T(t); T* b = new T(*a);
    r.use[0] = [a, f](int v) { return f(*a, v); }; r.use[1] = [b, f](int v) { return f(*b, v); }; return r;
}
static two copied_card(int v)
{
    card_t c; c.create_card("TEXT", std::string("a text value longer than the small buffer ") + char('a' + v), "remark"); (void)c.value<std::string>();
    return pair_of(c, [](card_t& k, int w) { std::string r = x(k.value<std::string>()) + x(k.keyword()); k.set_value(std::string("another text value, also a long one ") + char('k' + w)); r += x(k.value<std::string>()) + x(k.raw_card()); k.set_value(12 + w); return r + n(k.value<int>()) + x(k.value_with_comment()); });
}
static two copied_header(int v)
{
    header_t h = make_header_of(img(true, 16, {4, 3}, v), "hd"); (void)h.value_of<int>("NAXIS");
    return pair_of(h, [](header_t& k, int w) { std::string r = n(k.value_of<int>("NAXIS1")) + n(k.value_of<bool>("EXTEND")) + x(k.get_hdu_name()) + n((long long)k.data_size()) + n(k.contains_keyword("X")); return r + n((long long)k.card_count()) + n(w); });
}
static two copied_binary(int v)
{
    part p = bin({{"1J", "A"}, {"2D", "B"}, {"3A", "C"}}, 23, 3, 4, v); binary_table t(make_header_of(p, "hd"), p.data); t.get_column<boost::int32_t>("A")[0] = 3;
    return pair_of(t, [](binary_table& k, int w) { k.get_column<boost::int32_t>("A")[1] = 77 + w; k.get_column<std::vector<d>>("B")[0] = std::vector<d>{1.5 + w, 2.5}; std::string r; for (auto const& row : k.get_data()) for (auto const& c : row) r += x(c); r += n(k.get_column<boost::int32_t>("A")[0]) + n(k.get_column<boost::int32_t>("A")[1]); return r + x(k.get_column_metadata("B").TFORM()); });
}
static two copied_ascii(int v)
{
    part p = ascii({{"A8", "NAME", 1}, {"I6", "N", 10}}, 16, 3); ascii_table t(make_header_of(p, "hd"), p.data); t.get_column<long long>("N")[0] = 3 + v;
    return pair_of(t, [](ascii_table& k, int w) { k.get_column<long long>("N")[1] = 77 + w; k.get_column<std::string>("NAME")[0] = std::string("n") + char('a' + w); std::string r; for (auto const& row : k.get_data()) for (auto const& c : row) r += x(c); return r + n(k.get_column<long long>("N")[0]) + n(k.get_column<long long>("N")[1]) + x(k.get_column_metadata("N").TFORM()); });
}
static two copied_image(int v)
{
    part q = img(false, 16, {7, 3}, v); image_extension e(make_header_of(q, "hd"), q.data);
    return pair_of(e, [](image_extension& k, int w) { auto a = k.get_data<bitpix::B16>(); std::string r = n(a.max()) + x(a.mean()) + n(a.median()) + x(a.std_dev()); return r + n(a(w % 3, 0)) + n(k.get_data<bitpix::B16>()(0, 0)) + n((long long)k.get_header().card_count()); });
}
static two copied_frame(int v)
{
    typedef icrs<R1, D1> F; typedef sky_point<F> P; P p(F(make<typename R1::quantity1>(0.1 + v), make<typename R1::quantity2>(0.5), make<typename R1::quantity3>(2)));
    return pair_of(p, [](P& k, int w) { F g(make<typename R1::quantity1>(-0.2), make<typename R1::quantity2>(1.5 + w), make<typename R1::quantity3>(2)); P q(g); std::string r = x(k.separation(q).value()) + x(k.get_point().get_data().get_lat().value()); k.set_point(g); return r + x(k.get_point().get_data().get_lon().value()); });
}
struct copies { char const* name; two (*make)(int); };
static copies const copied[] = {{"a copied card", copied_card}, {"a copied header", copied_header}, {"a copied binary table", copied_binary}, {"a copied ASCII table", copied_ascii}, {"a copied image extension", copied_image}, {"a copied sky point", copied_frame}};
static int const copied_count = int(sizeof copied / sizeof *copied);
struct job { int thread; std::vector<int> ops; input in; std::function<std::string()> other; std::string result; };
static sem_t finished, leave;
static void* body(void* p)
{
    job& j = *static_cast<job*>(p);
    rt::start(j.thread); std::string r = j.other ? j.other() : run_ops(j.ops, j.in); rt::stop();
    j.result.assign(r.data(), r.size());
    sem_post(&finished);   // the other one may run
    sem_wait(&leave);      // both stay, so that no stack or thread storage is used twice
    return nullptr;
}
static void warm_up() // what the standard library sets up at its first use
{
    std::stringstream s; s << 1.5 << ' ' << 2 << ' ' << 3ull << ' ' << std::setprecision(3) << 1.0f; double a; int b; s >> a >> b;
    std::locale l; std::string t = " a "; boost::algorithm::trim(t); (void)boost::lexical_cast<double>("1.5"); (void)boost::lexical_cast<std::string>(1.5);
    std::ofstream f("warm"); f << "x"; f.close(); std::ifstream g("warm"); g.get();
    try { throw std::runtime_error("x"); } catch (std::exception&) {}
}
// in a process of its own, so that nothing is set up yet by an earlier run; the answer comes through a pipe
template <typename F> static std::string apart(F f)
{
    int fd[2]; if (pipe(fd)) mc::fail("harness error: pipe");
    pid_t p = fork();
    if (p == 0)
    {
        close(fd[0]); std::string r = f(); std::size_t at = 0;
        while (at < r.size()) { ssize_t k = write(fd[1], r.data() + at, r.size() - at); if (k <= 0) break; at += std::size_t(k); }
        _exit(0);
    }
    close(fd[1]); std::string r; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, std::size_t(k));
    close(fd[0]); int st = 0; waitpid(p, &st, 0);
    mc::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status ", st);
    return r;
}
static std::string const& alone(std::vector<int> const& k, int thread, int v)
{
    static std::map<std::string, std::string> memo;
    std::string key = std::to_string(thread) + "," + std::to_string(v); for (int o : k) key += "," + std::to_string(o);
    auto f = memo.find(key); if (f != memo.end()) return f->second;
    input i = input_of(thread, v); inputs(i);
    return memo[key] = apart([&] { return run_ops(k, i); });
}
static std::string threads(job (&j)[2], std::string const& wa, std::string const& wb)
{
    sem_init(&finished, 0, 0); sem_init(&leave, 0, 0); rt::init();
    pthread_t t[2];
    for (int k = 0; k < 2; ++k) { pthread_create(&t[k], nullptr, body, &j[k]); sem_wait(&finished); }
    rt::result c = rt::compare(); std::ostringstream o;
    o << (j[0].result == wa) << ' ' << (j[1].result == wb) << ' ' << c.complete << ' ' << c.accesses << ' ' << c.shared << ' ' << c.conflicts.size();
    if (c.conflicts.empty() && !c.files.empty()) { o.str(""); o << "1 1 1 1 1 1 the file " << c.files[0]; return o.str(); }
    if (!c.conflicts.empty()) o << ' ' << rt::where(c.conflicts[0].at); else o << " -";
    return o.str();
}
static void judge(std::string const& names, std::string const& got)
{
    std::istringstream in(got); bool sa = false, sb = false, complete = false; std::size_t accesses = 0, shared = 0, conflicts = 0; std::string what;
    in >> sa >> sb >> complete >> accesses >> shared >> conflicts; in.ignore(); std::getline(in, what);
    mc::check(complete && accesses > 0, "harness error: the accesses of ", names, " were not all recorded: ", got);
    mc::log(names, ": ", accesses, " accesses, ", shared, " bytes read by both threads");
    mc::check(conflicts == 0, "operations on separate objects in two threads (", names, ") use the same memory or file (", what, ", ", conflicts, " places), and one of them writes it");
    mc::check(sa && sb, "the ", sa ? "second" : "first", " thread of (", names, ") gets another result than when run alone");
    mc::state(names); mc::steps(accesses);
}
static void together(std::vector<int> const& a, int va, std::vector<int> const& b, int vb, bool one_file = false)
{
    std::string names; for (int o : a) names += std::string(ops[o].name) + " "; names += "| "; for (int o : b) names += std::string(ops[o].name) + " ";
    std::string const wa = alone(a, 0, va), wb = alone(b, 1, vb);
    input i[2] = {input_of(0, va), input_of(1, vb)}; inputs(i[0]); if (one_file) i[1].file = i[0].file; else inputs(i[1]);
    std::string got = apart([&]
    {
        warm_up();
        job j[2] = {{0, a, i[0], nullptr, ""}, {1, b, i[1], nullptr, ""}};
        return threads(j, wa, wb);
    });
    judge(mc::str(names, va, " ", vb, one_file ? " one file" : ""), got);
}
SCENARIO("two threads, one operation each: every pair")
{
    int a = mc::pick(op_count), b = mc::pick(op_count); int v = mc::pick(mc::thorough() ? 3 : 1);
    together({a}, v, {b}, v + 1);
}
SCENARIO("two threads with equal inputs")
{
    mc::split(1); int a = mc::pick(op_count); together({a}, 2, {a}, 2, mc::flip());
}
SCENARIO("an object and its copy in two threads")
{
    mc::split(1); int k = mc::pick(copied_count); int v = mc::pick(mc::thorough() ? 3 : 2), w = mc::pick(2);
    std::string want[2]; for (int t = 0; t < 2; ++t) want[t] = apart([&] { two q = copied[k].make(v); return q.use[t](w + t); });
    std::string got = apart([&]
    {
        warm_up(); two q = copied[k].make(v);
        job j[2] = {{0, {}, input_of(0, 0), [&] { return q.use[0](w); }, ""}, {1, {}, input_of(1, 0), [&] { return q.use[1](w + 1); }, ""}};
        return threads(j, want[0], want[1]);
    });
    judge(mc::str(copied[k].name, " ", v, " ", w), got);
}
THOROUGH_SCENARIO("two threads, two operations each")
{
    int a = mc::pick(op_count), b = mc::pick(op_count), c = mc::pick(op_count), e = mc::pick(op_count); together({a, b}, 0, {c, e}, 1);
}
