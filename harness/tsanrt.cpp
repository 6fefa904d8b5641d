// Run time of the memory instrumentation (-fsanitize=thread at compile time only): records, per thread, the
// accesses to memory that is neither on the thread's stack nor allocated by the thread itself. Not instrumented.
#include "tsanrt.hpp"
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <link.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <vector>
extern "C" { void* __libc_malloc(std::size_t); void __libc_free(void*); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t); void* __libc_memalign(std::size_t, std::size_t); }
namespace {
int const threads = 2;
std::size_t const arena_size = std::size_t(1) << 28, log_size = std::size_t(1) << 22;
struct entry { std::uintptr_t at; std::uint32_t n, locks; std::uint32_t epoch : 31, write : 1; };
struct sync { std::uintptr_t at; std::uint32_t epoch; bool store; };
struct thread_state
{
    char* stack_lo; char* stack_hi;
    char* arena; std::size_t used;
    entry* log; std::size_t logged; bool full;
    std::uint32_t locks; int guards;
    std::size_t accesses, calls;
    struct { char name[120]; bool write; } file[256]; int files;
    std::uint32_t epoch; sync syncs[1 << 16]; std::size_t synced;
    entry recent[4096];
};
thread_state* st[threads]; char* shared_arena; std::size_t shared_used; // memory made inside guarded initialisations
bool ready = false; char kept_state[16];
__thread int me = -1;
std::uintptr_t mutexes[32];
void* map(std::size_t n) { return mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
inline bool in(void const* p, char const* base, std::size_t n) { return p >= base && p < base + n; }
inline void access(void const* p, std::size_t n, bool write)
{
    if (me < 0) return;
    thread_state& t = *st[me]; ++t.accesses;
    if ((p >= t.stack_lo && p < t.stack_hi) || in(p, t.arena, arena_size) || t.guards || !n) return;
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    entry& r = t.recent[(a ^ (n << 6) ^ (write ? 2048 : 0)) & 4095];
    if (r.at == a && r.n == n && r.write == write && r.locks == t.locks && r.epoch == t.epoch) return;
    r.at = a; r.n = std::uint32_t(n); r.locks = t.locks; r.epoch = t.epoch; r.write = write;
    if (t.logged < log_size) t.log[t.logged++] = r; else t.full = true;
}
// an atomic access: it synchronises, and is no conflict itself
inline void atomic(void const volatile* p, bool store)
{
    if (me < 0) return;
    thread_state& t = *st[me]; if (p >= t.stack_lo && p < t.stack_hi) return;
    if (in(const_cast<void const*>(p), t.arena, arena_size)) return;
    if (t.synced < sizeof t.syncs / sizeof *t.syncs) { t.syncs[t.synced++] = {reinterpret_cast<std::uintptr_t>(p), t.epoch, store}; ++t.epoch; } else t.full = true;
}
inline void* grab(std::size_t n, std::size_t align = 16)
{
    thread_state& t = *st[me];
    char* base = t.guards ? shared_arena : t.arena; std::size_t& used = t.guards ? shared_used : t.used;
    used = (used + align - 1) / align * align + 16;
    used = (used + align - 1) / align * align;
    if (used + n > arena_size) return nullptr;
    char* p = base + used; *reinterpret_cast<std::size_t*>(p - 8) = n; used += n; return p;
}
inline bool ours(void* p) { return ready && (in(p, st[0]->arena, arena_size) || in(p, st[1]->arena, arena_size) || in(p, shared_arena, arena_size)); }
}
namespace {
// the program's own variables and memory; libstdc++ and the C library look after theirs
std::uintptr_t program_lo = 0, program_hi = 0;
int first_object(dl_phdr_info* i, std::size_t, void*)
{
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD)
    {
        std::uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
        if (!program_lo || lo < program_lo) program_lo = lo;
        if (hi > program_hi) program_hi = hi;
    }
    return 1;
}
int other_objects(dl_phdr_info* i, std::size_t, void* p)
{
    std::uintptr_t a = *static_cast<std::uintptr_t*>(p);
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD)
    {
        std::uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        if (a >= lo && a < lo + i->dlpi_phdr[k].p_memsz) return 1;
    }
    return 0;
}
bool program(std::uintptr_t a)
{
    if (a >= program_lo && a < program_hi) return true;
    return dl_iterate_phdr(other_objects, &a) == 0;
}
}
namespace rt {
void start(int k)
{
    pthread_attr_t at; void* lo; std::size_t n;
    pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at);
    st[k]->stack_lo = static_cast<char*>(lo); st[k]->stack_hi = st[k]->stack_lo + n;
    me = k;
}
void stop() { me = -1; }
void init()
{
    for (int k = 0; k < threads; ++k)
    {
        st[k] = static_cast<thread_state*>(map(sizeof(thread_state)));
        st[k]->arena = static_cast<char*>(map(arena_size)); st[k]->log = static_cast<entry*>(map(log_size * sizeof(entry)));
    }
    shared_arena = static_cast<char*>(map(arena_size)); ready = true;
    dl_iterate_phdr(first_object, nullptr);
}
result compare()
{
    result r; r.accesses = st[0]->accesses + st[1]->accesses; r.shared = 0; r.complete = !st[0]->full && !st[1]->full;
    // ordered(e, f): the atomic accesses order thread 0's entry before thread 1's (thread 0 ran first)
    std::map<std::uintptr_t, std::uint32_t> release;
    for (std::size_t i = 0; i < st[0]->synced; ++i) if (st[0]->syncs[i].store && program(st[0]->syncs[i].at)) release[st[0]->syncs[i].at] = st[0]->syncs[i].epoch;
    std::vector<std::pair<std::uint32_t, std::uint32_t>> edges;
    for (std::size_t i = 0; i < st[1]->synced; ++i) { auto f = release.find(st[1]->syncs[i].at); if (f != release.end()) edges.push_back({f->second, st[1]->syncs[i].epoch}); }
    auto ordered = [&](entry const& e, entry const& f) { for (auto const& g : edges) if (e.epoch <= g.first && f.epoch > g.second) return true; return false; };
    std::map<std::uintptr_t, std::vector<entry>> first;
    for (std::size_t i = 0; i < st[0]->logged; ++i)
    {
        entry const& e = st[0]->log[i];
        for (std::uintptr_t a = e.at; a < e.at + e.n; ++a)
        {
            auto& v = first[a]; bool known = false;
            for (auto const& o : v) known = known || (o.write == e.write && o.locks == e.locks && o.epoch == e.epoch);
            if (!known) v.push_back(e);
        }
    }
    std::map<std::uintptr_t, bool> shared;
    for (std::size_t i = 0; i < st[1]->logged; ++i)
    {
        entry const& f = st[1]->log[i];
        for (std::uintptr_t a = f.at; a < f.at + f.n; ++a)
        {
            bool bad = false;
            auto k = first.find(a);
            if (k == first.end()) continue;
            for (auto const& e : k->second) bad = bad || ((e.write || f.write) && !(e.locks & f.locks) && !ordered(e, f));
            bool& s = shared[a]; s = s || bad;
        }
    }
    for (auto const& b : shared) { ++r.shared; if (b.second && program(b.first)) r.conflicts.push_back({b.first, false}); }
    // memory which the other thread allocated was written by it
    for (int k = 0; k < threads; ++k) for (std::size_t i = 0; i < st[k]->logged; ++i)
    {
        entry const& e = st[k]->log[i];
        if (!in(reinterpret_cast<void*>(e.at), st[1 - k]->arena, arena_size) || e.locks) continue;
        bool ok = k == 0; // a thing that thread 0 saw must have been ordered before: impossible, it ran first
        if (k == 1) for (auto const& g : edges) ok = ok || e.epoch > g.second;
        if (!ok) r.conflicts.push_back({e.at, true});
    }
    for (int i = 0; i < st[0]->files; ++i) for (int k = 0; k < st[1]->files; ++k)
    {
        auto const& e = st[0]->file[i]; auto const& f = st[1]->file[k];
        if (!std::strcmp(e.name, f.name) && (e.write || f.write)) { r.files.push_back(e.name); }
    }
    return r;
}
std::string where(std::uintptr_t a)
{
    Dl_info d; std::memset(&d, 0, sizeof d);
    if (a >= reinterpret_cast<std::uintptr_t>(kept_state) && a < reinterpret_cast<std::uintptr_t>(kept_state) + sizeof kept_state) return "state that the C library keeps for the whole process";
    if (dladdr(reinterpret_cast<void*>(a), &d) && d.dli_sname) return d.dli_sname;
    return d.dli_fname ? "a variable of the program" : "the heap";
}
}
extern "C" {
void* malloc(std::size_t n) { return me < 0 ? __libc_malloc(n) : grab(n); }
void* calloc(std::size_t a, std::size_t b) { return me < 0 ? __libc_calloc(a, b) : grab(a * b); }
void* realloc(void* p, std::size_t n)
{
    if (me < 0 && !ours(p)) return __libc_realloc(p, n);
    if (p && !ours(p)) { int k = me; me = -1; void* q = __libc_realloc(p, n); me = k; return q; }
    void* q = malloc(n); if (p && q) { std::size_t o = reinterpret_cast<std::size_t*>(p)[-1]; std::memcpy(q, p, o < n ? o : n); } return q;
}
void free(void* p) { if (p && !ours(p)) __libc_free(p); }
void* memalign(std::size_t a, std::size_t n) { return me < 0 ? __libc_memalign(a, n) : grab(n, a < 16 ? 16 : a); }
void* aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
int posix_memalign(void** p, std::size_t a, std::size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }

int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
static std::uint32_t bit(void* m) { for (int k = 0; k < 32; ++k) { if (!mutexes[k]) mutexes[k] = reinterpret_cast<std::uintptr_t>(m); if (mutexes[k] == reinterpret_cast<std::uintptr_t>(m)) return 1u << k; } return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { int r = __real_pthread_mutex_lock(m); if (me >= 0) st[me]->locks |= bit(m); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (me >= 0) st[me]->locks &= ~bit(m); return __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_rdlock(m); if (me >= 0) st[me]->locks |= bit(m); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_wrlock(m); if (me >= 0) st[me]->locks |= bit(m); return r; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (me >= 0) st[me]->locks &= ~bit(m); return __real_pthread_rwlock_unlock(m); }
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { if (me >= 0) ++st[me]->guards; int r = __real_pthread_once(o, f); if (me >= 0) --st[me]->guards; return r; }
int __real___cxa_guard_acquire(void*); void __real___cxa_guard_release(void*); void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g) { int r = __real___cxa_guard_acquire(g); if (r && me >= 0) ++st[me]->guards; return r; }
void __wrap___cxa_guard_release(void* g) { if (me >= 0) --st[me]->guards; __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(void* g) { if (me >= 0) --st[me]->guards; __real___cxa_guard_abort(g); }

void* __real_memcpy(void*, void const*, std::size_t); void* __real_memmove(void*, void const*, std::size_t); void* __real_memset(void*, int, std::size_t); int __real_memcmp(void const*, void const*, std::size_t); std::size_t __real_strlen(char const*);
void* __wrap_memcpy(void* d, void const* s, std::size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, void const* s, std::size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(void const* a, void const* b, std::size_t n) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
std::size_t __wrap_strlen(char const* s) { std::size_t n = __real_strlen(s); access(s, n + 1, false); return n; }

// functions of the C library that keep state for the whole process
static void kept(int k) { access(&kept_state[k], 1, true); }
char* __real_strtok(char*, char const*); char* __wrap_strtok(char* a, char const* b) { kept(0); return __real_strtok(a, b); }
tm* __real_localtime(time_t const*); tm* __wrap_localtime(time_t const* t) { kept(1); return __real_localtime(t); }
tm* __real_gmtime(time_t const*); tm* __wrap_gmtime(time_t const* t) { kept(1); return __real_gmtime(t); }
char* __real_asctime(tm const*); char* __wrap_asctime(tm const* t) { kept(2); return __real_asctime(t); }
char* __real_ctime(time_t const*); char* __wrap_ctime(time_t const* t) { kept(2); return __real_ctime(t); }
char* __real_setlocale(int, char const*); char* __wrap_setlocale(int c, char const* l) { if (l) kept(3); return __real_setlocale(c, l); }
int __real_chdir(char const*); int __wrap_chdir(char const* d) { kept(4); return __real_chdir(d); }
mode_t __real_umask(mode_t); mode_t __wrap_umask(mode_t m) { kept(5); return __real_umask(m); }
int __real_setenv(char const*, char const*, int); int __wrap_setenv(char const* a, char const* b, int c) { kept(6); return __real_setenv(a, b, c); }

// files: libstdc++ opens them with these
static void file(char const* name, bool write)
{
    if (me < 0 || !name) return;
    thread_state& t = *st[me]; if (t.files == 256) { t.full = true; return; }
    auto& f = t.file[t.files++]; std::strncpy(f.name, name, sizeof f.name - 1); f.write = write;
}
#define NEXT(f) reinterpret_cast<decltype(&f)>(dlsym(RTLD_NEXT, #f))
FILE* fopen(char const* n, char const* m) { file(n, std::strpbrk(m, "wa+") != nullptr); return NEXT(fopen)(n, m); }
FILE* fopen64(char const* n, char const* m) { file(n, std::strpbrk(m, "wa+") != nullptr); return NEXT(fopen64)(n, m); }
int open(char const* n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); file(n, (f & 3) != 0); return NEXT(open)(n, f, m); }
int open64(char const* n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); file(n, (f & 3) != 0); return NEXT(open64)(n, f, m); }
int rename(char const* a, char const* b) noexcept { file(a, true); file(b, true); return NEXT(rename)(a, b); }
int remove(char const* a) noexcept { file(a, true); return NEXT(remove)(a); }
int unlink(char const* a) noexcept { file(a, true); return NEXT(unlink)(a); }

void __tsan_init() {}
void __tsan_func_entry(void*) { if (me >= 0) ++st[me]->calls; }
void __tsan_func_exit() {}
#define HOOKS(n) \
    void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false); } void __tsan_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); } \
    void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
HOOKS(1) HOOKS(2) HOOKS(4) HOOKS(8) HOOKS(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, sizeof(void*), true); }
void __tsan_vptr_read(void** p) { access(p, sizeof(void*), false); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
// atomic accesses synchronise; they are no conflicts
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile* p, int) { atomic(p, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(T volatile* p, T v, int) { atomic(p, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(T volatile* p, T v, int) { atomic(p, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(T volatile* p, T v, int) { atomic(p, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(T volatile* p, T v, int) { atomic(p, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(T volatile* p, T v, int) { atomic(p, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(T volatile* p, T v, int) { atomic(p, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(T volatile* p, T v, int) { atomic(p, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(T volatile* p, T* e, T v, int, int) { atomic(p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_weak(T volatile* p, T* e, T v, int, int) { atomic(p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMIC(8, std::uint8_t) ATOMIC(16, std::uint16_t) ATOMIC(32, std::uint32_t) ATOMIC(64, std::uint64_t)
}
