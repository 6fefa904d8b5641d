// Faults of the device below the file streams: write(2) and writev(2) of this program go
// through here, so that a harness can decide which of them fails and how.
#ifndef VERIF_BADWRITE_HPP
#define VERIF_BADWRITE_HPP
#include <cerrno>
#include <cstddef>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace badwrite {
enum kind { none, count, error_once, chunk, interrupted };
struct plan_t
{
    kind what = none;
    long at = 0;        // error_once: the number of the call that fails
    std::size_t n = 0;  // chunk: a write takes at most n bytes
    int err = EIO;
    long calls = 0, hits = 0;
    bool turn = false;
};
inline plan_t& plan() { static plan_t p; return p; }
inline ssize_t do_write(int fd, void const* b, std::size_t n)
{
    plan_t& p = plan();
    if (p.what == none || fd <= 2) return ssize_t(syscall(SYS_write, fd, b, n));
    long call = p.calls++;
    if (p.what == error_once && call == p.at) { ++p.hits; errno = p.err; return -1; }
    if (p.what == interrupted) { p.turn = !p.turn; if (p.turn) { ++p.hits; errno = EINTR; return -1; } }
    if (p.what == chunk && n > p.n) { n = p.n; ++p.hits; }
    return ssize_t(syscall(SYS_write, fd, b, n));
}
}
extern "C" ssize_t write(int fd, void const* b, size_t n) { return badwrite::do_write(fd, b, n); }
extern "C" ssize_t writev(int fd, struct iovec const* v, int n)
{
    ssize_t all = 0;
    for (int k = 0; k < n; ++k)
    {
        if (!v[k].iov_len) continue;
        ssize_t r = badwrite::do_write(fd, v[k].iov_base, v[k].iov_len);
        if (r < 0) return all ? all : r;
        all += r;
        if (std::size_t(r) < v[k].iov_len) break;
    }
    return all;
}
#endif
