// Faults of the device below the file streams: read(2) and readv(2) of this program go
// through here, so that a harness can decide what happens at every byte of a file.
#ifndef VERIF_BADREAD_HPP
#define VERIF_BADREAD_HPP
#include <cerrno>
#include <cstddef>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

namespace badread {
enum kind { none, error, error_once, shorter, chunk, interrupted };
struct plan_t
{
    kind what = none;
    long long from = 0, to = 0;   // the bytes [from, to) cannot be read
    std::size_t n = 0;            // chunk: a read gives at most n bytes
    int err = EIO;
    long long size = 0;           // of the file
    long hits = 0, calls = 0;
    bool turn = false;
};
inline plan_t& plan() { static plan_t p; return p; }
inline ssize_t do_read(int fd, void* b, std::size_t n)
{
    plan_t& p = plan();
    if (p.what == none) return ssize_t(syscall(SYS_read, fd, b, n));
    long long at = lseek(fd, 0, SEEK_CUR);
    if (at < 0) return ssize_t(syscall(SYS_read, fd, b, n));
    ++p.calls;
    if (p.what == interrupted) { p.turn = !p.turn; if (p.turn) { ++p.hits; errno = EINTR; return -1; } }
    if (p.what == chunk) { if (n > p.n) { n = p.n; ++p.hits; } }
    if (p.what == error || p.what == error_once || p.what == shorter)
    {
        if (at >= p.from && at < p.to)
        {
            ++p.hits;
            if (p.what == shorter) return 0;
            if (p.what == error_once) p.what = none;
            errno = p.err; return -1;
        }
        if (at < p.from && n > std::size_t(p.from - at)) n = std::size_t(p.from - at);
    }
    return ssize_t(syscall(SYS_read, fd, b, n));
}
}
extern "C" ssize_t read(int fd, void* b, size_t n) { return badread::do_read(fd, b, n); }
extern "C" ssize_t readv(int fd, struct iovec const* v, int n)
{
    ssize_t all = 0;
    for (int k = 0; k < n; ++k)
    {
        ssize_t r = badread::do_read(fd, v[k].iov_base, v[k].iov_len);
        if (r < 0) return all ? all : r;
        all += r;
        if (std::size_t(r) < v[k].iov_len) break;
    }
    return all;
}
#endif
