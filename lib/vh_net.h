// The system calls the library makes (linked with --wrap): passed on, after being recorded, cut short, interrupted or failed.
// Everything is configured per thread, so that what the harness' own threads do isn't affected.
#ifndef VH_NET_H
#define VH_NET_H
#include "vh.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <dirent.h>
#include <map>
#include <set>

namespace vn
{
    struct Hook
    {
        bool on = false;
        // faults in reading and writing
        vh::Rng *rng = nullptr;
        unsigned eintr_pct = 0, again_pct = 0, short_pct = 0;
        bool again_blocking = false; // also on blocking descriptors, as if their timeout had passed
        size_t max_chunk = 16;
        int only_fd = -1;
        // observations
        uint64_t recv_calls = 0, recv_bytes = 0, send_calls = 0, send_bytes = 0, eintrs = 0, agains = 0, shorts = 0;
        // asked before every other call: returns true to fail it with 'err' (or to return 'err' in the case of getaddrinfo)
        std::function<bool(const char *name, int fd, int &err)> fail;
        std::function<void(const char *name, int fd, long result, int err)> after;
        // the error with which connecting to an address is going to fail, once the socket is ready (0: as it really goes)
        std::function<int(const sockaddr *to)> fails_later;
        std::map<int, int> pending;
        uint64_t failed_later = 0;
        std::function<int(const char *node, const char *service, const addrinfo *hints, addrinfo **res)> resolve;
        void reset() { *this = Hook(); }
    };
    inline Hook &hook() { static thread_local Hook h; return h; }
    struct HookScope
    {
        HookScope() { hook().reset(); hook().on = true; }
        ~HookScope() { hook().reset(); }
        Hook *operator->() { return &hook(); }
    };
}
extern "C"
{
    ssize_t __real_recv(int, void*, size_t, int);
    ssize_t __real_send(int, const void*, size_t, int);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    ssize_t __real_recvmsg(int, struct msghdr*, int);
    ssize_t __real_sendmsg(int, const struct msghdr*, int);
    ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
    ssize_t __real_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
    ssize_t __real_readv(int, const struct iovec*, int);
    ssize_t __real_writev(int, const struct iovec*, int);
    int __real_socket(int, int, int);
    int __real_bind(int, const struct sockaddr*, socklen_t);
    int __real_listen(int, int);
    int __real_connect(int, const struct sockaddr*, socklen_t);
    int __real_accept(int, struct sockaddr*, socklen_t*);
    int __real_accept4(int, struct sockaddr*, socklen_t*, int);
    int __real_setsockopt(int, int, int, const void*, socklen_t);
    int __real_getsockopt(int, int, int, void*, socklen_t*);
    int __real_fcntl(int, int, ...);
    int __real_fcntl64(int, int, ...);
    int __real_select(int, fd_set*, fd_set*, fd_set*, struct timeval*);
    int __real_poll(struct pollfd*, nfds_t, int);
    int __real_ppoll(struct pollfd*, nfds_t, const struct timespec*, const sigset_t*);
    int __real_close(int);
    int __real_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**);
    int __real_epoll_create(int);
    int __real_epoll_create1(int);
    int __real_epoll_ctl(int, int, int, struct epoll_event*);
    int __real_epoll_wait(int, struct epoll_event*, int, int);
    int __real_shutdown(int, int);
}
namespace vn
{
    // Lets a closed TCP connection go as soon as the other side knows, instead of occupying a port for a minute
    inline int brief(int fd)
    {
        if(fd < 0) return fd;
        int e = errno, v = -1;
        __real_setsockopt(fd, IPPROTO_TCP, TCP_LINGER2, &v, sizeof v);
        errno = e;
        return fd;
    }
}
#ifdef VH_MAIN
namespace vn
{
    enum Verdict { Go, Stop };
    // What becomes of a transfer of n bytes
    static Verdict transfer(int fd, size_t &n)
    {
        Hook &h = hook();
        if(!h.on || !h.rng || (h.only_fd >= 0 && h.only_fd != fd)) return Go;
        if(h.eintr_pct && h.rng->below(100) < h.eintr_pct) { h.eintrs++; errno = EINTR; return Stop; }
        if(h.again_pct && h.rng->below(100) < h.again_pct && (h.again_blocking || (__real_fcntl(fd, F_GETFL, 0) & O_NONBLOCK))) { h.agains++; errno = EAGAIN; return Stop; }
        if(n > 1 && h.short_pct && h.rng->below(100) < h.short_pct) { size_t m = 1 + (size_t)h.rng->below(h.max_chunk); if(m < n) { n = m; h.shorts++; } }
        return Go;
    }
    static bool failing(const char *name, int fd)
    {
        Hook &h = hook();
        int err = 0;
        if(h.on && h.fail && h.fail(name, fd, err)) { errno = err; return true; }
        return false;
    }
    static long done(const char *name, int fd, long r)
    {
        Hook &h = hook();
        if(h.on && h.after) { int e = errno; h.after(name, fd, r, e); errno = e; }
        return r;
    }
    static ssize_t moved_in(const char *name, int fd, ssize_t r) { if(r > 0) hook().recv_bytes += (uint64_t)r; return done(name, fd, r); }
    static ssize_t moved_out(const char *name, int fd, ssize_t r) { if(r > 0) hook().send_bytes += (uint64_t)r; return done(name, fd, r); }
}
#define VN_FAIL(name, fd) if(vn::failing(name, fd)) return (int)vn::done(name, fd, -1)
extern "C"
{
    ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { vn::hook().recv_calls++; if(vn::failing("recv", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("recv", fd, -1); return vn::moved_in("recv", fd, __real_recv(fd, p, n, f)); }
    ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { vn::hook().send_calls++; if(vn::failing("send", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("send", fd, -1); return vn::moved_out("send", fd, __real_send(fd, p, n, f)); }
    ssize_t __wrap_read(int fd, void *p, size_t n) { vn::hook().recv_calls++; if(vn::failing("recv", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("recv", fd, -1); return vn::moved_in("recv", fd, __real_read(fd, p, n)); }
    ssize_t __wrap_write(int fd, const void *p, size_t n) { if(fd > 2) { vn::hook().send_calls++; if(vn::failing("send", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("send", fd, -1); } return vn::moved_out("send", fd, __real_write(fd, p, n)); }
    ssize_t __wrap_recvfrom(int fd, void *p, size_t n, int f, struct sockaddr *a, socklen_t *l) { vn::hook().recv_calls++; if(vn::failing("recv", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("recv", fd, -1); return vn::moved_in("recv", fd, __real_recvfrom(fd, p, n, f, a, l)); }
    ssize_t __wrap_sendto(int fd, const void *p, size_t n, int f, const struct sockaddr *a, socklen_t l) { vn::hook().send_calls++; if(vn::failing("send", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("send", fd, -1); return vn::moved_out("send", fd, __real_sendto(fd, p, n, f, a, l)); }
    // Of these only the first buffer is used when cut short
    ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f)
    {
        vn::hook().recv_calls++;
        size_t n = SIZE_MAX / 2;
        if(vn::failing("recv", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("recv", fd, -1);
        if(n != SIZE_MAX / 2 && m->msg_iovlen) { iovec v = m->msg_iov[0]; v.iov_len = std::min(v.iov_len, n); msghdr c = *m; c.msg_iov = &v; c.msg_iovlen = 1; if(v.iov_len) return vn::moved_in("recv", fd, __real_recvmsg(fd, &c, f)); }
        return vn::moved_in("recv", fd, __real_recvmsg(fd, m, f));
    }
    ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f)
    {
        vn::hook().send_calls++;
        size_t n = SIZE_MAX / 2;
        if(vn::failing("send", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("send", fd, -1);
        if(n != SIZE_MAX / 2 && m->msg_iovlen) { iovec v = m->msg_iov[0]; v.iov_len = std::min(v.iov_len, n); msghdr c = *m; c.msg_iov = &v; c.msg_iovlen = 1; if(v.iov_len) return vn::moved_out("send", fd, __real_sendmsg(fd, &c, f)); }
        return vn::moved_out("send", fd, __real_sendmsg(fd, m, f));
    }
    ssize_t __wrap_readv(int fd, const struct iovec *v, int c)
    {
        vn::hook().recv_calls++;
        size_t n = SIZE_MAX / 2;
        if(vn::failing("recv", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("recv", fd, -1);
        if(n != SIZE_MAX / 2 && c && v[0].iov_len) return vn::moved_in("recv", fd, __real_read(fd, v[0].iov_base, std::min(n, v[0].iov_len)));
        return vn::moved_in("recv", fd, __real_readv(fd, v, c));
    }
    ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
    {
        vn::hook().send_calls++;
        size_t n = SIZE_MAX / 2;
        if(vn::failing("send", fd) || vn::transfer(fd, n) == vn::Stop) return vn::done("send", fd, -1);
        if(n != SIZE_MAX / 2 && c && v[0].iov_len) return vn::moved_out("send", fd, __real_write(fd, v[0].iov_base, std::min(n, v[0].iov_len)));
        return vn::moved_out("send", fd, __real_writev(fd, v, c));
    }
    int __wrap_socket(int d, int t, int p) { VN_FAIL("socket", -1); return (int)vn::done("socket", -1, vn::brief(__real_socket(d, t, p))); }
    int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { VN_FAIL("bind", fd); return (int)vn::done("bind", fd, __real_bind(fd, a, l)); }
    int __wrap_listen(int fd, int n) { VN_FAIL("listen", fd); return (int)vn::done("listen", fd, __real_listen(fd, n)); }
    int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
    {
        VN_FAIL("connect", fd);
        auto &k = vn::hook();
        if(k.on && k.fails_later)
        {
            auto p = k.pending.find(fd);
            if(p != k.pending.end()) { errno = p->second; k.pending.erase(p); k.failed_later++; return (int)vn::done("connect", fd, -1); }
            if(int e = k.fails_later(a))
            {
                // An idle socket is ready for writing, and hung up, as is one which didn't make it
                if(__real_fcntl(fd, F_GETFL, 0) & O_NONBLOCK) { k.pending[fd] = e; errno = EINPROGRESS; }
                else errno = e, k.failed_later++;
                return (int)vn::done("connect", fd, -1);
            }
        }
        return (int)vn::done("connect", fd, __real_connect(fd, a, l));
    }
    int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { VN_FAIL("accept", fd); return (int)vn::done("accept", fd, vn::brief(__real_accept(fd, a, l))); }
    int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { VN_FAIL("accept", fd); return (int)vn::done("accept", fd, vn::brief(__real_accept4(fd, a, l, f))); }
    int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { VN_FAIL("setsockopt", fd); return (int)vn::done("setsockopt", fd, __real_setsockopt(fd, l, o, v, n)); }
    int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
    {
        VN_FAIL("getsockopt", fd);
        auto &k = vn::hook();
        if(k.on && l == SOL_SOCKET && o == SO_ERROR && k.pending.count(fd))
        {
            *(int*)v = k.pending[fd];
            k.pending.erase(fd);
            k.failed_later++;
            return (int)vn::done("getsockopt", fd, 0);
        }
        return (int)vn::done("getsockopt", fd, __real_getsockopt(fd, l, o, v, n));
    }
    int __wrap_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); VN_FAIL("fcntl", fd); return (int)vn::done("fcntl", fd, __real_fcntl(fd, c, v)); }
    int __wrap_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); long v = va_arg(a, long); va_end(a); VN_FAIL("fcntl", fd); return (int)vn::done("fcntl", fd, __real_fcntl(fd, c, v)); }
    int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { VN_FAIL("poll", n - 1); return (int)vn::done("poll", n - 1, __real_select(n, r, w, e, t)); }
    int __wrap_poll(struct pollfd *p, nfds_t n, int t) { VN_FAIL("poll", n ? p->fd : -1); return (int)vn::done("poll", n ? p->fd : -1, __real_poll(p, n, t)); }
    int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s) { VN_FAIL("poll", n ? p->fd : -1); return (int)vn::done("poll", n ? p->fd : -1, __real_ppoll(p, n, t, s)); }
    int __wrap_close(int fd) { vn::hook().pending.erase(fd); return (int)vn::done("close", fd, __real_close(fd)); }
    int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
    {
        auto &k = vn::hook();
        int err = 0;
        if(k.on && k.fail && k.fail("getaddrinfo", -1, err)) return err;
        if(k.on && k.resolve) return k.resolve(n, s, h, r);
        return __real_getaddrinfo(n, s, h, r);
    }
    int __wrap_epoll_create(int n) { VN_FAIL("epoll_create", -1); return (int)vn::done("epoll_create", -1, __real_epoll_create(n)); }
    int __wrap_epoll_create1(int n) { VN_FAIL("epoll_create", -1); return (int)vn::done("epoll_create", -1, __real_epoll_create1(n)); }
    int __wrap_epoll_ctl(int e, int o, int fd, struct epoll_event *v) { VN_FAIL("epoll_ctl", fd); return (int)vn::done("epoll_ctl", fd, __real_epoll_ctl(e, o, fd, v)); }
    int __wrap_epoll_wait(int e, struct epoll_event *v, int n, int t) { VN_FAIL("epoll_wait", e); return (int)vn::done("epoll_wait", e, __real_epoll_wait(e, v, n, t)); }
    int __wrap_shutdown(int fd, int h) { VN_FAIL("shutdown", fd); return (int)vn::done("shutdown", fd, __real_shutdown(fd, h)); }
}
#endif

namespace vn
{
    [[noreturn]] inline void broken(const std::string &why)
    {
        fprintf(stderr, "harness failure: %s (%s)\n", why.c_str(), strerror(errno));
        fflush(stderr);
        _exit(94);
    }
    struct Fd
    {
        int fd = -1;
        Fd() {}
        explicit Fd(int f) : fd(f) {}
        Fd(Fd &&o) : fd(o.fd) { o.fd = -1; }
        Fd &operator=(Fd &&o) { if(this != &o) { reset(); fd = o.fd; o.fd = -1; } return *this; }
        ~Fd() { reset(); }
        void reset() { if(fd >= 0) __real_close(fd); fd = -1; }
        int release() { int f = fd; fd = -1; return f; }
    };
    inline std::pair<Fd, Fd> pair()
    {
        int f[2];
        if(::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, f)) broken("socketpair");
        return std::make_pair(Fd(f[0]), Fd(f[1]));
    }
    // A TCP listener of the harness' own, on the loopback interface
    struct Server
    {
        Fd fd;
        uint16_t port = 0;
        explicit Server(int family = AF_INET, int backlog = 64, uint16_t want = 0, bool any = false)
        {
            fd.fd = brief(__real_socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0));
            if(fd.fd < 0) { port = 0; return; }
            int one = 1;
            __real_setsockopt(fd.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
            sockaddr_storage s{};
            socklen_t l;
            if(family == AF_INET) { auto *a = (sockaddr_in*)&s; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(any ? INADDR_ANY : INADDR_LOOPBACK); a->sin_port = htons(want); l = sizeof *a; }
            else { auto *a = (sockaddr_in6*)&s; a->sin6_family = AF_INET6; a->sin6_addr = any ? in6addr_any : in6addr_loopback; a->sin6_port = htons(want); l = sizeof *a; __real_setsockopt(fd.fd, IPPROTO_IPV6, IPV6_V6ONLY, &one, sizeof one); }
            if(__real_bind(fd.fd, (sockaddr*)&s, l) || __real_listen(fd.fd, backlog)) { fd.reset(); return; }
            l = sizeof s;
            getsockname(fd.fd, (sockaddr*)&s, &l);
            port = ntohs(family == AF_INET ? ((sockaddr_in*)&s)->sin_port : ((sockaddr_in6*)&s)->sin6_port);
        }
        std::string port_text() const { return std::to_string(port); }
        Fd accept() { return Fd(brief(__real_accept(fd.fd, nullptr, nullptr))); }
        // waits at most this long
        Fd accept_within(int ms) { pollfd p{fd.fd, POLLIN, 0}; return __real_poll(&p, 1, ms) == 1 ? accept() : Fd(); }
    };
    inline Fd dial(uint16_t port, int family = AF_INET)
    {
        Fd f(brief(__real_socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0)));
        sockaddr_in a{}; sockaddr_in6 b{};
        a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port);
        b.sin6_family = AF_INET6; b.sin6_addr = in6addr_loopback; b.sin6_port = htons(port);
        int r = family == AF_INET ? __real_connect(f.fd, (sockaddr*)&a, sizeof a) : __real_connect(f.fd, (sockaddr*)&b, sizeof b);
        if(r) f.reset();
        int one = 1;
        if(f.fd >= 0) __real_setsockopt(f.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        return f;
    }
    inline int port_of(int fd, bool peer = false)
    {
        sockaddr_storage s{};
        socklen_t l = sizeof s;
        if(peer ? getpeername(fd, (sockaddr*)&s, &l) : getsockname(fd, (sockaddr*)&s, &l)) return -1;
        return ntohs(s.ss_family == AF_INET ? ((sockaddr_in*)&s)->sin_port : ((sockaddr_in6*)&s)->sin6_port);
    }
    // Two connected ends, over TCP
    inline std::pair<Fd, Fd> tcp_pair()
    {
        Server s;
        Fd a = dial(s.port);
        Fd b = s.accept();
        if(a.fd < 0 || b.fd < 0) broken("tcp_pair");
        return std::make_pair(std::move(a), std::move(b));
    }
    inline bool write_all(int fd, const std::string &s)
    {
        size_t at = 0;
        while(at < s.size())
        {
            ssize_t n = __real_send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if(n < 0 && errno == EINTR) continue;
            if(n < 0 && errno == EAGAIN) { pollfd p{fd, POLLOUT, 0}; __real_poll(&p, 1, 1000); continue; }
            if(n <= 0) return false;
            at += (size_t)n;
        }
        return true;
    }
    // Reads until there's as much, the end, or nothing for a while
    inline std::string read_some(int fd, size_t most, int patience_ms = 2000, bool *ended = nullptr)
    {
        std::string s;
        char b[65536];
        if(ended) *ended = false;
        while(s.size() < most)
        {
            pollfd p{fd, POLLIN, 0};
            if(__real_poll(&p, 1, patience_ms) <= 0) break;
            ssize_t n = __real_recv(fd, b, std::min(sizeof b, most - s.size()), MSG_DONTWAIT);
            if(n < 0 && (errno == EINTR || errno == EAGAIN)) continue;
            if(n <= 0) { if(ended) *ended = true; break; }
            s.append(b, (size_t)n);
        }
        return s;
    }
    // Whether the other side has closed: 1 closed, 0 open, within the time given. Discards data.
    inline int closed_within(int fd, int ms)
    {
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
        char b[4096];
        for(;;)
        {
            pollfd p{fd, POLLIN, 0};
            auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
            if(left < 0 || __real_poll(&p, 1, (int)left) <= 0) return 0;
            ssize_t n = __real_recv(fd, b, sizeof b, MSG_DONTWAIT);
            if(n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) return 1;
        }
    }
    inline void buffers(int fd, int bytes) { __real_setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &bytes, sizeof bytes); __real_setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &bytes, sizeof bytes); }
    // A stream every position of which is different
    inline std::string stream(size_t n, uint64_t seed)
    {
        std::string s(n, '\0');
        for(size_t a = 0; a < n; a += 8) { uint64_t v = vh::mix(seed + a); memcpy(&s[a], &v, std::min<size_t>(8, n - a)); }
        return s;
    }
    // How large something large is. Usually more than fits into a socket, seldom more than three bytes can tell.
    inline size_t large(vh::Rng &r, size_t most = 24000000)
    {
        size_t n = r.below(8) ? r.range(60000, r.pick<size_t>({140000, 700000, 3000000})) : r.range(16700000, 17500000);
        return std::min(n, most);
    }
    inline void reset_connection(Fd &f) { linger l{1, 0}; __real_setsockopt(f.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); f.reset(); }
    // Open descriptors and what they refer to
    inline std::map<int, std::string> descriptors()
    {
        std::map<int, std::string> r;
        DIR *d = opendir("/proc/self/fd");
        if(!d) broken("/proc/self/fd");
        char b[256];
        while(dirent *e = readdir(d))
        {
            if(e->d_name[0] == '.') continue;
            int n = atoi(e->d_name);
            if(n == dirfd(d)) continue;
            std::string p = std::string("/proc/self/fd/") + e->d_name;
            ssize_t l = readlink(p.c_str(), b, sizeof b - 1);
            if(l > 6 && !memcmp(b, "/proc/", 6)) continue; // AddressSanitizer looks up the memory used now and then
            if(l > 0) r[n] = std::string(b, (size_t)l);
        }
        closedir(d);
        return r;
    }
    inline double ms_since(std::chrono::steady_clock::time_point t) { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t).count(); }
    typedef std::chrono::steady_clock Clock;
}
#endif
