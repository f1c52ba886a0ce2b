// Scenarios for the I/O wrappers: the system calls of the io sources are replaced by ones that fail, are not ready,
// are interrupted or complete as the scenario chooses.
#include <sys/socket.h>
#include <sys/stat.h>
#include "vsched.h"
#include "cocpp/io/co_client.h"
#include "cocpp/io/co_file.h"
#include "cocpp/io/co_net.h"
#include <cstdarg>
#include <cstring>
#include <fcntl.h>
#include <poll.h>
using namespace cocpp;
using namespace vs;
using vs::yields;
using std::string;
using std::vector;

struct Sys
{
    string only;           // the system call expected
    vector<long> want;     // its arguments
    int calls = 0;
    int left = 3;          // not-ready answers still possible
    bool done = false;     // a call completed the operation
    bool interrupted = false;
    bool owed = false;     // not ready: the caller has to yield
    long yields_at = 0;
    long ret = 0;
    int err = 0;
    long value = 7;        // result of success
    // status flags of the descriptor handed out
    long fl_fd = -2;
    long fl = 2;
    bool fl_fail = false;
    bool fl_failed = false;
} * sys;

static long answer(const char *name, vector<long> args, bool retry, int width = 64)
{
    note("%s(%ld, ...)", name, args.empty() ? 0 : args[0]);
    require(sys->only == name, "another system call than the one asked for was made");
    require(!sys->done, "a system call was made after the one that completed the operation");
    if (sys->owed)
        require(yields > sys->yields_at, "the coroutine asked again without yielding");
    sys->owed = false;
    ++sys->calls;
    for (size_t i = 0; i < args.size(); ++i)
        require(i < sys->want.size() && args[i] == sys->want[i], "the system call got other arguments than the caller's");
    int k = pick(retry && sys->left > 0 ? 4 : 2);
    sys->interrupted = false;
    if (k == 0)
    {
        sys->done = true;
        return sys->ret = sys->value;
    }
    if (k == 1)
    {
        sys->done = true;
        errno = sys->err = (int[]){ECONNRESET, EPIPE, EBADF}[pick(3)];
        return sys->ret = -1;
    }
    --sys->left;
    if (k == 2)
    {
        sys->owed = true;
        sys->yields_at = yields;
        errno = sys->err = EAGAIN;
        return -1;
    }
    sys->interrupted = true;
    errno = sys->err = EINTR;
    return sys->ret = -1;
}
// ---- whole buffers
static string stream; // what the peer sent, or what was written
static size_t stream_pos;
static bool cl_bad, cl_eof;
static unsigned char *cl_data;
static size_t cl_size;
struct TestClient : co_client
{
    TestClient()
    {
        endpoint__.fd__ = 5;
    }
    std::tuple<size_t, co_error> read(co_buffer &b) override { return co_client::read(b); }
    co_error read_n(co_buffer &b) override { return co_client::read_n(b); }
    std::tuple<size_t, co_error> write(const co_buffer &b) override { return co_client::write(b); }
    co_error write_n(const co_buffer &b) override { return co_client::write_n(b); }
    co_error close() override { return co_client::close(); }
    co_net get_endpoint() override { return co_client::get_endpoint(); }
};
static int part(void *b, size_t n, bool rd)
{
    require(!cl_bad && !cl_eof, "a transfer was made after an error or the end of the data");
    require(n == 0 || (unsigned char *)b == cl_data + stream_pos, "a transfer does not start where the one before ended");
    require(n <= cl_size - stream_pos, "more was asked for than is missing");
    if (n == 0)
        return 0;
    int k = pick(n > 1 ? 4 : 3);
    if (k == 2)
    {
        cl_bad = true;
        errno = EIO;
        return -1;
    }
    if (k == 1)
    {
        if (rd)
        {
            cl_eof = true;
            return 0;
        }
        k = 0;
    }
    size_t m = k == 0 ? n : n / 2;
    for (size_t i = 0; i < m; ++i)
        if (rd)
            ((char *)b)[i] = 'a' + (stream_pos + i) % 26;
        else
            stream += ((char *)b)[i];
    stream_pos += m;
    return m;
}
#define A(x) ((long)(x))
extern "C" {
ssize_t fake_read(int fd, void *b, size_t n) { return cl_data ? part(b, n, true) : answer("read", {fd, A(b), A(n)}, true); }
ssize_t fake_write(int fd, const void *b, size_t n) { return cl_data ? part((void *)b, n, false) : answer("write", {fd, A(b), A(n)}, true); }
int fake_close(int fd) { return answer("close", {fd}, false); }
off_t fake_lseek(int fd, off_t o, int w) { return answer("lseek", {fd, o, w}, false); }
off_t fake_lseek64(int fd, off_t o, int w) { return answer("lseek", {fd, o, w}, false); }
int fake_fchmod(int fd, mode_t m) { return answer("fchmod", {fd, A(m)}, false); }
int fake_fchown(int fd, uid_t u, gid_t g) { return answer("fchown", {fd, A(u), A(g)}, false); }
int fake_ftruncate(int fd, off_t l) { return answer("ftruncate", {fd, l}, false); }
int fake_ftruncate64(int fd, off_t l) { return answer("ftruncate", {fd, l}, false); }
int fake_fstat(int fd, struct stat *s) { return answer("fstat", {fd, A(s)}, false); }
int fake_fstat64(int fd, struct stat *s) { return answer("fstat", {fd, A(s)}, false); }
int fake_fsync(int fd) { return answer("fsync", {fd}, false); }
int fake_fdatasync(int fd) { return answer("fdatasync", {fd}, false); }
int fake_ioctl(int fd, unsigned long c, ...)
{
    va_list ap;
    va_start(ap, c);
    long a = va_arg(ap, long);
    va_end(ap);
    return answer("ioctl", {fd, A((int)c), a}, false);
}
int fake_fcntl(int fd, int c, ...)
{
    va_list ap;
    va_start(ap, c);
    long a = va_arg(ap, long);
    va_end(ap);
    if (sys->only == "fcntl")
        return answer("fcntl", {fd, c, a}, false);
    require(fd == sys->fl_fd, "the flags of another descriptor were changed");
    if (sys->fl_fail && pick(2))
    {
        sys->fl_failed = true;
        errno = EBADF;
        return -1;
    }
    if (c == F_GETFL)
        return sys->fl;
    if (c == F_SETFL)
    {
        sys->fl = (int)a;
        return 0;
    }
    abandon();
    return -1;
}
int fake_fcntl64(int fd, int c, ...)
{
    va_list ap;
    va_start(ap, c);
    long a = va_arg(ap, long);
    va_end(ap);
    return fake_fcntl(fd, c, a);
}
int fake_socket(int d, int t, int p) { return sys->fl_fd = answer("socket", {d, t, p}, false); }
int fake_accept(int fd, struct sockaddr *a, socklen_t *l) { return sys->fl_fd = answer("accept", {fd, A(a), A(l)}, true); }
int fake_open(const char *p, int f, ...)
{
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    if (f & O_NONBLOCK)
        sys->fl |= O_NONBLOCK;
    return sys->fl_fd = answer("open", {A(p), f & ~O_NONBLOCK, m}, false);
}
int fake_open64(const char *p, int f, ...)
{
    va_list ap;
    va_start(ap, f);
    int m = va_arg(ap, int);
    va_end(ap);
    return fake_open(p, f, m);
}
int fake_listen(int fd, int n) { return answer("listen", {fd, n}, false); }
int fake_bind(int fd, const struct sockaddr *a, socklen_t l) { return answer("bind", {fd, A(a), A(l)}, false); }
ssize_t fake_send(int fd, const void *b, size_t n, int f) { return answer("send", {fd, A(b), A(n), f}, true); }
ssize_t fake_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return answer("sendto", {fd, A(b), A(n), f, A(a), A(l)}, true); }
ssize_t fake_recv(int fd, void *b, size_t n, int f) { return answer("recv", {fd, A(b), A(n), f}, true); }
ssize_t fake_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { return answer("recvfrom", {fd, A(b), A(n), f, A(a), A(l)}, true); }
ssize_t fake_sendmsg(int fd, const struct msghdr *m, int f) { return answer("sendmsg", {fd, A(m), f}, true); }
ssize_t fake_recvmsg(int fd, struct msghdr *m, int f) { return answer("recvmsg", {fd, A(m), f}, true); }
int fake_shutdown(int fd, int h) { return answer("shutdown", {fd, h}, false); }
int fake_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return answer("setsockopt", {fd, l, o, A(v), A(n)}, false); }
}

// ---- connecting: 0 not asked, 1 under way, 2 established, 3 failed
static int conn, conn_err, conn_left;
static bool conn_hard, conn_owed;
static long conn_yields;
static void conn_round()
{
    if (conn_owed)
        require(yields > conn_yields, "the coroutine asked again without yielding");
    conn_owed = false;
}
extern "C" {
int fake_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    require(conn == 0, "the connection was attempted twice");
    require(fd == 5 && A(a) == 0x1000 && l == 16, "the system call got other arguments than the caller's");
    switch (pick(3))
    {
    case 0:
        conn = 2;
        return 0;
    case 1:
        conn = 1;
        errno = EINPROGRESS;
        return -1;
    default:
        conn = 3;
        errno = ECONNREFUSED;
        return -1;
    }
}
static int ready_round()
{
    conn_round();
    int k = pick(conn_left > 0 ? 5 : 3);
    if (k == 0 || k == 1)
    {
        if (conn == 1)
        {
            conn = k == 0 ? 2 : 3;
            conn_err = k == 0 ? 0 : pick(2) ? ECONNREFUSED : ETIMEDOUT;
        }
        return 1;
    }
    if (k == 2)
    {
        conn_hard = true;
        errno = ENOMEM;
        return -1;
    }
    --conn_left;
    conn_owed = true;
    conn_yields = yields;
    if (k == 3)
        return 0;
    errno = EINTR;
    return -1;
}
int fake_poll(struct pollfd *p, nfds_t n, int)
{
    require(n == 1 && p->fd == 5 && (p->events & POLLOUT), "the wait is not for this descriptor to become writable");
    int r = ready_round();
    p->revents = r == 1 ? POLLOUT | (conn == 3 ? POLLERR : 0) : 0;
    return r;
}
int fake_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *)
{
    require(w && n > 5 && FD_ISSET(5, w), "the wait is not for this descriptor to become writable");
    int k = ready_round();
    if (k <= 0)
        FD_ZERO(w);
    if (e)
        FD_ZERO(e);
    if (r)
        FD_ZERO(r);
    return k;
}
int fake_getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    if (sys->only == "getsockopt")
        return answer("getsockopt", {fd, l, o, A(v), A(n)}, false);
    require(fd == 5 && l == SOL_SOCKET && o == SO_ERROR, "the result of the attempt was not asked for");
    if (pick(2))
    {
        conn_hard = true;
        errno = ENOMEM;
        return -1;
    }
    *(int *)v = conn == 3 ? conn_err : 0;
    return 0;
}
}

static void once(const char *name, vector<long> want, std::function<long(co_net &)> op, long value = 7, bool close = false)
{
    static Sys s;
    s = Sys();
    sys = &s;
    s.only = name;
    s.want = want;
    s.value = value;
    spawn("io", [=] {
        co_net n;
        n.fd__ = 5;
        errno = EAGAIN; // of some earlier call
        long r = op(n);
        require(sys->calls > 0, "no system call was made");
        require(sys->done || sys->interrupted, "not ready was reported to the caller");
        require(r == sys->ret, "another result than that of the system call was returned");
        require(n.fd__ == (close && r == 0 ? -1 : 5), "the descriptor changed");
    });
    run();
    require_all_done();
}
#define ONE(name, value, op, ...)                                                   \
    SCENARIO(io_##name, 0)                                                          \
    {                                                                               \
        once(#name, {5, ##__VA_ARGS__}, [](co_net &n) -> long { return op; }, value); \
    }
static void *const BUF = (void *)0x2000;
static sockaddr *const ADR = (sockaddr *)0x1000;
ONE(read, 7, n.read(BUF, 9), 0x2000, 9)
ONE(write, 7, n.write(BUF, 9), 0x2000, 9)
ONE(lseek, 0x123456789aL, n.lseek(0x1122334455L, SEEK_SET), 0x1122334455L, SEEK_SET)
ONE(fchmod, 0, n.fchmod(0644), 0644)
ONE(fchown, 0, n.fchown(10, 11), 10, 11)
ONE(fcntl, 7, n.fcntl(F_DUPFD, 0x55L), F_DUPFD, 0x55)
ONE(ioctl, 7, n.ioctl(0x5413, BUF), 0x5413, 0x2000)
ONE(ftruncate, 0, n.ftruncate(0x1122334455L), 0x1122334455L)
ONE(fstat, 0, n.fstat((struct stat *)BUF), 0x2000)
ONE(fsync, 0, n.fsync())
ONE(fdatasync, 0, n.fdatasync())
ONE(listen, 0, n.listen(12), 12)
ONE(bind, 0, n.bind(ADR, 16), 0x1000, 16)
ONE(send, 7, n.send(BUF, 9, 3), 0x2000, 9, 3)
ONE(sendto, 7, n.sendto(BUF, 9, 3, ADR, 16), 0x2000, 9, 3, 0x1000, 16)
#define ZERO(name, op, ...)                                                     \
    SCENARIO(io_##name##_zero, 0)                                               \
    {                                                                           \
        once(#name, {5, ##__VA_ARGS__}, [](co_net &n) -> long { return op; }, 0); \
    }
ZERO(read, n.read(BUF, 9), 0x2000, 9)
ZERO(write, n.write(BUF, 9), 0x2000, 9)
ZERO(send, n.send(BUF, 9, 3), 0x2000, 9, 3)
ZERO(sendto, n.sendto(BUF, 9, 3, ADR, 16), 0x2000, 9, 3, 0x1000, 16)
ZERO(recv, n.recv(BUF, 9, 3), 0x2000, 9, 3)
ZERO(sendmsg, n.sendmsg((msghdr *)0x4000, 3), 0x4000, 3)
ZERO(recvmsg, n.recvmsg((msghdr *)0x4000, 3), 0x4000, 3)
ONE(recv, 7, n.recv(BUF, 9, 3), 0x2000, 9, 3)
ONE(recvfrom, 0, n.recvfrom(BUF, 9, 3, ADR, (socklen_t *)0x3000), 0x2000, 9, 3, 0x1000, 0x3000)
ONE(sendmsg, 7, n.sendmsg((msghdr *)0x4000, 3), 0x4000, 3)
ONE(recvmsg, 7, n.recvmsg((msghdr *)0x4000, 3), 0x4000, 3)
ONE(getsockopt, 0, n.getsockopt(1, 2, BUF, (socklen_t *)0x3000), 1, 2, 0x2000, 0x3000)
ONE(setsockopt, 0, n.setsockopt(1, 2, BUF, 4), 1, 2, 0x2000, 4)
ONE(shutdown, 0, n.shutdown(2), 2)
SCENARIO(io_close, 0)
{
    once("close", {5}, [](co_net &n) -> long { return n.close(); }, 0, true);
}

template <class F>
static void fresh(const char *name, vector<long> want, F op, bool flfail)
{
    static Sys s;
    s = Sys();
    sys = &s;
    s.only = name;
    s.want = want;
    s.fl_fail = flfail;
    if (pick(2))
        s.fl |= O_NONBLOCK;
    spawn("io", [=] {
        co_net n;
        n.fd__ = 5;
        auto r = op(n);
        require(sys->done || sys->interrupted, "not ready was reported to the caller");
        if (!sys->fl_failed)
            require(r.has_value() == (sys->ret >= 0), "a descriptor is returned exactly if the system gave one");
        if (r.has_value())
        {
            if (sys->fl_failed)
                require(r->fd__ == -1, "a blocking descriptor was handed out");
            else
                require(r->fd__ == 7 && sys->fl == (2 | O_NONBLOCK), "the new descriptor is not in non-blocking mode");
        }
    });
    run();
    require_all_done();
}
SCENARIO(io_socket, 0)
{
    fresh("socket", {2, 1, 6}, [](co_net &) { return co_net::socket(2, 1, 6); }, true);
}
SCENARIO(io_accept, 0)
{
    fresh("accept", {5, 0x1000, 0x3000}, [](co_net &n) { return n.accept(ADR, (socklen_t *)0x3000); }, true);
}
SCENARIO(io_open, 0)
{
    fresh("open", {0x2000, O_RDWR, 0640}, [](co_net &) { return co_file::open((const char *)BUF, O_RDWR, 0640); }, true);
}
SCENARIO(io_init_fd, 0)
{
    static Sys s;
    s = Sys();
    sys = &s;
    s.fl_fd = 7;
    s.fl_fail = true;
    if (pick(2))
        s.fl |= O_NONBLOCK;
    spawn("io", [=] {
        co_net n;
        n.fd__ = 5;
        int r = n.init_fd(7);
        require((r == 0) == !sys->fl_failed && (r == 0 || r == -1), "adopting a descriptor fails exactly if the system refused");
        if (r == 0)
            require(n.fd__ == 7 && sys->fl == (2 | O_NONBLOCK), "an adopted descriptor is not in non-blocking mode");
    });
    run();
    require_all_done();
}
SCENARIO(io_connect, 0)
{
    static Sys s;
    s = Sys();
    sys = &s;
    s.only = "connect";
    conn = 0;
    conn_left = 3;
    conn_hard = conn_owed = false;
    spawn("io", [=] {
        co_net n;
        n.fd__ = 5;
        int r = n.connect(ADR, 16);
        require(r == 0 || r == -1, "connecting gives 0 or -1");
        if (r == 0)
            require(conn == 2, "success was reported without a connection");
        if (conn == 2 && !conn_hard)
            require(r == 0, "an established connection was reported as a failure");
        require(conn >= 2 || conn_hard, "an attempt under way was given up");
    });
    run();
    require_all_done();
}

static void whole(bool rd, bool n_version)
{
    static Sys s;
    s = Sys();
    sys = &s;
    size_t size = (size_t[]){0, 1, 5}[pick(3)];
    stream.clear();
    stream_pos = 0;
    cl_bad = cl_eof = false;
    spawn("io", [=] {
        TestClient c;
        co_buffer b(size, 'x');
        for (size_t i = 0; !rd && i < size; ++i)
            b[i] = 'a' + i;
        cl_data = b.data();
        cl_size = size;
        static unsigned char none;
        if (!cl_data)
            cl_data = &none;
        bool err;
        if (n_version)
            err = rd ? (bool)c.read_n(b) : (bool)c.write_n(b);
        else
        {
            auto [cnt, e] = rd ? c.read(b) : c.write(b);
            err = (bool)e;
            require(err == cl_bad, "an error is reported exactly if the transfer failed");
            require(err || cnt == stream_pos, "another count than the one transferred was reported");
        }
        cl_data = nullptr;
        if (n_version)
        {
            require(err == (cl_bad || cl_eof), "an error is reported exactly if a transfer failed or the data ended");
            require(err || stream_pos == size, "success was reported although bytes are missing");
        }
        for (size_t i = 0; i < stream_pos; ++i)
            require(b.size() == size && b[i] == 'a' + i && (rd || stream[i] == b[i]), "the bytes are not those transferred");
    });
    run();
    require_all_done();
}
SCENARIO(whole_read, 0)
{
    whole(true, true);
}
SCENARIO(whole_write, 0)
{
    whole(false, true);
}
SCENARIO(whole_read_once, 0)
{
    whole(true, false);
}
SCENARIO(whole_write_once, 0)
{
    whole(false, false);
}
