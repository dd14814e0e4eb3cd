// C17 (sockets): connecting and accepting through the tracker compared with the plain calls.
#include "io.h"
#include <sys/un.h>
#include <thread>

enum Fam { TCP, UNIX, UDP, TCP6, NFAM };
static const char *FAM[] = {"TCP", "AF_UNIX", "UDP", "TCP over IPv6"};
struct S {
  int fam = TCP;
  // [0] used through the tracker, [1] with the plain calls
  int ls[2] = {-1, -1}, cl[2][2] = {{-1, -1}, {-1, -1}}, ac[2][2] = {{-1, -1}, {-1, -1}};
  sockaddr_storage la[2]{};
  socklen_t ln[2] = {0, 0};
  int dom() { return fam == UNIX ? AF_UNIX : fam == TCP6 ? AF_INET6 : AF_INET; }
  int type() { return fam == UDP ? SOCK_DGRAM : SOCK_STREAM; }
  int sock() {
    int fd = ::socket(dom(), type(), 0);
    VH_CHECK(fd >= 0, "harness: socket");
    if (fam != UNIX)
      nolinger(fd);
    return fd;
  }
  void setup(int f) {
    fam = f;
    for (int i = 0; i < 2; i++) {
      for (int t = 0;; t++) {
        ls[i] = sock();
        memset(&la[i], 0, sizeof la[i]);
        la[i].ss_family = dom();
        ln[i] = sizeof(sockaddr_in);
        if (fam == UNIX) {
          auto *u = (sockaddr_un *)&la[i];
          const char *p = i ? "p/sk" : "w/sk";
          unlink(p);
          strcpy(u->sun_path, p);
          ln[i] = sizeof *u;
        } else if (fam == TCP6) {
          ((sockaddr_in6 *)&la[i])->sin6_addr = in6addr_loopback;
          ln[i] = sizeof(sockaddr_in6);
        } else
          ((sockaddr_in *)&la[i])->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::bind(ls[i], (sockaddr *)&la[i], ln[i]) == 0 && (fam == UDP || ::listen(ls[i], 4) == 0))
          break;
        ::close(ls[i]);
        VH_CHECK(t < 500, "harness: listen");
        usleep(20000);
      }
      fcntl(ls[i], F_SETFL, O_NONBLOCK);
      if (fam != UNIX)
        ::getsockname(ls[i], (sockaddr *)&la[i], &ln[i]);
      for (int k = 0; k < 2; k++)
        cl[i][k] = sock();
    }
    fcntl(cl[0][1], F_SETFL, O_NONBLOCK);
    fcntl(cl[1][1], F_SETFL, O_NONBLOCK);
  }
  void same(const char *what, long a, int ea, long b, int eb) {
    VH_CHECK((a < 0) == (b < 0), "%s returned %ld (errno %d), the plain call returns %ld (errno %d)", what, a, ea, b, eb);
    if (b < 0)
      VH_CHECK(ea == eb, "%s failed with errno %d, the plain call with %d", what, ea, eb);
  }
  void fds(const char *what, int a, int b) {
    if (a < 0 || b < 0)
      return;
    vh::st().nontrivial++;
    VH_CHECK(fcntl(a, F_GETFL) == fcntl(b, F_GETFL), "%s: status flags 0x%x, plain 0x%x", what, fcntl(a, F_GETFL), fcntl(b, F_GETFL));
    VH_CHECK(fcntl(a, F_GETFD) == fcntl(b, F_GETFD), "%s: descriptor flags 0x%x, plain 0x%x", what, fcntl(a, F_GETFD), fcntl(b, F_GETFD));
    int ta = -1, tb = -1;
    socklen_t n = sizeof ta;
    getsockopt(a, SOL_SOCKET, SO_TYPE, &ta, &n);
    getsockopt(b, SOL_SOCKET, SO_TYPE, &tb, &n);
    VH_CHECK(ta == tb, "%s: socket type %d, plain %d", what, ta, tb);
    for (int peer = 0; peer < 2; peer++) {
      sockaddr_storage x{}, y{};
      socklen_t nx = sizeof x, ny = sizeof y;
      int p = peer ? getpeername(a, (sockaddr *)&x, &nx) : getsockname(a, (sockaddr *)&x, &nx);
      int q = peer ? getpeername(b, (sockaddr *)&y, &ny) : getsockname(b, (sockaddr *)&y, &ny);
      VH_CHECK(p == q, "%s: the socket %s %s address, with the plain call the opposite", what, p ? "lacks a" : "has a", peer ? "peer" : "local");
    }
  }
  // where: 0 the listener, 1 nobody listens there, 2 AF_UNSPEC, 3 a truncated address, 4 NULL
  void connect_(int k, int where) {
    const char *what = "connect";
    long rc[2];
    int er[2];
    for (int i = 1; i >= 0; i--) {
      sockaddr_storage a = la[i];
      socklen_t n = ln[i];
      if (where == 1) {
        if (fam == UNIX)
          strcpy(((sockaddr_un *)&a)->sun_path, "w/nobody");
        else if (fam == TCP6)
          ((sockaddr_in6 *)&a)->sin6_port = htons(1);
        else
          ((sockaddr_in *)&a)->sin_port = htons(1);
      } else if (where == 2)
        a.ss_family = AF_UNSPEC;
      else if (where == 3)
        n = 1;
      int fd = k < 0 ? -1 : cl[i][k];
      const sockaddr *p = where == 4 ? nullptr : (sockaddr *)&a;
      RL r;
      errno = 0;
      rc[i] = i ? ::connect(fd, p, n) : __dfsw_connect(fd, p, n, 0, 0, 0, &r);
      er[i] = errno;
      if (!i)
        r.zero(what);
    }
    same(what, rc[0], er[0], rc[1], er[1]);
    if (k >= 0)
      fds(what, cl[0][k], cl[1][k]);
  }
  // on: 0 the listener, 1 the client, 2 no descriptor; am: 0 NULL, 1 room, 2 two bytes of room, 3 no room
  void accept_(int slot, int on, int am, int flags) {
    const char *what = flags < 0 ? "accept" : "accept4";
    long rc[2];
    int er[2];
    sockaddr_storage a[2];
    socklen_t n[2];
    for (int i = 1; i >= 0; i--) {
      memset(&a[i], 0x5a, sizeof a[i]);
      n[i] = am == 1 ? sizeof a[i] : am == 2 ? 2 : 0;
      int fd = on == 0 ? ls[i] : on == 1 ? cl[i][0] : -1;
      if (fd >= 0 && on == 1 && fam != UDP)
        fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK);
      sockaddr *p = am ? (sockaddr *)&a[i] : nullptr;
      socklen_t *q = am ? &n[i] : nullptr;
      RL r;
      errno = 0;
      if (flags < 0)
        rc[i] = i ? ::accept(fd, p, q) : __dfsw_accept(fd, p, q, 0, 0, 0, &r);
      else
        rc[i] = i ? ::accept4(fd, p, q, flags) : __dfsw_accept4(fd, p, q, flags, 0, 0, 0, 0, &r);
      er[i] = errno;
      if (!i)
        r.zero(what);
      if (rc[i] >= 0) {
        if (fam != UNIX && i)
          nolinger(rc[i]);
        ac[i][slot] = rc[i];
      }
    }
    same(what, rc[0], er[0], rc[1], er[1]);
    fds(what, rc[0], rc[1]);
    if (rc[0] >= 0 && fam != UNIX)
      nolinger(rc[0]);
    VH_CHECK(n[0] == n[1], "%s: address length %u, plain %u", what, n[0], n[1]);
    // the port differs
    if (am == 1 && fam != UNIX)
      for (int i = 0; i < 2; i++)
        if (fam == TCP6)
          ((sockaddr_in6 *)&a[i])->sin6_port = 0;
        else
          ((sockaddr_in *)&a[i])->sin_port = 0;
    VH_CHECK(memcmp(&a[0], &a[1], sizeof a[0]) == 0, "%s: the address returned differs from the plain call's", what);
  }
  void reset_peer() {
    for (int i = 0; i < 2; i++) {
      int c = sock();
      ::connect(c, (sockaddr *)&la[i], ln[i]);
      ::close(c);
    }
    if (fam != UNIX)
      usleep(200);
  }
  void shut(int k) {
    ::shutdown(cl[0][k], SHUT_RDWR);
    ::shutdown(cl[1][k], SHUT_RDWR);
  }
  // data both ways between the accepted and the connecting ends
  void talk() {
    for (int k = 0; k < 2; k++)
      for (int dir = 0; dir < 2; dir++) {
        long rc[4];
        int er[4];
        uint8_t b[2][8];
        memset(b, 0x77, sizeof b);
        for (int i = 1; i >= 0; i--) {
          int from = dir ? cl[i][k] : ac[i][k], to = dir ? ac[i][k] : cl[i][k];
          uint8_t m[3] = {1, 2, 3};
          RL r;
          errno = 0;
          rc[i] = i ? ::write(from, m, 3) : __dfsw_write(from, m, 3, 0, 0, 0, &r);
          er[i] = errno;
          errno = 0;
          rc[2 + i] = i ? ::recv(to, b[i], 8, MSG_DONTWAIT) : __dfsw_recv(to, b[i], 8, MSG_DONTWAIT, 0, 0, 0, 0, &r);
          er[2 + i] = errno;
        }
        same("write", rc[0], er[0], rc[1], er[1]);
        same("recv", rc[2], er[2], rc[3], er[3]);
        VH_CHECK(memcmp(b[0], b[1], 8) == 0, "recv: the data differ from the plain call's");
      }
  }
  void close_(int which) {
    RL r;
    int a = which ? ac[0][0] : cl[0][0], b = which ? ac[1][0] : cl[1][0];
    errno = 0;
    int x = __dfsw_close(a, 0, &r), ex = errno;
    errno = 0;
    int y = ::close(b), ey = errno;
    same("close", x, ex, y, ey);
    (which ? ac[0][0] : cl[0][0]) = -1;
    (which ? ac[1][0] : cl[1][0]) = -1;
  }
};
using Ops = std::vector<Op<S>>;
static bool any(Abs &) { return true; }
static Ops ops() {
  Ops o;
  o.push_back({"connect(c)", any, [](S &s) { s.connect_(0, 0); }});
  o.push_back({"connect(d, nonblocking)", any, [](S &s) { s.connect_(1, 0); }});
  o.push_back({"connect(c, nobody listens)", any, [](S &s) { s.connect_(0, 1); }});
  o.push_back({"connect(c, AF_UNSPEC)", any, [](S &s) { s.connect_(0, 2); }});
  o.push_back({"connect(c, short address)", any, [](S &s) { s.connect_(0, 3); }});
  o.push_back({"connect(c, NULL)", any, [](S &s) { s.connect_(0, 4); }});
  o.push_back({"connect(-1)", any, [](S &s) { s.connect_(-1, 0); }});
  o.push_back({"a=accept(NULL)", any, [](S &s) { s.accept_(0, 0, 0, -1); }});
  o.push_back({"b=accept(address)", any, [](S &s) { s.accept_(1, 0, 1, -1); }});
  o.push_back({"a=accept(2 bytes)", any, [](S &s) { s.accept_(0, 0, 2, -1); }});
  o.push_back({"a=accept4(0)", any, [](S &s) { s.accept_(0, 0, 3, 0); }});
  o.push_back({"b=accept4(NONBLOCK)", any, [](S &s) { s.accept_(1, 0, 1, SOCK_NONBLOCK); }});
  o.push_back({"a=accept4(CLOEXEC,NULL)", any, [](S &s) { s.accept_(0, 0, 0, SOCK_CLOEXEC); }});
  o.push_back({"b=accept4(both)", any, [](S &s) { s.accept_(1, 0, 2, SOCK_CLOEXEC | SOCK_NONBLOCK); }});
  o.push_back({"accept4(invalid flags)", any, [](S &s) { s.accept_(0, 0, 1, 1 << 30); }});
  o.push_back({"accept(not listening)", any, [](S &s) { s.accept_(0, 1, 1, -1); }});
  o.push_back({"accept4(-1)", any, [](S &s) { s.accept_(0, 2, 0, 0); }});
  o.push_back({"a peer connects and resets", any, [](S &s) { s.reset_peer(); }});
  o.push_back({"shutdown(c)", any, [](S &s) { s.shut(0); }});
  o.push_back({"talk", any, [](S &s) { s.talk(); }});
  o.push_back({"close(c)", any, [](S &s) { s.close_(0); }});
  o.push_back({"close(a)", any, [](S &s) { s.close_(1); }});
  return o;
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> suites;
  static Ops os = ops();
  vh::Suite s;
  s.name = "c17_sock";
  s.rule = "all sequences of connects (also repeated, refused, undone, nonblocking, invalid), accepts (with every kind of "
           "address buffer and flags, with and without pending or reset connections), data exchange and closes, over TCP, "
           "local, datagram and IPv6 sockets";
  s.fork_each = true;
  s.gen = [](const Visit &v) {
    fixtures();
    int p = ::socket(AF_INET6, SOCK_STREAM, 0);
    sockaddr_in6 a{};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    bool v6 = p >= 0 && ::bind(p, (sockaddr *)&a, sizeof a) == 0;
    ::close(p);
    for (int f = 0; f < (v6 ? NFAM : TCP6); f++)
      enumerate<S>(os, vh::g_thorough ? 4 : 3, v, {}, {f});
  };
  s.run = [](const Case &c) {
    fixtures();
    start_runtime();
    static S w;
    w.setup(c[0]);
    for (size_t i = 1; i < c.size(); i++) {
      os[c[i]].run(w);
      vh::st().transitions++;
    }
    end_case();
  };
  s.describe = [](const Case &c) { return std::string(FAM[c[0]]) + ": " + describe_ops(os, c, 1); };
  suites.push_back(s);
  {
    vh::Suite s;
    s.name = "c17_block";
    s.rule = "blocking transfers over TCP and local sockets: every call, flag set and size, with the other end reading (or sending, in pieces) only later";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int fam = 0; fam < 2; fam++)
        for (int call = 0; call < 5; call++)
          for (int fl = 0; fl < 4; fl++)
            for (int sz = 0; sz < 4; sz++)
              v({fam, call, fl, sz});
    };
    s.run = [](const Case &c) {
      fixtures();
      start_runtime();
      static const size_t SZ[] = {1, 700, 5000, 300000};
      size_t n = SZ[c[3]];
      int fd[2], small = 1;
      if (c[0] == 0)
        VH_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, fd) == 0, "harness: socketpair");
      else {
        sockaddr_in sa;
        int ls = listener(sa);
        RL r;
        fd[0] = ::socket(AF_INET, SOCK_STREAM, 0);
        VH_CHECK(__dfsw_connect(fd[0], (sockaddr *)&sa, sizeof sa, 0, 0, 0, &r) == 0, "connect failed");
        fd[1] = ::accept(ls, nullptr, nullptr);
        nolinger(fd[0]);
        nolinger(fd[1]);
        ::close(ls);
      }
      for (int i = 0; i < 2 && !c[0]; i++) {
        setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
        setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
      }
      static std::vector<uint8_t> b;
      b.assign(n, 0x33);
      bool out = c[1] < 2;
      static const int SF[] = {0, MSG_NOSIGNAL, MSG_MORE, MSG_NOSIGNAL | MSG_CONFIRM};
      static const int RF[] = {0, MSG_WAITALL, MSG_NOSIGNAL, MSG_WAITALL | MSG_CMSG_CLOEXEC};
      int flags = out ? SF[c[2]] : RF[c[2]];
      // what the other end does
      size_t total = 0;
      std::vector<uint8_t> got;
      std::thread t([&] {
        usleep(1500);
        if (out) {
          std::vector<uint8_t> m(65536);
          while (total < n) {
            ssize_t k = ::recv(fd[1], m.data(), m.size(), 0);
            if (k <= 0)
              break;
            got.insert(got.end(), m.begin(), m.begin() + k);
            total += k;
          }
        } else {
          std::vector<uint8_t> m(n);
          for (size_t i = 0; i < n; i++)
            m[i] = i % 251;
          bool all = flags & MSG_WAITALL && c[1] != 2;
          size_t first = all ? (n + 1) / 2 : std::min<size_t>(n, 300);
          ::send(fd[1], m.data(), first, MSG_NOSIGNAL);
          if (all) {
            usleep(1500);
            ::send(fd[1], m.data() + first, n - first, MSG_NOSIGNAL);
          }
        }
      });
      RL r;
      errno = 0;
      ssize_t rc = c[1] == 0   ? __dfsw_write(fd[0], b.data(), n, 0, 0, 0, &r)
                   : c[1] == 1 ? __dfsw_send(fd[0], b.data(), n, flags, 0, 0, 0, 0, &r)
                   : c[1] == 2 ? __dfsw_read(fd[0], b.data(), n, 0, 0, 0, &r)
                   : c[1] == 3 ? __dfsw_recv(fd[0], b.data(), n, flags, 0, 0, 0, 0, &r)
                               : __dfsw_recvfrom(fd[0], b.data(), n, flags, nullptr, nullptr, 0, 0, 0, 0, 0, 0, &r);
      int e = errno;
      if (out)
        ::shutdown(fd[0], SHUT_WR);
      t.join();
      r.zero("the call");
      size_t want = out || (c[1] != 2 && flags & MSG_WAITALL) ? n : std::min<size_t>(n, 300);
      VH_CHECK(rc == (ssize_t)want, "the call returned %zd (errno %d), a blocking call transfers %zu bytes", rc, e, want);
      if (out)
        VH_CHECK(total == n && got == b, "the other end received %zu bytes of %zu, or different ones", total, n);
      else
        for (size_t i = 0; i < want; i++)
          VH_CHECK(b[i] == i % 251, "byte %zu was received wrong", i);
      vh::st().nontrivial++;
      end_case();
    };
    s.describe = [](const Case &c) {
      static const char *N[] = {"write", "send", "read", "recv", "recvfrom"};
      return std::string(c[0] ? "TCP " : "local ") + N[c[1]] + ", flag set " + std::to_string(c[2]) + ", size " + std::to_string(c[3]);
    };
    suites.push_back(s);
  }
  return vh::main_(argc, argv, suites);
}
