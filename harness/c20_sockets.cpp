// C20: sockets carry bytes faithfully and report the state of the connection
#include "mon.hpp"
#include <unistd.h>
#include <ecl/devices/socket.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <poll.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <atomic>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using mon::Rng;
using mon::cat;
using ecl::SocketClient;
using ecl::SocketServer;
#if defined(__SANITIZE_THREAD__)
#define VERIF_THREADS_ONLY 1
#endif
static long openFds() { long n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void nap(long us) { timespec t = {us / 1000000, (us % 1000000) * 1000}; nanosleep(&t, 0); }

// a port nobody else of these cases uses: leased by a name in the abstract namespace that goes with the descriptor
struct Port {
  int lease; unsigned n;
  explicit Port(Rng& r) : lease(-1), n(0) {
    for (int k = 0; k < 400; ++k) {
      unsigned p = 11000 + unsigned(r.below(20000));
      int s = socket(AF_UNIX, SOCK_STREAM, 0); if (s < 0) mon::harness_error("no sockets here");
      sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "verif-port-%u", p);
      if (bind(s, (sockaddr*)&a, socklen_t(offsetof(sockaddr_un, sun_path) + 1 + l)) != 0) { ::close(s); continue; }
      int t = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = INADDR_ANY; i.sin_port = htons(p);
      bool free = bind(t, (sockaddr*)&i, sizeof i) == 0; ::close(t);
      if (!free) { ::close(s); continue; }
      lease = s; n = p; return;
    }
    mon::inconclusive("no free port");
  }
  ~Port() { if (lease >= 0) ::close(lease); }
};
// what a call came to: its count, or the kind of error it was refused with
struct Out { long n; bool thrown; ecl::ErrorFlag flag; };
template <class F> static Out call(F f) {
  Out o = {0, false, ecl::NoError};
  try { o.n = long(f()); } catch (const ecl::StandardException& e) { o.thrown = true; o.n = ecl::ConnectionProblem; o.flag = e.flag(); }
  return o;
}
static std::string str(const Out& o) { return o.thrown ? cat("thrown ", int(o.flag)) : cat(o.n); }
static std::string bytes(Rng& r, size_t n) { std::string s(n, 0); bool text = r.chance(1, 4); for (auto& c : s) c = text ? char('a' + r.below(26)) : char(r.below(256)); return s; }

#ifndef VERIF_THREADS_ONLY
// one failure to come, of one call
static int roomFor = 0; static const char* failCall = 0; static int failErrno = 0; static long failLeft = 0;
static bool failing(const char* c) { if (!failCall || strcmp(c, failCall)) return false; if (failLeft-- > 0) return false; failCall = 0; errno = failErrno; return true; }
template <class F> static F next(F, const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int socket(int a, int b, int c) { if (failing("socket")) return -1; int s = int(syscall(SYS_socket, a, b, c)); if (s >= 0 && roomFor > 0) setsockopt(s, SOL_SOCKET, SO_RCVBUF, &roomFor, sizeof roomFor); return s; }
extern "C" int bind(int s, const sockaddr* a, socklen_t l) { if (failing("bind")) return -1; return int(syscall(SYS_bind, s, a, l)); }
extern "C" int connect(int s, const sockaddr* a, socklen_t l) { if (failing("connect")) return -1; return int(syscall(SYS_connect, s, a, l)); }
extern "C" ssize_t send(int s, const void* p, size_t n, int f) { if (failing("send")) return -1; return syscall(SYS_sendto, s, p, n, f, (void*)0, 0); }
extern "C" hostent* gethostbyname(const char* n) {
  static hostent* (*real)(const char*) = (hostent * (*)(const char*)) dlsym(RTLD_NEXT, "gethostbyname");
  if (strstr(n, "nowhere.invalid")) { h_errno = HOST_NOT_FOUND; return 0; }
  return real(n);
}
extern "C" int gethostbyname_r(const char* n, hostent* e, char* b, size_t z, hostent** out, int* err) {
  static int (*real)(const char*, hostent*, char*, size_t, hostent**, int*) = (int (*)(const char*, hostent*, char*, size_t, hostent**, int*)) dlsym(RTLD_NEXT, "gethostbyname_r");
  if (strstr(n, "nowhere.invalid")) { *out = 0; *err = HOST_NOT_FOUND; return 0; }
  return real(n, e, b, z, out, err);
}
// recv, accept and ioctl belong to the sanitizer: they are forwarded to it
extern "C" ssize_t recv(int s, void* p, size_t n, int f) { static ssize_t (*real)(int, void*, size_t, int) = (ssize_t(*)(int, void*, size_t, int))dlsym(RTLD_NEXT, "recv"); if (failing("recv")) return -1; return real(s, p, n, f); }
extern "C" int accept(int s, sockaddr* a, socklen_t* l) { static int (*real)(int, sockaddr*, socklen_t*) = (int (*)(int, sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "accept"); if (failing("accept")) return -1; return real(s, a, l); }
// the same by other names
extern "C" ssize_t read(int s, void* p, size_t n) { static ssize_t (*real)(int, void*, size_t) = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read"); if (failing("recv")) return -1; return real(s, p, n); }
extern "C" ssize_t write(int s, const void* p, size_t n) { static ssize_t (*real)(int, const void*, size_t) = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); if (failing("send")) return -1; return real(s, p, n); }
extern "C" ssize_t recvfrom(int s, void* p, size_t n, int f, sockaddr* a, socklen_t* l) { static ssize_t (*real)(int, void*, size_t, int, sockaddr*, socklen_t*) = (ssize_t(*)(int, void*, size_t, int, sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "recvfrom"); if (failing("recv")) return -1; return real(s, p, n, f, a, l); }
extern "C" ssize_t sendto(int s, const void* p, size_t n, int f, const sockaddr* a, socklen_t l) { static ssize_t (*real)(int, const void*, size_t, int, const sockaddr*, socklen_t) = (ssize_t(*)(int, const void*, size_t, int, const sockaddr*, socklen_t))dlsym(RTLD_NEXT, "sendto"); if (failing("send")) return -1; return real(s, p, n, f, a, l); }
extern "C" int accept4(int s, sockaddr* a, socklen_t* l, int f) { static int (*real)(int, sockaddr*, socklen_t*, int) = (int (*)(int, sockaddr*, socklen_t*, int))dlsym(RTLD_NEXT, "accept4"); if (failing("accept")) return -1; return real(s, a, l, f); }
#endif

// joins the two ends; the server must be open
static bool join(SocketServer& s, SocketClient& c, unsigned port, Rng& r, bool construct = false) {
  (void)construct;
  std::atomic<int> got(-2);
  std::thread t([&] { Out o = call([&] { return s.listen(); }); got = int(o.n); });
  const char* host = r.flip() ? "127.0.0.1" : "localhost"; bool ok = false; long tries = 0;
  for (; tries < 200000 && !ok; ++tries) {
    Out o = call([&] { return c.open(host, port); });
    if (!o.thrown && o.n == 1) { ok = true; break; }
    if (!EXPECT(o.thrown && o.flag == ecl::ConnectionRefusedError, "connecting", "connecting to a server that is not listening yet: ", str(o))) break;
    if (!EXPECT(!c.open(), "connecting", "a refused connection is open")) break;
    mon::obs("connection refused"); nap(tries > 50 ? 1000 : 50);
  }
  if (!ok) { int w = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); i.sin_port = htons(port); connect(w, (sockaddr*)&i, sizeof i); ::close(w); }
  t.join();
  if (!ok) return false;
  CHECK(c.open() && s.open(), "connecting", "joined ends are not open");
  CHECK(got >= 0 && fcntl(got, F_GETFD) != -1, "connecting", "listening gave descriptor ", got.load());
  int type = 0; socklen_t l = sizeof type; CHECK(getsockopt(got, SOL_SOCKET, SO_TYPE, &type, &l) == 0 && type == SOCK_STREAM, "connecting", "listening gave a descriptor that is no connection");
  mon::obs("connections");
  return true;
}

// ---------------------------------------------------------------- large exchanges, each end in its own thread
static std::atomic<long> interruptions(0);
static void onSignal(int) { ++interruptions; }
struct End { long written, readBytes; Out last; std::string fault; bool openAfter; Out afterwards; };
template <class D> static void sendAll(D& d, const std::string& data, Rng& r, End& e, bool slow) {
  size_t at = 0;
  while (at < data.size()) {
    size_t n = 1 + r.below(r.chance(1, 3) ? 20 : 70000); if (n > data.size() - at) n = data.size() - at;
    Out o;
    if (n == 1 && r.flip()) { char ch = data[at]; o = call([&] { return d.write(ch); }); }
    else { std::string copy(data, at, n); o = call([&] { return d.write(copy.data(), n); }); }
    if (o.n == ecl::ConnectionProblem && (!o.thrown || o.flag == ecl::InterruptedError) && interruptions.load() > 0) { mon::obs("interrupted transfers"); continue; }
    if (o.n <= 0 || o.n > long(n)) { e.fault = cat("writing ", n, " bytes came to ", str(o)); e.last = o; return; }
    if (o.n < long(n)) mon::obs("short writes");
    at += size_t(o.n); e.written = long(at);
    if (slow && r.chance(1, 8)) nap(long(r.below(800)));
  }
}
// until `want` bytes are here, or until the other end hangs up (want < 0)
template <class D> static std::string receive(D& d, long want, Rng& r, End& e, bool slow) {
  std::string got;
  while (want < 0 || long(got.size()) < want) {
    size_t n = 1 + r.below(r.chance(1, 3) ? 20 : 70000); if (want >= 0 && long(n) > want - long(got.size())) n = size_t(want - long(got.size()));
    std::unique_ptr<char[]> buf(new char[n + 16]); memset(buf.get(), 0x5a, n + 16);
    bool looked = false; long seen = 0; std::string peeked;
    if (r.chance(1, 6)) { Out p = call([&] { return d.peek(buf.get(), n); }); if (p.n > 0 && p.n <= long(n)) { looked = true; seen = p.n; peeked.assign(buf.get(), size_t(p.n)); } memset(buf.get(), 0x5a, n + 16); }
    Out o;
    if (n == 1 && r.flip()) { char ch = 0x5a; o = call([&] { return d.read(ch); }); buf[0] = ch; }
    else o = call([&] { return d.read(buf.get(), n); });
    if (o.n == ecl::ConnectionHungUp) { e.last = o; return got; }
    if (o.n == ecl::ConnectionProblem && (!o.thrown || o.flag == ecl::InterruptedError) && interruptions.load() > 0) { mon::obs("interrupted transfers"); continue; }
    if (o.n <= 0 || o.n > long(n)) { e.fault = cat("reading ", n, " bytes came to ", str(o)); e.last = o; return got; }
    for (size_t k = size_t(o.n); k < n + 16; ++k) if (buf[k] != 0x5a) { e.fault = cat("a read of ", o.n, " bytes wrote beyond them"); return got; }
    if (looked && (o.n < seen || peeked.compare(0, std::string::npos, buf.get(), size_t(seen)) != 0)) { e.fault = "what was peeked at was not read next"; return got; }
    if (looked) mon::obs("peeks before reads");
    got.append(buf.get(), size_t(o.n)); e.readBytes = long(got.size());
    if (slow && r.chance(1, 8)) nap(long(r.below(800)));
  }
  return got;
}
static std::string firstDifference(const std::string& a, const std::string& b) { size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; return cat(b.size(), " bytes of ", a.size(), ", first difference at ", k); }

REQUIRE_OBS("moves of nothing", 20); REQUIRE_OBS("bytes carried", 2000000);
REQUIRE_OBS("hang ups noticed", 20);
REQUIRE_OBS("connections", 40);
GROUP(exchange, 60, 600) {
  Rng& r = R; Port port(r); long before = openFds();
  bool signals = r.chance(1, 3), slow = r.flip(); interruptions = 0;
  struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sigaction(SIGUSR1, &sa, &old);
  {
    SocketServer s(port.n); SocketClient c;
    if (!join(s, c, port.n, r)) { sigaction(SIGUSR1, &old, 0); return; }
    int rounds = 1 + int(r.below(3)); bool clientHangsUp = r.flip();
    std::vector<std::string> up, down; for (int k = 0; k < rounds; ++k) { up.push_back(bytes(r, 1 + r.below(r.chance(1, 3) ? 900000 : 3000))); down.push_back(bytes(r, 1 + r.below(r.chance(1, 3) ? 900000 : 3000))); }
    Rng ra(r.next()), rb(r.next()); End a = {0, 0, {}, "", false, {}}, b = {0, 0, {}, "", false, {}}; std::vector<std::string> gotUp(rounds), gotDown(rounds); std::string extraUp, extraDown;
    std::atomic<int> done(0);
    std::thread client([&] {
      for (int k = 0; k < rounds && a.fault.empty(); ++k) { sendAll(c, up[k], ra, a, slow); if (a.fault.empty()) gotDown[k] = receive(c, long(down[k].size()), ra, a, slow); }
      if (!a.fault.empty() || clientHangsUp) c.close(); else { extraDown = receive(c, -1, ra, a, slow); a.openAfter = c.open(); char ch; a.afterwards = call([&] { return c.read(ch); }); }
      done++; });
    std::thread server([&] {
      for (int k = 0; k < rounds && b.fault.empty(); ++k) { gotUp[k] = receive(s, long(up[k].size()), rb, b, slow); if (b.fault.empty()) sendAll(s, down[k], rb, b, slow); }
      if (!b.fault.empty() || !clientHangsUp) s.close(); else { extraUp = receive(s, -1, rb, b, slow); b.openAfter = s.open(); char ch; b.afterwards = call([&] { return s.read(ch); }); }
      done++; });
    while (signals && done < 2) { nap(long(200 + r.below(1000))); if (done < 1) { pthread_kill(client.native_handle(), SIGUSR1); } if (done < 1) pthread_kill(server.native_handle(), SIGUSR1); }
    client.join(); server.join();
    long carried = 0;
    bool ok = EXPECT(a.fault.empty(), "transfers", "client: ", a.fault) & EXPECT(b.fault.empty(), "transfers", "server: ", b.fault);
    for (int k = 0; ok && k < rounds; ++k) {
      ok = EXPECT(gotUp[k] == up[k], "bytes", "from client to server: ", firstDifference(up[k], gotUp[k])) & EXPECT(gotDown[k] == down[k], "bytes", "from server to client: ", firstDifference(down[k], gotDown[k]));
      carried += long(up[k].size() + down[k].size());
    }
    if (ok) {
      End& e = clientHangsUp ? b : a;
      CHECK((clientHangsUp ? extraUp : extraDown).empty(), "bytes", "bytes nobody sent were received");
      CHECK(e.last.n == ecl::ConnectionHungUp && !e.last.thrown, "hang up", "reading after the other end hung up: ", str(e.last));
      CHECK(!e.openAfter, "hang up", "still open after the other end hung up");
      CHECK(e.afterwards.n == ecl::ConnectionDisconnected && !e.afterwards.thrown, "hang up", "reading a connection known to be gone: ", str(e.afterwards));
      mon::obs("hang ups noticed");
    }
    mon::obs("bytes carried", uint64_t(carried));
    mon::nontrivial(mon::mix(mon::hash(cat(carried, rounds, signals)), r.next()));
    mon::sample(cat(rounds, " rounds, ", carried, " bytes, ", interruptions.load(), " interruptions"));
  }
  sigaction(SIGUSR1, &old, 0);
  CHECK(openFds() == before, "descriptors", "descriptors before and after an exchange: ", before, " ", openFds());
}

#ifndef VERIF_THREADS_ONLY
// ---------------------------------------------------------------- histories of one server and one client
struct Model { bool bound, serverJoined, clientOpen; std::string toServer, toClient; bool clientGone, serverGone, resetAtServer, resetAtClient; };
// devices built on memory full of somebody's descriptor: whatever they do not set, they must not use
template <class D> struct Planted {
  alignas(16) char room[sizeof(D)]; D* d;
  explicit Planted(int fd) : d(0) { for (size_t k = 0; k + sizeof fd <= sizeof room; k += sizeof fd) memcpy(room + k, &fd, sizeof fd); d = new (room) D(); }
  ~Planted() { d->~D(); }
};
template <class D> static void refused(D& d, const char* which, Rng& r) {
  char buf[32]; memset(buf, 0x5a, sizeof buf); Out o; const char* what = "";
  switch (r.below(5)) {
    case 0: what = "reading"; o = call([&] { return d.read(buf, 1 + r.below(20)); }); break;
    case 1: what = "reading a character"; o = call([&] { return d.read(buf[0]); }); break;
    case 2: what = "peeking"; o = call([&] { return d.peek(buf, 1 + r.below(20)); }); break;
    case 3: what = "counting"; o = call([&] { return d.remaining(); }); break;
    default: what = "writing"; o = r.flip() ? call([&] { return d.write("hello", 5); }) : call([&] { return d.write('x'); }); break;
  }
  CHECK(o.n == ecl::ConnectionDisconnected && !o.thrown, "refusal", what, " on an unconnected ", which, ": ", str(o));
  for (char ch : buf) if (!EXPECT(ch == 0x5a, "refusal", what, " on an unconnected ", which, " delivered something")) break;
  mon::obs("refusals");
}
template <class D> static long settled(D& d, size_t expected, Out& o) {
  for (int k = 0; k < 4000; ++k) { o = call([&] { return d.remaining(); }); if (o.thrown || o.n >= long(expected) || o.n < 0) break; nap(k < 20 ? 100 : 2000); }
  return o.n;
}
REQUIRE_OBS("refusals", 200);
REQUIRE_OBS("short histories of transfers", 100);
REQUIRE_OBS("counts of waiting bytes", 200);
REQUIRE_OBS("reopened", 30);
GROUP(histories, 500, 6000) {
  Rng& r = R; Port port(r), port2(r); int sentinel[2]; if (pipe(sentinel) != 0) mon::harness_error("pipe"); if (write(sentinel[1], "s", 1) != 1) mon::harness_error("pipe write");
  long before = openFds(); std::string log;
  {
    Planted<SocketServer> ps(sentinel[0]); Planted<SocketClient> pc(sentinel[0]); SocketServer& s = *ps.d; SocketClient& c = *pc.d;
    Model m = {}; int steps = 5 + int(r.below(40)); bool bad = false; unsigned at = port.n; long guard = -1; // a descriptor somebody opened since
    auto dropGuard = [&] { if (guard >= 0) { CHECK(fcntl(int(guard), F_GETFD) != -1, "descriptors", "a descriptor of somebody else was closed; ", log); ::close(int(guard)); guard = -1; } };
    for (int k = 0; k < steps && !bad && log.size() < 3000; ++k) {
      int op = int(r.below(14)); std::string& toS = m.toServer; std::string& toC = m.toClient;
      bool sUp = m.serverJoined, cUp = m.clientOpen;
      if (op == 0) { log += "closeServer "; if (m.clientOpen && m.serverJoined) { m.serverGone = true; if (!toS.empty()) m.resetAtClient = true; } s.close(); toS.clear(); m.bound = m.serverJoined = false; }
      else if (op == 1) { log += "closeClient "; if (m.clientOpen && m.serverJoined) { m.clientGone = true; if (!toC.empty()) m.resetAtServer = true; } c.close(); toC.clear(); m.clientOpen = false; }
      else if (op == 2 || !m.bound) {
        if (r.chance(1, 4)) at = at == port.n ? port2.n : port.n;
        bool again = m.bound; log += cat("openServer(", at == port.n ? 1 : 2, ") ");
        if (m.clientOpen && m.serverJoined) { m.serverGone = true; if (!toS.empty()) m.resetAtClient = true; } toS.clear(); m.serverJoined = false;
        Out o = call([&] { return s.open(at); });
        if (!EXPECT(!o.thrown && o.n == 1, "opening", "opening the server: ", str(o), " after ", log)) { bad = true; break; }
        m.bound = true; if (again || k > 3) mon::obs("reopened");
      } else if ((op <= 4 && !sUp) || (!sUp && !cUp && op < 8)) {
        log += "join "; dropGuard();
        if (!join(s, c, at, r)) { bad = true; break; }
        m.serverJoined = m.clientOpen = true; m.clientGone = m.serverGone = m.resetAtClient = m.resetAtServer = false; toS.clear(); toC.clear();
      } else if (op == 5 && cUp && r.flip()) {
        log += "newClient "; // the server takes another client, the earlier one is left
        if (!sUp) continue;
        { SocketClient other; if (!join(s, other, at, r)) { bad = true; break; }
          m.serverGone = true; if (!toS.empty()) m.resetAtClient = true; toS.clear();
          Out o = call([&] { return other.write("hi", 2); }); char got[4]; Out p = call([&] { return s.read(got, 4); });
          CHECK(o.n == 2 && p.n == 2 && got[0] == 'h' && got[1] == 'i', "another client", "bytes of another client: ", str(o), " ", str(p), " after ", log); }
        char ch; Out p = call([&] { return s.read(ch); }); CHECK(p.n == ecl::ConnectionHungUp, "hang up", "reading after another client left: ", str(p), " after ", log);
        m.serverJoined = m.bound = false; mon::obs("hang ups noticed");
      } else if (op == 6 && r.flip()) {
        log += "refusedConnect "; if (cUp && sUp) { m.clientGone = true; if (!toC.empty()) m.resetAtServer = true; } toC.clear(); m.clientOpen = false;
        Port nobody(r); Out o = call([&] { return c.open("127.0.0.1", nobody.n); });
        CHECK(o.thrown && o.flag == ecl::ConnectionRefusedError, "connecting", "connecting to nobody: ", str(o)); mon::obs("connection refused");
      } else if (op == 7 && r.chance(1, 3)) {
        log += "unknownHost "; if (cUp && sUp) { m.clientGone = true; if (!toC.empty()) m.resetAtServer = true; } toC.clear(); m.clientOpen = false;
        Out o = call([&] { return c.open("nowhere.invalid", at); }); CHECK(o.thrown && o.flag == ecl::OpenError, "connecting", "connecting to an unknown host: ", str(o));
      } else if (!sUp && !cUp) { log += "refusals "; refused(s, "server", r); refused(c, "client", r); }
      else {
        bool server = r.flip(); if (server && !sUp) server = false; if (!server && !cUp) server = true;
        std::string& in = server ? toS : toC; std::string& out = server ? toC : toS; bool gone = server ? m.clientGone : m.serverGone; bool reset = server ? m.resetAtServer : m.resetAtClient;
        auto hungUp = [&] { mon::obs("hang ups noticed"); in.clear(); if (server) { m.serverJoined = m.bound = false; } else m.clientOpen = false; };
        int what = int(r.below(4));
        if (what == 0) { // write
          size_t n = 1 + r.below(r.chance(1, 4) ? 1 : 3000); if (out.size() + n > 40000) continue; std::string data = bytes(r, n); log += cat(server ? "server" : "client", ".write(", n, ") ");
          Out o = n == 1 ? (server ? call([&] { return s.write(data[0]); }) : call([&] { return c.write(data[0]); })) : (server ? call([&] { return s.write(data.data(), n); }) : call([&] { return c.write(data.data(), n); }));
          if (gone) {
            if (!EXPECT(o.n == long(n) || o.n == ecl::ConnectionHungUp, "hang up", "writing to an end that is gone: ", str(o), " after ", log)) { bad = true; break; }
            if (o.n == ecl::ConnectionHungUp) hungUp(); else (server ? m.resetAtServer : m.resetAtClient) = true;
          } else { if (!EXPECT(o.n == long(n) && !o.thrown, "counts", "writing ", n, " bytes: ", str(o), " after ", log)) { bad = true; break; } out += data; }
        } else if (what == 1) { // how much is waiting
          log += cat(server ? "server" : "client", ".remaining ");
          Out o; size_t awaited = reset ? 0 : in.size(); long n = server ? settled(s, awaited, o) : settled(c, awaited, o);
          if (reset) CHECK(n <= long(in.size()), "counts", "waiting bytes after a reset: ", str(o), " after ", log);
          else { if (!EXPECT(!o.thrown && n == long(in.size()), "counts", "waiting bytes are ", in.size(), ", counted ", str(o), " after ", log)) { bad = true; break; } mon::obs("counts of waiting bytes"); }
        } else if (what == 2) { // peek
          if (in.empty() || reset) continue; size_t n = 1 + r.below(4000); log += cat(server ? "server" : "client", ".peek(", n, ") "); std::string buf(n + 8, 0x5a);
          Out o = server ? call([&] { return s.peek(&buf[0], n); }) : call([&] { return c.peek(&buf[0], n); });
          if (!EXPECT(o.n > 0 && o.n <= long(n) && o.n <= long(in.size()) && in.compare(0, size_t(o.n), buf, 0, size_t(o.n)) == 0, "peeking", "peeking for ", n, " of ", in.size(), ": ", str(o), " after ", log)) { bad = true; break; }
          CHECK(buf.compare(size_t(o.n), std::string::npos, std::string(n + 8 - size_t(o.n), 0x5a)) == 0, "peeking", "peeking wrote beyond what it counted after ", log);
        } else if (r.chance(1, 8)) { // nothing to be moved
          size_t n = 0; char none[2] = {0x5a, 0x5a}; int way = int(r.below(3)); log += cat(server ? "server" : "client", way == 0 ? ".read(0) " : way == 1 ? ".peek(0) " : ".write(0) "); if (way == 2 && gone) continue;
          Out o = call([&] { return way == 0 ? (server ? s.read(none, n) : c.read(none, n)) : way == 1 ? (server ? s.peek(none, n) : c.peek(none, n)) : (server ? s.write("x", n) : c.write("x", n)); });
          if (way == 1 && reset) continue; if (!EXPECT(o.n == 0 && !o.thrown && none[0] == 0x5a && (server ? s.open() : c.open()), "counts", "moving nothing: ", str(o), " after ", log)) { bad = true; break; } mon::obs("moves of nothing");
        } else { // read
          if (in.empty() && !gone) continue; size_t n = 1 + r.below(r.chance(1, 3) ? 1 : 4000); log += cat(server ? "server" : "client", ".read(", n, ") "); std::string buf(n + 8, 0x5a);
          Out o = n == 1 ? (server ? call([&] { return s.read(buf[0]); }) : call([&] { return c.read(buf[0]); })) : (server ? call([&] { return s.read(&buf[0], n); }) : call([&] { return c.read(&buf[0], n); }));
          if (o.n == ecl::ConnectionHungUp && !o.thrown && gone && (in.empty() || reset)) { hungUp(); CHECK(!(server ? s.open() : c.open()), "hang up", "still open after noticing a hang up; ", log); }
          else {
            if (!EXPECT(o.n > 0 && o.n <= long(n) && o.n <= long(in.size()) && in.compare(0, size_t(o.n), buf, 0, size_t(o.n)) == 0, gone && in.empty() ? "hang up" : "bytes", "reading ", n, " of ", in.size(), ": ", str(o), " after ", log)) { bad = true; break; }
            CHECK(buf.compare(size_t(o.n), std::string::npos, std::string(n + 8 - size_t(o.n), 0x5a)) == 0, "bytes", "reading wrote beyond what it counted after ", log);
            in.erase(0, size_t(o.n)); mon::obs("short histories of transfers");
          }
        }
      }
      CHECK(s.open() == m.bound && c.open() == m.clientOpen, "state", "open: server ", s.open(), " client ", c.open(), " after ", log);
      if (m.bound && !m.serverJoined && r.chance(1, 4)) refused(s, "server", r);
      if (!m.clientOpen && r.chance(1, 4)) refused(c, "client", r);
      long expect = before + (m.bound ? 1 : 0) + (m.serverJoined ? 1 : 0) + (m.clientOpen ? 1 : 0) + (guard >= 0 ? 1 : 0);
      if (!EXPECT(openFds() == expect, "descriptors", "open descriptors ", openFds(), ", expected ", expect, " after ", log)) bad = true;
      if (guard < 0 && r.chance(1, 3)) guard = dup(sentinel[0]);
    }
    mon::nontrivial(mon::hash(log));
    mon::sample(log);
    if (guard >= 0) { s.close(); c.close(); dropGuard(); }
  }
  CHECK(fcntl(sentinel[0], F_GETFD) != -1, "descriptors", "a descriptor never given to the devices was closed after ", log);
  char ch = 0; int have = 0; ioctl(sentinel[0], FIONREAD, &have); CHECK(have == 1 && read(sentinel[0], &ch, 1) == 1 && ch == 's', "descriptors", "somebody else's bytes were taken after ", log);
  ::close(sentinel[0]); ::close(sentinel[1]);
  CHECK(openFds() == before - 2, "descriptors", "descriptors before and after: ", before - 2, " ", openFds(), " ", log);
}
REQUIRE_OBS("devices destroyed unused", 20);
GROUP(lifetimes, 40, 1500) {
  Rng& r = R; Port port(r); int sentinel[2]; if (pipe(sentinel) != 0) mon::harness_error("pipe");
  long before = openFds();
  { Planted<SocketServer> ps(sentinel[0]); Planted<SocketClient> pc(sentinel[0]);
    CHECK(!ps.d->open() && !pc.d->open(), "state", "devices are open before they were opened");
    if (r.flip()) { refused(*ps.d, "server", r); refused(*pc.d, "client", r); }
    if (r.flip()) { ps.d->close(); pc.d->close(); }
    if (r.chance(1, 3)) { Out o = call([&] { return ps.d->listen(); }); CHECK(o.n < 0 || o.thrown, "refusal", "listening on a closed server: ", str(o)); } }
  CHECK(openFds() == before && fcntl(sentinel[0], F_GETFD) != -1, "descriptors", "devices never opened closed a descriptor"); mon::obs("devices destroyed unused");
  { SocketServer s(port.n); CHECK(s.open() && openFds() == before + 1, "opening", "a constructed server is open ", s.open()); refused(s, "server", r);
    SocketClient keep; if (!join(s, keep, port.n, r)) return;
    // the port is taken now
    Out o; bool open = false; { std::unique_ptr<SocketServer> other; if (r.flip()) { o = call([&] { other.reset(new SocketServer(port.n)); return 1; }); } else { other.reset(new SocketServer); o = call([&] { return other->open(port.n); }); open = other->open(); if (r.flip()) refused(*other, "server", r); } }
    CHECK(o.thrown && o.flag == ecl::BusyError && !open, "opening", "opening a server where another listens: ", str(o), " open ", open);
    CHECK(openFds() == before + 3, "descriptors", "a server that could not be opened left descriptors: ", openFds() - before - 3);
    { Port nobody(r); o = call([&] { SocketClient c("localhost", nobody.n); return 1; }); CHECK(o.thrown && o.flag == ecl::ConnectionRefusedError, "connecting", "constructing a client nobody answers: ", str(o)); }
    CHECK(openFds() == before + 3, "descriptors", "a client that could not connect left descriptors");
    Out w = call([&] { return keep.write("still here", 10); }); char buf[32]; Out g = call([&] { return s.read(buf, 32); }); CHECK(w.n == 10 && g.n == 10 && !memcmp(buf, "still here", 10), "bytes", "a connection after others were refused: ", str(w), " ", str(g));
    std::unique_ptr<SocketServer> gone; // destroying an end hangs up
    std::unique_ptr<SocketServer> s2(new SocketServer); std::unique_ptr<SocketClient> c2(new SocketClient); Port p2(r); s2->open(p2.n); if (!join(*s2, *c2, p2.n, r)) return;
    if (r.flip()) { s2.reset(); char ch; o = call([&] { return c2->read(ch); }); CHECK(o.n == ecl::ConnectionHungUp, "hang up", "reading after the server was destroyed: ", str(o)); }
    else { c2.reset(); char ch; o = call([&] { return s2->read(ch); }); CHECK(o.n == ecl::ConnectionHungUp, "hang up", "reading after the client was destroyed: ", str(o)); }
    mon::obs("hang ups noticed");
  }
  CHECK(openFds() == before, "descriptors", "descriptors before and after: ", before, " ", openFds());
  ::close(sentinel[0]); ::close(sentinel[1]); mon::nontrivial(r.next());
}
// more waiting at once than sixteen bits can count
REQUIRE_OBS("great waiting counts", 4);
GROUP(much_waiting, 6, 120) {
  Rng& r = R; Port port(r); long before = openFds(); roomFor = 1 << 20;
  { SocketServer s; SocketClient c; s.open(port.n); bool ok = join(s, c, port.n, r); roomFor = 0; if (!ok) return;
    std::string sent = bytes(r, 70000 + r.below(60000)); bool toServer = r.flip(); size_t done = 0; std::string got;
    while (done < sent.size()) { size_t n = std::min(sent.size() - done, size_t(1) + r.below(40000)); Out o = toServer ? call([&] { return c.write(sent.data() + done, n); }) : call([&] { return s.write(sent.data() + done, n); }); if (!EXPECT(o.n == long(n), "counts", "writing ", n, " bytes with ", done, " waiting: ", str(o))) return; done += n; }
    Out o; long n = toServer ? settled(s, sent.size(), o) : settled(c, sent.size(), o);
    if (n >= 0 && n < long(sent.size())) { std::string p(sent.size(), 0); Out q = toServer ? call([&] { return s.peek(&p[0], p.size()); }) : call([&] { return c.peek(&p[0], p.size()); }); if (q.n <= n) { mon::obs("the system held bytes back"); } else CHECK(false, "counts", "counted ", n, " waiting bytes, peeked ", q.n); }
    else { CHECK(n == long(sent.size()) && !o.thrown, "counts", "waiting bytes are ", sent.size(), ", counted ", str(o)); mon::obs("great waiting counts"); std::string p(sent.size() + 8, 0x5a); Out q = toServer ? call([&] { return s.peek(&p[0], sent.size()); }) : call([&] { return c.peek(&p[0], sent.size()); }); CHECK(q.n > 0 && q.n <= long(sent.size()) && !sent.compare(0, q.n, p, 0, q.n) && p[sent.size()] == 0x5a, "peeking", "peeking for ", sent.size(), ": ", str(q)); if (q.n > 65535) mon::obs("great peeks"); }
    while (got.size() < sent.size()) { std::string p(sent.size() + 100, 0); Out q = toServer ? call([&] { return s.read(&p[0], p.size()); }) : call([&] { return c.read(&p[0], p.size()); }); if (!EXPECT(q.n > 0 && q.n <= long(p.size()), "bytes", "reading all that waits: ", str(q))) return; got.append(p, 0, size_t(q.n)); }
    CHECK(got == sent, "bytes", sent.size(), " bytes that waited together came out differently"); mon::nontrivial(mon::mix(sent.size(), toServer)); mon::sample(cat(sent.size(), " bytes waiting together")); }
  CHECK(openFds() == before, "descriptors", "descriptors before and after: ", before, " ", openFds());
}
struct Fault { const char* call; int err; ecl::ErrorFlag flag; };
REQUIRE_OBS("faults", 60);
GROUP(faults, 160, 2000) {
  Rng& r = R; Port port(r); long before = openFds();
  static const Fault table[] = {
    {"socket", EMFILE, ecl::OutOfRangeError}, {"socket", ENFILE, ecl::OutOfResourcesError}, {"socket", ENOMEM, ecl::MemoryError}, {"socket", EACCES, ecl::OpenError}, {"socket", EAFNOSUPPORT, ecl::NotSupportedError},
    {"bind", EACCES, ecl::PermissionsError}, {"bind", EADDRINUSE, ecl::BusyError}, {"bind", ENOMEM, ecl::MemoryError}, {"bind", EADDRNOTAVAIL, ecl::InvalidObjectError},
    {"connect", EACCES, ecl::PermissionsError}, {"connect", EPERM, ecl::PermissionsError}, {"connect", ETIMEDOUT, ecl::TimeOutError}, {"connect", ECONNREFUSED, ecl::ConnectionRefusedError}, {"connect", EINTR, ecl::InterruptedError}, {"connect", EADDRINUSE, ecl::BusyError},
    {"accept", EMFILE, ecl::OutOfResourcesError}, {"accept", EINTR, ecl::InterruptedError}, {"accept", ECONNABORTED, ecl::InterruptedError}, {"accept", ENOMEM, ecl::MemoryError}, {"accept", EPERM, ecl::PermissionsError},
    {"recv", EAGAIN, ecl::InterruptedError}, {"recv", EINTR, ecl::InterruptedError}, {"recv", ENOMEM, ecl::MemoryError}, {"recv", ENOTCONN, ecl::ConnectionError}, {"recv", EINVAL, ecl::InvalidArgError}, {"recv", EFAULT, ecl::SystemFailureError},
    {"send", EAGAIN, ecl::BlockingError}, {"send", EINTR, ecl::InterruptedError}, {"send", ENOBUFS, ecl::OutOfResourcesError}, {"send", EACCES, ecl::PermissionsError}, {"send", ENOTCONN, ecl::ConnectionError}, {"send", EMSGSIZE, ecl::WriteError}};
  const Fault& f = table[mon::current_case < sizeof table / sizeof table[0] ? mon::current_case : r.below(sizeof table / sizeof table[0])];
  {
    SocketServer s; SocketClient c; std::string name = f.call; Out o = {}; bool open = false; ecl::ErrorFlag reported = ecl::NoError;
    auto arm = [&] { failLeft = 0; failErrno = f.err; failCall = f.call; };
    if (name == "accept") { s.open(port.n); arm(); o = call([&] { return s.listen(); }); reported = s.error().flag(); CHECK(o.n < 0, "faults", "listening in spite of errno ", f.err, ": ", str(o)); }
    else if (name == "bind" || (name == "socket" && r.flip())) { arm(); o = call([&] { return s.open(port.n); }); open = s.open(); }
    else if (name == "socket") { arm(); o = call([&] { return c.open("127.0.0.1", port.n); }); open = c.open(); }
    else {
      s.open(port.n); if (!join(s, c, port.n, r)) return; bool server = r.flip();
      if (name == "connect") { arm(); o = call([&] { return c.open("127.0.0.1", port.n); }); open = c.open(); }
      else {
        c.write("abc", 3); s.write("abc", 3); char buf[8]; memset(buf, 0, sizeof buf); bool peek = name == "recv" && r.chance(1, 3); arm();
        if (name == "recv") o = server ? call([&] { return peek ? s.peek(buf, 8) : s.read(buf, 8); }) : call([&] { return peek ? c.peek(buf, 8) : c.read(buf, 8); });
        else o = server ? call([&] { return s.write("def", 3); }) : call([&] { return c.write("def", 3); });
        reported = server ? s.error().flag() : c.error().flag();
        CHECK(o.n == ecl::ConnectionProblem, "faults", "a failing ", name, " came to ", str(o));
        // nothing was lost, nothing was sent
        // what succeeds leaves no error behind
        { int what = int(r.below(4)); Out q; char p[8]; if (what == 0) q = server ? call([&] { return s.peek(p, 3); }) : call([&] { return c.peek(p, 3); }); else if (what == 1) q = server ? call([&] { return s.remaining(); }) : call([&] { return c.remaining(); }); else if (what == 2) q = server ? call([&] { return s.write("", 0ul); }) : call([&] { return c.write("", 0ul); });
          if (what < 2) CHECK(q.n == 3 && !q.thrown, "faults", what, " after a failed ", name, ": ", str(q)); if (what < 2 || (what == 2 && q.n == 0)) CHECK((server ? s.error().flag() : c.error().flag()) == ecl::NoError, "faults", "an error is still reported after ", what == 0 ? "peeking" : what == 1 ? "counting" : "writing"); }
        Out x = server ? call([&] { return s.read(buf, 3); }) : call([&] { return c.read(buf, 3); }); CHECK(x.n == 3 && !memcmp(buf, "abc", 3), "faults", "reading after a failed ", name, ": ", str(x));
        if (server) { s.write("ghi", 3); CHECK(s.error().flag() == ecl::NoError, "faults", "an error is still reported after a successful transfer"); memset(buf, 0, 8); c.read(buf, 6); Out y = call([&] { return strlen(buf) < 6 ? (c.read(buf + 3, 3), 0) : 0; }); (void)y; } else { c.write("ghi", 3); CHECK(c.error().flag() == ecl::NoError, "faults", "an error is still reported after a successful transfer"); memset(buf, 0, 8); s.read(buf, 6); if (strlen(buf) < 6) s.read(buf + 3, 3); }
        CHECK(!strcmp(buf, "abcghi"), "faults", "bytes after a failed ", name, ": ", mon::quote(buf)); CHECK((server ? s.error().flag() : c.error().flag()) == ecl::NoError, "faults", "an error is still reported after successful transfers");
      }
    }
    failCall = 0;
#ifndef NDEBUG
    CHECK(o.thrown && o.flag == f.flag, "faults", name, " failing with errno ", f.err, ": ", str(o), ", expected ", int(f.flag)); (void)reported;
#else
    if (name == "recv" || name == "send") CHECK(!o.thrown && reported == f.flag, "faults", name, " failing with errno ", f.err, " reported as ", int(reported), ", expected ", int(f.flag));
    else CHECK(o.thrown && o.flag == f.flag, "faults", name, " failing with errno ", f.err, ": ", str(o), ", expected ", int(f.flag));
#endif
    CHECK(!open, "faults", "open in spite of a failing ", name);
    mon::obs("faults"); mon::nontrivial(mon::hash(cat(name, f.err)));
    mon::sample(cat(name, " errno ", f.err));
    // and it works afterwards
    s.close(); c.close(); s.open(port.n); if (join(s, c, port.n, r)) { char b2[4]; c.write("ok", 2); Out z = call([&] { return s.read(b2, 4); }); CHECK(z.n == 2 && b2[0] == 'o' && b2[1] == 'k', "faults", "a connection after a failing ", name, ": ", str(z)); }
  }
  CHECK(openFds() == before, "descriptors", "descriptors before and after a fault: ", before, " ", openFds());
}
#endif
