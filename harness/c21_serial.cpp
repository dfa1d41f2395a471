// C21: serial ports transfer bytes faithfully with the settings and timeouts asked for
#include "mon.hpp"
#include <unistd.h>
#include <ecl/devices/serial.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <stdarg.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <atomic>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>
using mon::Rng;
using mon::cat;
using ecl::Serial;
static long openFds() { long n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void nap(long us) { timespec t = {us / 1000000, (us % 1000000) * 1000}; syscall(SYS_nanosleep, &t, 0); }
static long long nowNs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }

// what is asked of the system (the C library says EINVAL where a pseudo terminal has no parity or size to set, the rest is set)
static int lastSetFd = -1, lastSetAction = -1, sets = 0; static termios lastSet;
extern "C" int tcsetattr(int fd, int action, const termios* t) {
  static int (*real)(int, int, const termios*) = (int (*)(int, int, const termios*))dlsym(RTLD_NEXT, "tcsetattr");
  int rc = real(fd, action, t); if (rc == 0 || errno == EINVAL) { lastSetFd = fd; lastSetAction = action; lastSet = *t; ++sets; } return rc;
}
struct Sleep { int clock, flags; long long ns; };
static bool record = false; static std::vector<Sleep> sleeps;
extern "C" int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rest) {
  if (record) sleeps.push_back({int(c), flags, t->tv_sec * 1000000000LL + t->tv_nsec});
  return syscall(SYS_clock_nanosleep, c, flags, t, rest) == 0 ? 0 : errno;
}
static const char* failCall = 0; static int failErrno = 0, failFd = -1;
static bool failing(const char* c, int fd) { if (!failCall || strcmp(c, failCall) || (failFd >= 0 && fd != failFd)) return false; failCall = 0; errno = failErrno; return true; }
extern "C" ssize_t read(int fd, void* p, size_t n) { static ssize_t (*real)(int, void*, size_t) = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read"); if (failing("read", fd)) return -1; return real(fd, p, n); }
extern "C" ssize_t write(int fd, const void* p, size_t n) { static ssize_t (*real)(int, const void*, size_t) = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write"); if (failing("write", fd)) return -1; return real(fd, p, n); }
extern "C" int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); if (cmd == F_SETLK && failing("lock", fd)) return -1; return int(syscall(SYS_fcntl, fd, cmd, arg)); }
extern "C" int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (!strncmp(path, "/dev/pts/", 9) && failing("open", -1)) return -1; return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode)); }

// the other end of the line: a pseudo terminal whose slave somebody (us) keeps open
struct Line {
  int master, keep; std::string name;
  Line() : master(posix_openpt(O_RDWR | O_NOCTTY)), keep(-1) {
    if (master < 0 || grantpt(master) != 0 || unlockpt(master) != 0) mon::harness_error("no pseudo terminals here");
    char b[128]; if (ptsname_r(master, b, sizeof b) != 0) mon::harness_error("ptsname"); name = b;
    keep = ::open(b, O_RDWR | O_NOCTTY | O_NONBLOCK); if (keep < 0) mon::harness_error("cannot open a pseudo terminal");
    termios t; memset(&t, 0, sizeof t); t.c_cflag = CS8 | CREAD | CLOCAL; tcsetattr(keep, TCSANOW, &t); fcntl(master, F_SETFL, O_NONBLOCK);
  }
  void hangUp() { if (master >= 0) ::close(master); if (keep >= 0) ::close(keep); master = keep = -1; }
  ~Line() { hangUp(); }
  bool put(const std::string& s) { size_t at = 0; for (int k = 0; at < s.size() && k < 4000; ++k) { ssize_t n = ::write(master, s.data() + at, s.size() - at); if (n > 0) at += size_t(n); else nap(500); } return at == s.size(); }
  std::string take(size_t want, long patience = 4000) { std::string got; for (long k = 0; got.size() < want && k < patience; ++k) { char b[4096]; ssize_t n = ::read(master, b, sizeof b); if (n > 0) got.append(b, size_t(n)); else nap(k < 50 ? 50 : 1000); } return got; }
  // wait until the line delivered n bytes to the slave's side
  bool settle(long n) { for (int k = 0; k < 8000; ++k) { int have = 0; ioctl(keep, FIONREAD, &have); if (have >= n) return true; nap(k < 50 ? 50 : 1000); } return false; }
};
struct Out { long n; bool thrown; ecl::ErrorFlag flag; };
template <class F> static Out call(F f) {
  Out o = {0, false, ecl::NoError};
  try { o.n = long(f()); } catch (const ecl::StandardException& e) { o.thrown = true; o.n = -1; o.flag = e.flag(); }
  return o;
}
static std::string str(const Out& o) { return o.thrown ? cat("thrown ", int(o.flag)) : cat(o.n); }
static std::string bytes(Rng& r, size_t n, int bits) { std::string s(n, 0); int mode = int(r.below(4)); for (auto& c : s) { int v = mode == 0 ? int("\n\r\0\x03\x04\x11\x13\x1a\x7f\xff"[r.below(10)]) & 255 : int(r.below(256)); c = char(v & ((1 << bits) - 1)); } return s; }
static const speed_t SPEEDS[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
struct Settings { int baud, data, stop, parity; };
static Settings settings(Rng& r) { return {int(r.below(14)), int(r.below(4)), r.flip() ? 0 : 2, int(r.below(3))}; }
static std::string str(const Settings& s) { return cat("baud ", s.baud, " data ", s.data + 5, " stop ", s.stop, " parity ", s.parity); }
static bool openWith(Serial& s, const std::string& name, const Settings& x, Out& o) { o = call([&] { return s.open(name, ecl::BaudRate(x.baud), ecl::DataBits(x.data), ecl::StopBits(x.stop), ecl::Parity(x.parity)); }); return !o.thrown && o.n == 1; }
static void auditSettings(const Settings& x, int wantSets, const std::string& log) {
  const termios& t = lastSet; static const tcflag_t SIZE[] = {CS5, CS6, CS7, CS8};
  if (!EXPECT(wantSets > 0, "settings", "opening applied no settings; ", log)) return;
  CHECK(cfgetospeed(&t) == SPEEDS[x.baud] && cfgetispeed(&t) == SPEEDS[x.baud], "settings", str(x), ": speed ", cfgetospeed(&t), "/", cfgetispeed(&t));
  CHECK((t.c_cflag & CSIZE) == SIZE[x.data], "settings", str(x), ": size ", t.c_cflag & CSIZE);
  CHECK(((t.c_cflag & CSTOPB) != 0) == (x.stop == 2), "settings", str(x), ": stop bits ", t.c_cflag & CSTOPB);
  CHECK(((t.c_cflag & PARENB) != 0) == (x.parity != 0), "settings", str(x), ": parity enabled ", t.c_cflag & PARENB);
  if (x.parity) CHECK(((t.c_cflag & PARODD) != 0) == (x.parity == 1), "settings", str(x), ": odd parity ", t.c_cflag & PARODD);
  if (x.parity) CHECK((t.c_iflag & INPCK) != 0, "settings", str(x), ": parity is not checked");
  CHECK((t.c_cflag & (CLOCAL | CREAD)) == (CLOCAL | CREAD) && !(t.c_cflag & CRTSCTS), "settings", str(x), ": control flags ", t.c_cflag);
  CHECK(!(t.c_iflag & (IXON | IXOFF | IXANY | ICRNL | INLCR | IGNCR | IUCLC | PARMRK)) && !(t.c_oflag & OPOST) && !(t.c_lflag & (ICANON | ECHO | ECHOE | ECHOK | ECHONL | ISIG | IEXTEN)), "settings", str(x), ": flags ", t.c_iflag, " ", t.c_oflag, " ", t.c_lflag);
  if (x.data == 3) CHECK(!(t.c_iflag & ISTRIP), "settings", str(x), ": the eighth bit is stripped");
  for (int k = 0; k < NCCS; ++k) if (k != VMIN && k != VTIME) { if (!EXPECT(t.c_cc[k] == 0, "settings", str(x), ": special character ", k, " is ", int(t.c_cc[k]))) break; }
  CHECK(t.c_cc[VMIN] == 0, "settings", str(x), ": reads wait for ", int(t.c_cc[VMIN]), " bytes");
  mon::obs("settings compared");
}
// devices built on memory full of somebody's descriptor: whatever they do not set, they must not use
template <class D> struct Planted {
  alignas(16) char room[sizeof(D)]; D* d;
  explicit Planted(int fd) : d(0) { for (size_t k = 0; k + sizeof fd <= sizeof room; k += sizeof fd) memcpy(room + k, &fd, sizeof fd); d = new (room) D(); }
  ~Planted() { d->~D(); }
};
template <class Byte> static Out readAs(Serial& s, std::string& into, size_t n, bool single) {
  std::vector<Byte> b(n + 8, Byte(0x5a)); Out o; if (single) o = call([&] { return s.read(b[0]); }); else o = call([&] { return s.read(&b[0], n); });
  into.assign((const char*)&b[0], n + 8); return o;
}
template <class Byte> static Out writeAs(Serial& s, const std::string& data, bool single) {
  std::vector<Byte> b(data.begin(), data.end()); if (single) return call([&] { return s.write(b[0]); }); return call([&] { return s.write((const Byte*)b.data(), (unsigned long)b.size()); });
}
static Out readAny(Serial& s, std::string& into, size_t n, Rng& r) { bool single = n == 1 && r.flip(); switch (r.below(3)) { case 0: return readAs<char>(s, into, n, single); case 1: return readAs<unsigned char>(s, into, n, single); default: return readAs<signed char>(s, into, n, single); } }
static Out writeAny(Serial& s, const std::string& d, Rng& r) { bool single = d.size() == 1 && r.flip(); switch (r.below(3)) { case 0: return writeAs<char>(s, d, single); case 1: return writeAs<unsigned char>(s, d, single); default: return writeAs<signed char>(s, d, single); } }
static void refused(Serial& s, Rng& r, const std::string& log) {
  std::string b; Out o; bool reading = r.flip(); if (reading) o = readAny(s, b, 1 + r.below(9), r); else o = writeAny(s, "hello", r);
#ifndef NDEBUG
  CHECK(o.thrown && o.flag == ecl::OpenError, "refusal", reading ? "reading" : "writing", " on a closed port: ", str(o), " after ", log);
#else
  CHECK(!o.thrown && o.n == -1 && s.error().flag() == ecl::OpenError, "refusal", reading ? "reading" : "writing", " on a closed port: ", str(o), " after ", log);
#endif
  if (reading) CHECK(b.find_first_not_of('\x5a') == std::string::npos, "refusal", "reading a closed port delivered something");
  CHECK(s.remaining() <= 0, "refusal", "a closed port has bytes waiting"); mon::obs("refusals");
}
static unsigned vtimeOf(unsigned long ms) { unsigned long t = (ms + 99) / 100; return unsigned(t > 255 ? 255 : t); }

REQUIRE_OBS("settings compared", 400);
REQUIRE_OBS("transfers compared", 1500);
REQUIRE_OBS("refusals", 100);
REQUIRE_OBS("mode switches with bytes waiting", 60);
GROUP(histories, 300, 6000) {
  Rng& r = R; int sentinel[2]; if (pipe(sentinel) != 0) mon::harness_error("pipe"); Line other; if (::write(sentinel[1], "s", 1) != 1) mon::harness_error("pipe write");
  termios otherWas; tcgetattr(other.keep, &otherWas); other.put("keep"); other.settle(4);
  long before = openFds(); std::string log;
  {
    Line line; Planted<Serial> ps(r.flip() ? sentinel[0] : other.keep); Serial& s = *ps.d; bool isOpen = false, gone = false, bad = false; Settings x = settings(r); int bits = 8; std::string in; long policy = -2; // -2: unknown, -1: not blocking, else milliseconds
    int steps = 6 + int(r.below(40));
    for (int k = 0; k < steps && !bad && !gone; ++k) {
      int op = int(r.below(15)); std::string buf; Out o;
      if (op == 0 || (!isOpen && op < 5)) {
        x = settings(r); bits = x.data + 5; bool waiting = r.chance(1, 4); if (waiting) { std::string junk = bytes(r, 1 + r.below(50), 5); line.put(junk); if (!line.settle(long((isOpen ? in.size() : 0) + junk.size()))) { mon::inconclusive("the line does not deliver"); return; } }
        int had = sets; log += cat("open(", str(x), waiting ? ", bytes waiting" : "", ") ");
        if (!EXPECT(openWith(s, line.name, x, o), "opening", "opening: ", str(o), " after ", log)) { bad = true; break; }
        isOpen = true; in.clear(); auditSettings(x, sets - had, log);
        if (policy == -2) { CHECK(lastSet.c_cc[VTIME] == 50, "settings", "a port opened for the first time waits for ", int(lastSet.c_cc[VTIME]), " tenths of seconds, documented are 50"); }
        CHECK(s.error().flag() == ecl::NoError, "state", "an error after a successful opening");
        s.unblock(); policy = -1; if (waiting) { long n = s.remaining(); CHECK(n == 0, "settings", n, " bytes wait in a port just opened; ", log); }
      } else if (op == 1) { log += "close "; s.close(); if (isOpen) { in.clear(); } isOpen = false; if (r.chance(1, 3)) s.close(); }
      else if (!isOpen && op == 5) { log += "block "; s.block(100 * (1 + r.below(5))); if (r.flip()) s.unblock(); policy = -1; if (r.flip()) { s.clear(); s.clearInputBuffer(); } }
      else if (!isOpen) { log += "refused "; refused(s, r, log); }
      else if (op == 2) { size_t n = 1 + r.below(r.flip() ? 4 : 1200); std::string d = bytes(r, n, bits); log += cat("write(", n, ") "); o = writeAny(s, d, r);
        if (!EXPECT(o.n == long(n) && !o.thrown, "counts", "writing ", n, " bytes: ", str(o), " after ", log)) { bad = true; break; }
        std::string got = line.take(n); if (!EXPECT(got == d, "bytes", "written ", mon::quote(d.substr(0, 60)), ", at the other end ", mon::quote(got.substr(0, 60)), " (", n, ", ", got.size(), ") after ", log)) { bad = true; break; } mon::obs("transfers compared"); }
      else if (op <= 5) { if (in.size() > 2500) continue; size_t n = 1 + r.below(r.flip() ? 4 : 1200); std::string d = bytes(r, n, bits); log += cat("arrive(", n, ") "); line.put(d); in += d; if (!line.settle(long(in.size()))) { int have = 0; ioctl(line.keep, FIONREAD, &have); CHECK(false, "bytes", "of ", in.size(), " bytes that arrived ", have, " wait after ", log); bad = true; break; } }
      else if (op == 6) { log += "remaining "; o = call([&] { return s.remaining(); }); if (!EXPECT(o.n == long(in.size()), "counts", "waiting are ", in.size(), " bytes, counted ", str(o), " after ", log)) bad = true; }
      else if (op <= 9) {
        if (in.empty() && policy > 20) continue; size_t n = 1 + r.below(r.flip() ? 3 : 1500); log += cat("read(", n, ") "); o = readAny(s, buf, n, r); size_t want = std::min(n, in.size());
        if (!EXPECT(!o.thrown && o.n == long(want) && in.compare(0, want, buf, 0, want) == 0, "bytes", "reading ", n, " of ", in.size(), ": ", str(o), " ", mon::quote(buf.substr(0, std::min<size_t>(want, 60))), ", not ", mon::quote(in.substr(0, std::min<size_t>(want, 60))), " after ", log)) { bad = true; break; }
        CHECK(buf.compare(want, std::string::npos, std::string(n + 8 - want, 0x5a)) == 0, "bytes", "reading wrote beyond what it counted after ", log); in.erase(0, want); mon::obs("transfers compared"); }
      else if (op == 10 || op == 11) {
        static const long modes[] = {-1, 0, 1, 3, 4, 5, 7, 13, 19, 20, 33, 99, 100, 200, 500, 1000, 2500, 9999, 25000, 25500, 25600, 30000, 51200, 100000};
        policy = r.flip() ? modes[r.below(sizeof modes / sizeof *modes)] : long(r.below(40000)); int had = sets; log += cat(policy < 0 ? "unblock" : "block(", policy, ") ");
        if (policy < 0) s.unblock(); else s.block((unsigned long)policy);
        if (!EXPECT(sets > had, "timeouts", "switching how to read set nothing; ", log)) { bad = true; break; }
        unsigned want = policy < 100 ? 0 : vtimeOf((unsigned long)policy); unsigned v = lastSet.c_cc[VTIME]; bool multiple = policy < 100 || policy % 100 == 0 || policy > 25500;
        CHECK(lastSet.c_cc[VMIN] == 0 && (multiple ? v == want : (v == want || v + 1 == want)), "timeouts", "a timeout of ", policy, " ms is set as ", v, " tenths of seconds");
        termios t; tcgetattr(line.keep, &t); CHECK(t.c_cc[VTIME] == v && t.c_cc[VMIN] == 0, "timeouts", "the terminal did not take the timeout");
        CHECK(cfgetospeed(&lastSet) == SPEEDS[x.baud], "settings", "switching how to read changed the speed"); if (!in.empty()) mon::obs("mode switches with bytes waiting"); }
      else if (op == 12) { log += "clear "; if (r.flip()) s.clear(); else s.clearInputBuffer(); in.clear(); CHECK(s.remaining() == 0, "counts", "bytes wait in a buffer just cleared; ", log); }
      else if (op == 13 && r.chance(1, 3)) { log += "hangUp "; long fdsThen = openFds(); line.hangUp(); o = call([&] { return writeAny(s, "x", r).n; }); CHECK(o.n == -1, "hang up", "writing to a terminal that is gone: ", str(o)); bool still = s.open(); CHECK(!still && openFds() == fdsThen - 3, "hang up", "a port whose device is gone is open ", still, ", descriptors closed ", fdsThen - openFds(), " after ", log); gone = true; isOpen = false; refused(s, r, log); mon::obs("devices that vanished"); }
      else if (op == 14 && r.chance(1, 2)) { // refused openings
        if (r.flip()) { log += "openAbsent "; o = call([&] { return s.open("/dev/pts/nothing-here"); }); CHECK(o.thrown && o.flag == ecl::NotFoundError, "opening", "opening an absent device: ", str(o)); }
        else if (r.flip()) { log += "openDirectory "; o = call([&] { return s.open("/dev/pts"); }); CHECK(o.thrown && o.flag == ecl::InvalidObjectError, "opening", "opening a directory: ", str(o)); }
        else if (r.flip()) { log += "openOddStop "; o = call([&] { return s.open(line.name, ecl::BaudRate_9600, ecl::DataBits_8, ecl::StopBits_15); }); CHECK(o.thrown && o.flag == ecl::ConfigurationError, "opening", "one and a half stop bits: ", str(o)); }
        else if (r.flip()) { log += "openOddBaud "; o = call([&] { return s.open(line.name, ecl::BaudRate(14 + r.below(2))); }); CHECK(o.thrown && o.flag == ecl::ConfigurationError, "opening", "an impossible baud rate: ", str(o)); }
        else { static const int E[] = {EACCES, EMFILE, EINTR}; static const ecl::ErrorFlag F[] = {ecl::PermissionsError, ecl::OutOfResourcesError, ecl::InterruptedError}; int w = int(r.below(4)); log += cat("openFailing", w, " "); failErrno = w < 3 ? E[w] : EAGAIN; failFd = -1; failCall = w < 3 ? "open" : "lock"; o = call([&] { return s.open(line.name); }); failCall = 0; CHECK(o.thrown && o.flag == (w < 3 ? F[w] : ecl::OpenError), "opening", "opening fails with errno ", failErrno, ": ", str(o)); }
        CHECK(!s.open(), "state", "open after an opening that was refused; ", log); isOpen = false; in.clear(); mon::obs("refusals"); }
      else if (op == 13) { // a failing transfer loses nothing
        bool reading = r.flip(); static const int E[] = {EIO, EINTR, EAGAIN}; static const ecl::ErrorFlag F[] = {ecl::SystemFailureError, ecl::InterruptedError, ecl::BlockingError}; int w = int(r.below(3)); log += cat(reading ? "readFailing" : "writeFailing", w, " ");
        failErrno = E[w]; failFd = -1; failCall = reading ? "read" : "write"; if (reading) o = readAny(s, buf, 1 + r.below(20), r); else o = writeAny(s, r.flip() ? "q" : "qqqq", r); failCall = 0;
#ifndef NDEBUG
        CHECK(o.thrown && o.flag == F[w], "faults", "a transfer failing with errno ", E[w], ": ", str(o));
#else
        CHECK(o.n == -1 && s.error().flag() == F[w], "faults", "a transfer failing with errno ", E[w], ": ", str(o), " error ", int(s.error().flag()));
#endif
        mon::obs("failed transfers"); }
      if (!gone) CHECK(s.open() == isOpen, "state", "open is ", s.open(), " after ", log);
      if (!gone) { long expect = before + 2 + (isOpen ? 1 : 0); if (!EXPECT(openFds() == expect, "descriptors", "open descriptors ", openFds(), ", expected ", expect, " after ", log)) bad = true; }
    }
    mon::nontrivial(mon::hash(log)); mon::sample(log);
  }
  CHECK(fcntl(sentinel[0], F_GETFD) != -1 && fcntl(other.keep, F_GETFD) != -1, "descriptors", "a descriptor never given to the port was closed after ", log);
  termios otherIs; tcgetattr(other.keep, &otherIs); CHECK(otherIs.c_cc[VTIME] == otherWas.c_cc[VTIME] && otherIs.c_cflag == otherWas.c_cflag && otherIs.c_iflag == otherWas.c_iflag, "descriptors", "the settings of somebody else's terminal were changed after ", log);
  int have = 0; ioctl(other.keep, FIONREAD, &have); CHECK(have == 4, "descriptors", "what waited at somebody else's terminal was taken after ", log);
  ::close(sentinel[0]); ::close(sentinel[1]); CHECK(openFds() == before - 2, "descriptors", "descriptors before and after: ", before - 2, " ", openFds(), " ", log);
}
// ---------------------------------------------------------------- giving up after the timeout asked for
REQUIRE_OBS("short waits measured", 60);
REQUIRE_OBS("reads ended by arrivals", 20);
GROUP(timeouts, 120, 1500) {
  Rng& r = R; Line line; Serial s(line.name); CHECK(s.open() && lastSet.c_cc[VTIME] == 50 && lastSet.c_cc[VMIN] == 0, "settings", "a constructed port waits for ", int(lastSet.c_cc[VTIME]), " tenths of seconds"); std::string buf;
  unsigned long ms = r.chance(1, 4) ? r.pick(std::vector<unsigned long>({1, 2, 4, 5, 6, 19, 20, 21, 99, 0})) : r.chance(1, 8) ? 100 * (1 + r.below(2)) : 1 + r.below(99);
  s.block(ms); sleeps.clear(); record = true; long long t0 = nowNs(); Out o = readAny(s, buf, 1 + r.below(20), r); long long took = nowNs() - t0; record = false;
  CHECK(o.n == 0 && !o.thrown, "timeouts", "reading with nothing there: ", str(o));
  CHECK(buf.find_first_not_of('\x5a') == std::string::npos, "timeouts", "reading nothing delivered something");
  CHECK(took >= (long long)ms * 1000000 - (ms >= 100 ? 20000000 : 0), "timeouts", "a read with a timeout of ", ms, " ms gave up after ", took, " ns");
  if (ms < 100 && ms > 0) {
    if (!EXPECT(!sleeps.empty(), "timeouts", "a short timeout never slept")) return;
    long long asked = sleeps.back().ns; bool absolute = sleeps.back().flags & TIMER_ABSTIME; long long period = ms < 5 ? 1000000 : ms < 20 ? 2000000 : 5000000;
    if (absolute) { timespec now; clock_gettime(clockid_t(sleeps.back().clock), &now); long long span = asked - sleeps[0].ns + period; CHECK(span >= (long long)ms * 1000000 && span < (long long)ms * 1000000 + period || took < (long long)ms * 1000000 + period + 2000000, "timeouts", "a timeout of ", ms, " ms is a wait of ", span, " ns"); }
    CHECK(long(sleeps.size()) <= (long)(ms * 1000000 / period + 1), "timeouts", "a timeout of ", ms, " ms slept ", sleeps.size(), " times"); mon::obs("short waits measured");
  }
  // something is there already: no waiting
  std::string d = bytes(r, 1 + r.below(30), 8); line.put(d); if (!line.settle(long(d.size()))) { mon::inconclusive("the line does not deliver"); return; }
  sleeps.clear(); record = true; o = readAny(s, buf, d.size() + 5, r); record = false;
  CHECK(o.n == long(d.size()) && buf.compare(0, d.size(), d) == 0, "bytes", "reading what waits with a timeout of ", ms, ": ", str(o), " of ", d.size()); CHECK(sleeps.empty(), "timeouts", "a read slept although bytes were waiting");
  // something arrives while waiting
  s.block(r.flip() ? 60 + r.below(40) : 20000); d = bytes(r, 1 + r.below(3), 8); long after = long(r.below(30));
  std::thread t([&] { nap(after * 1000); line.put(d); }); std::string all; long long t1 = nowNs();
  while (all.size() < d.size() && nowNs() - t1 < 15000000000LL) { o = readAny(s, buf, 8, r); if (o.n > 0) all.append(buf, 0, size_t(o.n)); if (o.n < 0) break; }
  took = nowNs() - t1; t.join(); CHECK(all == d, "bytes", "arriving while waiting: ", mon::quote(d), ", read ", mon::quote(all)); CHECK(took < 15000000000LL, "timeouts", "bytes that arrived were not delivered before ", took, " ns"); mon::obs("reads ended by arrivals");
  // not blocking
  s.unblock(); sleeps.clear(); record = true; o = readAny(s, buf, 4, r); record = false; CHECK(o.n == 0 && sleeps.empty() && lastSet.c_cc[VTIME] == 0, "timeouts", "an unblocked read with nothing there: ", str(o));
  mon::nontrivial(mon::mix(ms, mon::hash(d))); mon::sample(cat("timeout ", ms, " ms"));
}
// ---------------------------------------------------------------- long transfers both ways
REQUIRE_OBS("bytes carried", 400000);
GROUP(streams, 16, 300) {
  Rng& r = R; Line line; Settings x = settings(r); x.data = 3; Serial s; Out o; if (!EXPECT(openWith(s, line.name, x, o), "opening", "opening: ", str(o))) return; s.block(r.flip() ? 20000 : 50);
  std::string out = bytes(r, 2000 + r.below(60000), 8), in = bytes(r, 2000 + r.below(60000), 8), farGot, got; std::atomic<bool> stop(false); uint64_t chunkSeed = r.next();
  std::thread far([&] { Rng q(chunkSeed); size_t at = 0; char b[8192]; while (!stop && (at < in.size() || farGot.size() < out.size())) { bool idle = true;
      ssize_t n = ::read(line.master, b, 1 + q.below(sizeof b - 1)); if (n > 0) { farGot.append(b, size_t(n)); idle = false; }
      if (at < in.size()) { size_t w = 1 + q.below(900); if (w > in.size() - at) w = in.size() - at; n = ::write(line.master, in.data() + at, w); if (n > 0) { at += size_t(n); idle = false; } }
      if (idle || q.chance(1, 20)) nap(long(q.below(300))); } });
  size_t at = 0; long long t0 = nowNs(); bool ok = true;
  while (ok && (at < out.size() || got.size() < in.size())) {
    if (nowNs() - t0 > 40000000000LL) { ok = EXPECT(false, "bytes", "a transfer stalls with ", at, " of ", out.size(), " written and ", got.size(), " of ", in.size(), " read"); break; }
    if (at < out.size()) { size_t n = 1 + r.below(r.flip() ? 3 : 3000); if (n > out.size() - at) n = out.size() - at; o = writeAny(s, out.substr(at, n), r); if (!(ok = EXPECT(o.n > 0 && o.n <= long(n), "counts", "writing ", n, " bytes: ", str(o)))) break; at += size_t(o.n); }
    if (got.size() < in.size() && (r.flip() || at >= out.size())) { std::string buf; size_t n = 1 + r.below(r.flip() ? 3 : 5000); if (at < out.size() && s.remaining() == 0) continue; o = readAny(s, buf, n, r); if (!(ok = EXPECT(o.n >= 0 && o.n <= long(n), "counts", "reading ", n, " bytes: ", str(o)))) break; got.append(buf, 0, size_t(o.n)); }
  }
  for (int k = 0; ok && k < 20000 && farGot.size() < out.size(); ++k) nap(500);
  stop = true; far.join();
  if (ok) { CHECK(got == in, "bytes", "what was read differs from what was sent (", got.size(), " of ", in.size(), ")"); CHECK(farGot == out, "bytes", "what arrived at the other end differs from what was written (", farGot.size(), " of ", out.size(), ")"); mon::obs("bytes carried", in.size() + out.size()); }
  mon::nontrivial(mon::hash(in)); mon::sample(cat(in.size(), " bytes in, ", out.size(), " out, ", str(x)));
}
// ---------------------------------------------------------------- one process at a time
REQUIRE_OBS("ports held by another process", 10);
GROUP(locking, 20, 300) {
  Rng& r = R; Line line; int a[2], b[2]; if (pipe(a) || pipe(b)) mon::harness_error("pipe");
  pid_t pid = fork();
  if (pid == 0) { ::close(a[1]); ::close(b[0]); char c = 'x'; { Serial other; try { c = other.open(line.name) ? 'o' : 'f'; } catch (...) { c = 'e'; } if (::write(b[1], &c, 1) != 1) _exit(1); if (::read(a[0], &c, 1) < 0) _exit(1); other.close(); } c = 'c'; if (::write(b[1], &c, 1) != 1) _exit(1); if (::read(a[0], &c, 1) < 0) _exit(1); _exit(0); }
  ::close(a[0]); ::close(b[1]); char c = 0; if (::read(b[0], &c, 1) != 1 || c != 'o') { CHECK(false, "locking", "another process could not open the port: ", c); }
  else {
    long before = openFds(); Serial s; Settings x = settings(r); Out o; bool ok = openWith(s, line.name, x, o);
    CHECK(!ok && o.thrown && o.flag == ecl::OpenError && !s.open(), "locking", "opening a port another process holds: ", str(o)); CHECK(openFds() == before, "descriptors", "a refused opening left descriptors: ", openFds() - before);
    if (::write(a[1], "g", 1) != 1 || ::read(b[0], &c, 1) != 1) mon::harness_error("other process"); CHECK(openWith(s, line.name, x, o), "locking", "opening a port another process has closed: ", str(o)); mon::obs("ports held by another process");
  }
  if (::write(a[1], "g", 1) != 1) {} ::close(a[1]); ::close(b[0]); int st; waitpid(pid, &st, 0); mon::nontrivial(r.next());
}
