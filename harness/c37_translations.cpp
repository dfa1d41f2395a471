// C37: what the system refused, and where, is what the caller is told.  System calls made by the library on behalf of a call of
// its interface are made to fail with any error number.
#include "mon.hpp"
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/serial.hpp>
#include <ecl/devices/socket.hpp>
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
#include <ecl/threads/mutex.hpp>
#include <ecl/threads/thread.hpp>
#include <ecl/threads/priority.hpp>
#include <ecl/time/sleep.hpp>
#include <ecl/time/timestamp.hpp>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstddef>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <vector>
using mon::Rng; using mon::cat; using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
REQUIRE_OBS("failures told", 20000); REQUIRE_OBS("error numbers of the table", 8000); REQUIRE_OBS("other error numbers", 4000);
// one failure to come, of one call of this thread
static thread_local const char* failCall = 0; static thread_local int failErrno = 0;
static bool failing(const char* c) { if (!failCall || strcmp(c, failCall)) return false; failCall = 0; errno = failErrno; return true; }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = (f & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (failing("open")) return -1; return real<int (*)(const char*, int, ...)>("open")(p, f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = (f & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (failing("open")) return -1; return real<int (*)(const char*, int, ...)>("open64")(p, f, m); }
FILE* fdopen(int fd, const char* m) __THROW { if (failing("fdopen")) return 0; return real<FILE* (*)(int, const char*)>("fdopen")(fd, m); }
int fclose(FILE* f) { int r = real<int (*)(FILE*)>("fclose")(f); if (failing("fclose")) return EOF; return r; }
ssize_t read(int fd, void* p, size_t n) { if (failing("read") || failing("recv")) return -1; return real<ssize_t (*)(int, void*, size_t)>("read")(fd, p, n); }
ssize_t write(int fd, const void* p, size_t n) { if (failing("write") || failing("send")) return -1; return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, p, n); }
int socket(int a, int b, int c) __THROW { if (failing("socket")) return -1; return real<int (*)(int, int, int)>("socket")(a, b, c); }
int bind(int s, const sockaddr* a, socklen_t l) __THROW { if (failing("bind")) return -1; return real<int (*)(int, const sockaddr*, socklen_t)>("bind")(s, a, l); }
int accept(int s, sockaddr* a, socklen_t* l) { if (failing("accept")) return -1; return real<int (*)(int, sockaddr*, socklen_t*)>("accept")(s, a, l); }
int connect(int s, const sockaddr* a, socklen_t l) { if (failing("connect")) return -1; return real<int (*)(int, const sockaddr*, socklen_t)>("connect")(s, a, l); }
ssize_t send(int s, const void* p, size_t n, int f) { if (failing("send")) return -1; return real<ssize_t (*)(int, const void*, size_t, int)>("send")(s, p, n, f); }
ssize_t recv(int s, void* p, size_t n, int f) { if (failing("recv")) return -1; return real<ssize_t (*)(int, void*, size_t, int)>("recv")(s, p, n, f); }
int ioctl(int fd, unsigned long q, ...) __THROW { va_list a; va_start(a, q); void* p = va_arg(a, void*); va_end(a); if (failing("ioctl")) return -1; return real<int (*)(int, unsigned long, ...)>("ioctl")(fd, q, p); }
hostent* gethostbyname(const char* n) { if (failing("gethostbyname")) { h_errno = failErrno; return 0; } return real<hostent* (*)(const char*)>("gethostbyname")(n); }
int gethostbyname_r(const char* n, hostent* e, char* b, size_t z, hostent** out, int* err) { if (failing("gethostbyname")) { *out = 0; *err = failErrno; return 0; } return real<int (*)(const char*, hostent*, char*, size_t, hostent**, int*)>("gethostbyname_r")(n, e, b, z, out, err); }
sem_t* sem_open(const char* n, int f, ...) __THROW { va_list a; va_start(a, f); mode_t m = va_arg(a, mode_t); unsigned v = va_arg(a, unsigned); va_end(a); if (failing("sem_open")) return SEM_FAILED; return real<sem_t* (*)(const char*, int, ...)>("sem_open")(n, f, m, v); }
int sem_timedwait(sem_t* s, const timespec* t) { if (failing("sem_timedwait")) return -1; return real<int (*)(sem_t*, const timespec*)>("sem_timedwait")(s, t); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { if (failing("sem_timedwait")) return -1; return real<int (*)(sem_t*, clockid_t, const timespec*)>("sem_clockwait")(s, c, t); }
int shm_open(const char* n, int f, mode_t m) { if (failing("shm_open")) return -1; return real<int (*)(const char*, int, mode_t)>("shm_open")(n, f, m); }
void* mmap(void* a, size_t n, int p, int f, int fd, off_t o) __THROW { if (fd >= 0 && failing("mmap")) return MAP_FAILED; return real<void* (*)(void*, size_t, int, int, int, off_t)>("mmap")(a, n, p, f, fd, o); }
int clock_gettime(clockid_t c, timespec* t) __THROW { if (failing("clock_gettime")) return -1; return real<int (*)(clockid_t, timespec*)>("clock_gettime")(c, t); }
int nanosleep(const timespec* w, timespec* l) { if (failing("nanosleep")) return -1; return real<int (*)(const timespec*, timespec*)>("nanosleep")(w, l); }
// the same by other names
int clock_nanosleep(clockid_t c, int f, const timespec* w, timespec* l) { if (failing("nanosleep")) return failErrno; return real<int (*)(clockid_t, int, const timespec*, timespec*)>("clock_nanosleep")(c, f, w, l); }
FILE* fopen(const char* p, const char* m) { if (failing("open")) return 0; return real<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
FILE* fopen64(const char* p, const char* m) { if (failing("open")) return 0; return real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
int accept4(int s, sockaddr* a, socklen_t* l, int f) { if (failing("accept")) return -1; return real<int (*)(int, sockaddr*, socklen_t*, int)>("accept4")(s, a, l, f); }
ssize_t sendto(int s, const void* p, size_t n, int f, const sockaddr* a, socklen_t l) { if (failing("send")) return -1; return real<ssize_t (*)(int, const void*, size_t, int, const sockaddr*, socklen_t)>("sendto")(s, p, n, f, a, l); }
ssize_t recvfrom(int s, void* p, size_t n, int f, sockaddr* a, socklen_t* l) { if (failing("recv")) return -1; return real<ssize_t (*)(int, void*, size_t, int, sockaddr*, socklen_t*)>("recvfrom")(s, p, n, f, a, l); }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* g) __THROWNL { if (failing("pthread_create")) return failErrno; return real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create")(t, a, f, g); }
int pthread_join(pthread_t t, void** v) { if (failing("pthread_join")) { real<int (*)(pthread_t, void**)>("pthread_join")(t, v); return failErrno; } return real<int (*)(pthread_t, void**)>("pthread_join")(t, v); }
int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL { if (failing("pthread_mutex_lock")) return failErrno; static int (*f)(pthread_mutex_t*) = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL { if (failing("pthread_mutex_trylock")) return failErrno; return real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) __THROWNL { if (failing("pthread_mutex_timedlock")) return failErrno; return real<int (*)(pthread_mutex_t*, const timespec*)>("pthread_mutex_timedlock")(m, t); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) __THROWNL { if (failing("pthread_mutex_timedlock")) return failErrno; return real<int (*)(pthread_mutex_t*, clockid_t, const timespec*)>("pthread_mutex_clocklock")(m, c, t); }
int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL { if (failing("pthread_mutex_unlock")) { real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock")(m); return failErrno; } static int (*f)(pthread_mutex_t*) = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) __THROW { if (failing("pthread_mutex_init")) return failErrno; return real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init")(m, a); }
int pthread_mutexattr_init(pthread_mutexattr_t* a) __THROW { if (failing("pthread_mutexattr_init")) return failErrno; return real<int (*)(pthread_mutexattr_t*)>("pthread_mutexattr_init")(a); }
int setpriority(__priority_which_t w, id_t i, int p) __THROW { if (failing("setpriority")) return -1; return p ? 0 : 0; (void)w; (void)i; }
int sched_setscheduler(pid_t p, int policy, const sched_param* s) __THROW { if (failing("sched_setscheduler")) return -1; (void)p; (void)policy; (void)s; return 0; }
int sched_getscheduler(pid_t p) __THROW { if (failing("sched_getscheduler")) return -1; return real<int (*)(pid_t)>("sched_getscheduler")(p); }
}
typedef std::map<int, ErrorFlag> Table;
static const Table opening = {{ENOENT, NotFoundError}, {EINVAL, InvalidArgError}, {EACCES, PermissionsError}, {EFBIG, OutOfResourcesError}, {EOVERFLOW, OutOfResourcesError}, {EINTR, InterruptedError}, {EISDIR, InvalidObjectError}, {ELOOP, SystemFailureError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError}, {ENOMEM, MemoryError}, {ENOSPC, OutOfResourcesError}, {ENOTDIR, InvalidObjectError}, {EROFS, PermissionsError}, {ETXTBSY, UsageError}};
static const Table writing = {{EAGAIN, BlockingError}, {EBADF, InvalidObjectError}, {EINVAL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EFBIG, MemoryError}, {EINTR, InterruptedError}, {EIO, SystemFailureError}, {ENOSPC, OutOfResourcesError}, {EPIPE, PermissionsError}};
static const Table reading = {{EAGAIN, BlockingError}, {EBADF, PermissionsError}, {EINVAL, PermissionsError}, {EFAULT, OutOfRangeError}, {EINTR, InterruptedError}, {EIO, SystemFailureError}, {EISDIR, InvalidObjectError}};
static const Table closing = {{EBADF, InvalidArgError}, {EIO, SystemFailureError}, {EINTR, InterruptedError}};
static const Table socketing = {{EACCES, OpenError}, {EAFNOSUPPORT, NotSupportedError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfRangeError}, {ENFILE, OutOfResourcesError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTONOSUPPORT, NotSupportedError}};
static const Table binding = {{EACCES, PermissionsError}, {EADDRINUSE, BusyError}, {EBADF, InvalidObjectError}, {EINVAL, BusyError}, {ENOTSOCK, InvalidObjectError}, {EADDRNOTAVAIL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {ELOOP, SystemFailureError}, {ENAMETOOLONG, InvalidArgError}, {ENOENT, InvalidObjectError}, {ENOMEM, MemoryError}, {ENOTDIR, InvalidArgError}, {EROFS, PermissionsError}};
static const Table accepting = {{EAGAIN, BlockingError}, {EBADF, InvalidObjectError}, {ECONNABORTED, InterruptedError}, {EINTR, InterruptedError}, {EINVAL, UsageError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, InvalidObjectError}, {EFAULT, PermissionsError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTO, InvalidArgError}, {EPERM, PermissionsError}};
static const Table receiving = {{EAGAIN, InterruptedError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError}, {EINVAL, InvalidArgError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}};
static const Table sending = {{EAGAIN, BlockingError}, {EACCES, PermissionsError}, {EBADF, InvalidObjectError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError}, {EINVAL, InvalidArgError}, {EISCONN, ConnectionError}, {EMSGSIZE, WriteError}, {ENOBUFS, OutOfResourcesError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, NotSupportedError}};
static const Table asking = {{EBADF, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EINVAL, InvalidArgError}, {ENOTTY, InvalidObjectError}};
static const Table connecting = {{EACCES, PermissionsError}, {EPERM, PermissionsError}, {EADDRINUSE, BusyError}, {EAFNOSUPPORT, NotSupportedError}, {EAGAIN, OutOfResourcesError}, {EALREADY, BlockingError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionRefusedError}, {EFAULT, OutOfRangeError}, {EINPROGRESS, BlockingError}, {EINTR, InterruptedError}, {EISCONN, ConnectionError}, {ENETUNREACH, NotFoundError}, {EHOSTUNREACH, NotFoundError}, {ENOTSOCK, InvalidObjectError}, {ETIMEDOUT, TimeOutError}};
static const Table resolving = {{HOST_NOT_FOUND, OpenError}, {TRY_AGAIN, OpenError}, {NO_ADDRESS, InvalidArgError}, {NO_RECOVERY, UnknownError}};
static const Table semaphores = {{EACCES, PermissionsError}, {EEXIST, PermissionsError}, {ENOENT, ConfigurationError}, {ENOMEM, MemoryError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENAMETOOLONG, InvalidArgError}};
static const Table waiting = {{EINTR, InterruptedError}, {EINVAL, InvalidArgError}, {EAGAIN, BlockingError}};
static const Table sections = {{EACCES, PermissionsError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError}, {ENOENT, InvalidArgError}, {ENAMETOOLONG, InvalidArgError}, {EINVAL, InvalidArgError}, {ENOSYS, NotSupportedError}};
static const Table mapping = {{EACCES, PermissionsError}, {EAGAIN, MemoryError}, {EBADF, InvalidArgError}, {EINVAL, InvalidArgError}, {ENFILE, OutOfResourcesError}, {ENODEV, NotSupportedError}, {ENOMEM, MemoryError}, {EPERM, PermissionsError}};
static const Table stamping = {{EINVAL, NotSupportedError}, {EFAULT, OutOfRangeError}};
static const Table sleeping = {{EINTR, InterruptedError}, {EINVAL, InvalidInputError}, {EFAULT, MemoryError}};
static const Table creating = {{EINVAL, InvalidInputError}, {EAGAIN, MemoryError}, {EPERM, PermissionsError}};
static const Table joining = {{EDEADLK, UsageError}, {EINVAL, InvalidInputError}, {ESRCH, InvalidInputError}};
static const Table locking = {{EDEADLK, UsageError}, {EBUSY, ConfigurationError}, {EINVAL, InvalidInputError}, {EAGAIN, OutOfRangeError}};
static const Table timedlocking = {{EDEADLK, UsageError}, {EINVAL, UsageError}, {EAGAIN, OutOfRangeError}};
static const Table unlocking = {{EINVAL, InvalidInputError}, {EAGAIN, OutOfRangeError}, {EPERM, PermissionsError}};
static const Table initialising = {{EINVAL, InvalidInputError}, {EBUSY, InvalidInputError}, {EAGAIN, MemoryError}, {ENOMEM, MemoryError}, {EPERM, PermissionsError}};
static const Table attributes = {{EINVAL, InvalidInputError}, {ENOMEM, MemoryError}};
static const Table priorities = {{EINVAL, InvalidInputError}, {ESRCH, InvalidInputError}, {EPERM, PermissionsError}, {EACCES, PermissionsError}};
static long openFds() { long n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// the first thing of the form name:digits in a text
static std::string location(const std::string& s) { for (size_t i = 1; i + 1 < s.size(); ++i) if (s[i] == ':' && isdigit((unsigned char)s[i + 1]) && !isspace((unsigned char)s[i - 1])) { size_t b = i, e = i + 1; while (b > 0 && !isspace((unsigned char)s[b - 1])) --b; while (e < s.size() && isdigit((unsigned char)s[e])) ++e; return s.substr(b, e - b); } return ""; }
struct Line { int master; std::string name; Line() : master(posix_openpt(O_RDWR | O_NOCTTY)) { if (master < 0 || grantpt(master) || unlockpt(master)) mon::harness_error("no pseudo terminals here"); char b[128]; if (ptsname_r(master, b, sizeof b)) mon::harness_error("ptsname"); name = b; } ~Line() { ::close(master); } };
static std::map<std::string, std::string> places; // where each operation says it failed
struct Told { bool thrown; ErrorFlag flag; std::string message, what; };
enum Release { Throws, Reports, Silent }; // what a release build does
struct World {
  Rng& r; int n; std::string dir; Told t;
  explicit World(Rng& rr) : r(rr), n(0), dir(mon::scratch()) {}
  int draw(const Table& table, int low, int high, const std::vector<int>& except) { for (;;) { int e; if (r.chance(2, 3)) { auto i = table.begin(); std::advance(i, r.below(table.size())); e = i->first; } else e = int(r.range(low, high)); bool bad = false; for (int x : except) bad = bad || x == e; if (!bad) return e; } }
  void judge(const std::string& op, const char* call, const Table& table, ErrorFlag other, int err, bool expectThrow, const std::string& named) {
    if (failCall) { failCall = 0; mon::obs(mon::cat("operations that did not call ", call, ", though expected to").c_str()); return; } // it may well do without
    auto i = table.find(err); ErrorFlag want = i == table.end() ? other : i->second; mon::obs(i == table.end() ? "other error numbers" : "error numbers of the table"); mon::obs("failures told"); mon::nontrivial(mon::hash(op, err)); ++n;
    if (!expectThrow) { CHECK(!t.thrown, "release", op, " failing with ", err, " threw ", mon::quote(t.what)); if (!t.thrown) CHECK(t.flag == want, "translation", op, " failing with ", err, " reports ", t.flag, " instead of ", want); return; }
    if (!EXPECT(t.thrown, "silent", op, " failing with ", err, " throws nothing")) return;
    CHECK(t.flag == want, "translation", op, " failing with ", err, " (", strerror(err), ") throws ", t.flag, " instead of ", want, ": ", mon::quote(t.what)); CHECK(t.what.find(Error(t.flag).what()) != std::string::npos, "text", op, ": ", mon::quote(t.what)); CHECK(t.message.empty() || t.what.find(t.message) != std::string::npos, "text", op, ": ", mon::quote(t.what));
    if (!named.empty() && i != table.end() && err != EINVAL) CHECK(t.message.find(named) != std::string::npos, "name-missing", op, " failing with ", err, " does not tell ", mon::quote(named), ": ", mon::quote(t.message));
    std::string at = location(t.what); if (!EXPECT(!at.empty(), "location-missing", op, " failing with ", err, ": ", mon::quote(t.what))) return; auto p = places.insert({op, at}); CHECK(p.first->second == at, "location", op, " failing with ", err, " (", strerror(err), ") was raised at ", at, " but other failures of the same operation at ", p.first->second);
    if (mon::current_case == 0) mon::sample(t.what);
  }
  // does it with one system call failing
  template <class F, class G> void op(const std::string& name, const char* call, const Table& table, Release release, F act, G reported, const std::vector<int>& except = {}, const std::string& named = "", ErrorFlag other = UnknownError, int high = 133) {
    int err = draw(table, 1, high, except); bool expectThrow = debug || release == Throws; t = Told{false, NoError, "", ""}; failErrno = err; failCall = call;
    try { act(); } catch (const StandardException& e) { t.thrown = true; t.flag = e.flag(); t.message = e.message(); t.what = e.what(); }
    if (release == Silent && !expectThrow) { failCall = 0; return; }
    if (!t.thrown) t.flag = reported(); judge(name, call, table, other, err, expectThrow, named);
  }
};
static ErrorFlag nothing() { return NoError; }
struct Shared { int a[16]; };
GROUP_OPT(files, 400, 4000, "serial") {
  Rng& r = R; World w(r); { World warm(r); OFile f; try { f.open(warm.dir + "/warm", ecl::New); } catch (const StandardException&) {} }
  for (int i = 0; i < 12; ++i) {
    std::string name = cat(w.dir, "/f", r.below(1000)); bool append = r.flip(); ecl::WriteMode mode = append ? ecl::Append : ecl::New; long before = openFds();
    { OFile f; w.op(append ? "append to a file" : "open a file", "open", opening, Throws, [&] { f.open(name, mode); }, nothing, {}, name); CHECK(!f.open(), "open", "a file that could not be opened"); }
    w.op(append ? "append on construction" : "open on construction", "open", opening, Throws, [&] { OFile f(name, mode); }, nothing, {}, name);
    { OFile f; w.op(append ? "append to a stream" : "open a stream", "fdopen", opening, Throws, [&] { f.open(name, mode); }, nothing, {}, name); CHECK(!f.open(), "open", "a file that could not be opened"); }
    CHECK(openFds() == before, "descriptors", "files that could not be opened left ", openFds() - before, " descriptors");
    { OFile f(name, mode); if (r.flip()) f.write("abc", 3); w.op("close a file", "fclose", closing, Throws, [&] { f.close(); }, nothing, {}, name); CHECK(!f.open(), "open", "a closed file"); }
    CHECK(openFds() == before, "descriptors", "a file that could not be closed left ", openFds() - before, " descriptors"); ::unlink(name.c_str());
  }
}
GROUP_OPT(lines, 60, 600, "serial") {
  Rng& r = R; World w(r); Line line;
  for (int i = 0; i < 10; ++i) {
    Serial s; w.op("open a line", "open", opening, Throws, [&] { s.open(line.name, BaudRate_115200, DataBits_8, StopBits_1, NoParity); }, nothing, {}, line.name); CHECK(!s.open(), "open", "a line that could not be opened");
    int keep = ::open(line.name.c_str(), O_RDWR | O_NOCTTY); { termios t; tcgetattr(keep, &t); t.c_cflag = CS8 | CREAD | CLOCAL; t.c_lflag = 0; tcsetattr(keep, TCSANOW, &t); }
    bool open = false; try { s.open(line.name, BaudRate_115200, DataBits_8, StopBits_1, NoParity); open = s.open(); } catch (const StandardException&) {} ::close(keep); if (!open) { mon::inconclusive("cannot open a pseudo terminal"); return; }
    char c = 'x', many[8] = "abcdefg"; s.block(200);
    w.op("write a byte to a line", "write", writing, Reports, [&] { s.write(c); }, [&] { return s.error().flag(); });
    w.op("write to a line", "write", writing, Reports, [&] { s.write(many, 7); }, [&] { return s.error().flag(); });
    w.op("read a byte from a line", "read", reading, Reports, [&] { s.read(c); }, [&] { return s.error().flag(); });
    w.op("read from a line", "read", reading, Reports, [&] { s.read(many, 4); }, [&] { return s.error().flag(); });
    s.close();
  }
}
struct Port { int lease; unsigned n; explicit Port(Rng& r) : lease(-1), n(0) { for (int k = 0; k < 400; ++k) { unsigned p = 11000 + unsigned(r.below(20000)); int s = socket(AF_UNIX, SOCK_STREAM, 0); if (s < 0) mon::harness_error("no sockets here"); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "verif-port-%u", p); if (bind(s, (sockaddr*)&a, socklen_t(offsetof(sockaddr_un, sun_path) + 1 + l)) != 0) { ::close(s); continue; } int t = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = INADDR_ANY; i.sin_port = htons(uint16_t(p)); bool free = bind(t, (sockaddr*)&i, sizeof i) == 0; ::close(t); if (!free) { ::close(s); continue; } lease = s; n = p; return; } mon::inconclusive("no free port"); } ~Port() { if (lease >= 0) ::close(lease); } };
GROUP_OPT(sockets, 120, 1200, "serial") {
  Rng& r = R; World w(r); Port port(r); if (!port.n) return;
  for (int i = 0; i < 4; ++i) {
    { SocketServer s; w.op("make a server socket", "socket", socketing, Throws, [&] { s.open(port.n); }, nothing); w.op("bind a socket", "bind", binding, Throws, [&] { s.open(port.n); }, nothing); }
    { SocketClient c; w.op("make a client socket", "socket", socketing, Throws, [&] { c.open("127.0.0.1", port.n); }, nothing); std::string host = cat("host", r.below(1000), ".invalid"); w.op("find a host", "gethostbyname", resolving, Throws, [&] { c.open(host, port.n); }, nothing, {}, "", UnknownError, 9); if (w.t.message.empty()) mon::obs("no details"); w.op("connect a socket", "connect", connecting, Throws, [&] { c.open("127.0.0.1", port.n); }, nothing); CHECK(!c.open(), "open", "a client that could not connect"); }
    SocketServer s; SocketClient c; bool up = false; try { s.open(port.n); } catch (const StandardException& e) { mon::inconclusive(cat("no server: ", e.what())); return; }
    w.op("accept a connection", "accept", accepting, Throws, [&] { s.listen(); }, nothing); // and from here it listens
    try { c.open("127.0.0.1", port.n); s.listen(); up = s.open() && c.open(); } catch (const StandardException& e) { mon::inconclusive(cat("no connection: ", e.what())); } if (!up) return;
    char b[8] = "abcdef"; auto se = [&] { return s.error().flag(); }; auto ce = [&] { return c.error().flag(); };
    w.op("server peek", "recv", receiving, Reports, [&] { s.peek(b, 4); }, se, {ECONNRESET}); w.op("client peek", "recv", receiving, Reports, [&] { c.peek(b, 4); }, ce, {ECONNRESET}); w.op("server read", "recv", receiving, Reports, [&] { s.read(b, 4); }, se, {ECONNRESET}); w.op("client read", "recv", receiving, Reports, [&] { c.read(b, 4); }, ce, {ECONNRESET});
    w.op("server remaining", "ioctl", asking, Reports, [&] { s.remaining(); }, se); w.op("client remaining", "ioctl", asking, Reports, [&] { c.remaining(); }, ce);
    w.op("server write", "send", sending, Reports, [&] { s.write(b, 4); }, se, {ECONNRESET, EPIPE}); w.op("client write", "send", sending, Reports, [&] { c.write(b, 4); }, ce, {ECONNRESET, EPIPE});
  }
}
GROUP_OPT(ipc, 60, 600, "serial") {
  Rng& r = R; World w(r); std::string id = cat("verif37.", getpid(), ".", r.below(1000000));
  for (int i = 0; i < 10; ++i) {
    w.op("open a semaphore", "sem_open", semaphores, Silent, [&] { Semaphore s(id); if (!debug) mon::obs("none"); }, nothing);
    if (debug) { Semaphore s(id); s.lock(); w.op("wait for a semaphore", "sem_timedwait", waiting, Silent, [&] { s.trylock(Duration(0, 1000000)); }, nothing, {ETIMEDOUT}); s.unlock(); }
    long before = openFds(); w.op("open shared memory", "shm_open", sections, Throws, [&] { SharedMemory<Shared> m(id + "m"); }, nothing, {EEXIST}); w.op("map shared memory", "mmap", mapping, Throws, [&] { SharedMemory<Shared> m(id + "n"); }, nothing); CHECK(openFds() == before, "descriptors", "shared memory that could not be had left ", openFds() - before, " descriptors");
  }
}
static void idle() {}
GROUP_OPT(threads, 60, 600, "serial") {
  Rng& r = R; World w(r);
  for (int i = 0; i < 10; ++i) {
    w.op("take the time", "clock_gettime", stamping, Silent, [&] { TimeStamp t; }, nothing);
    // interrupted sleeps may well be resumed
    auto sleep = [&](const std::string& name, std::function<void()> f) { if (debug) { w.op(name, "nanosleep", sleeping, Silent, f, nothing, {EINTR}); } };
    unsigned long zero = 0; Duration tiny(0, 1000); sleep("sleep", [&] { Sleep s(zero); s(); }); sleep("sleep seconds", [&] { Sleep s(zero); s(zero); }); sleep("sleep a duration", [&] { Sleep s(zero); s(tiny); }); sleep("sleep milliseconds", [&] { MilliSleep s(1); s(); }); sleep("sleep microseconds", [&] { MicroSleep s(1); s(); }); sleep("sleep nanoseconds", [&] { NanoSleep s(1); s(); });
    { Thread t; ErrorFlag f = NoError; w.op("start a thread", "pthread_create", creating, Reports, [&] { f = t.start(idle).flag(); }, [&] { return f; }); }
    if (debug) {
      { Thread t(idle); w.op("join a thread", "pthread_join", joining, Silent, [&] { t.join(); }, nothing); try { t.join(); } catch (const StandardException&) {} }
      w.op("make a mutex", "pthread_mutex_init", initialising, Silent, [&] { Mutex m; }, nothing, {}, "", w.t.flag == UnknownError ? UnknownError : UnknownError); w.op("make mutex attributes", "pthread_mutexattr_init", attributes, Silent, [&] { Mutex m; }, nothing);
      Mutex m; w.op("lock a mutex", "pthread_mutex_lock", locking, Silent, [&] { m.lock(); }, nothing, {}, "", PosixError); w.op("try a mutex", "pthread_mutex_trylock", locking, Silent, [&] { m.trylock(); }, nothing, {EBUSY}, "", PosixError); w.op("wait for a mutex", "pthread_mutex_timedlock", timedlocking, Silent, [&] { Duration d(0, 1000); m.trylock(d); }, nothing, {ETIMEDOUT});
      m.lock(); w.op("unlock a mutex", "pthread_mutex_unlock", unlocking, Silent, [&] { m.unlock(); }, nothing);
      Priority p = Priority(int(BackgroundPriority) + int(r.below(int(CriticalPriority) - int(BackgroundPriority) + 1))); w.op("set a priority", "setpriority", priorities, Silent, [&] { set_priority(p); }, nothing); w.op("set a real time priority", "sched_setscheduler", priorities, Silent, [&] { set_priority(RealTimePriority2); }, nothing); w.op("ask for the priority", "sched_getscheduler", priorities, Silent, [&] { get_priority(); }, nothing);
    }
  }
}
