#include "c38_common.hpp"
#include <ecl/command_line.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/array/formatters.hpp>
#include <ecl/containers/converters.hpp>
#include <ecl/containers/fifo.hpp>
#include <ecl/containers/push_and_pop.hpp>
#include <ecl/containers/push_and_pop/formatters.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/stencil/formatters.hpp>
#include <ecl/converters.hpp>
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/serial.hpp>
#include <ecl/devices/shared_file.hpp>
#include <ecl/devices/socket.hpp>
#include <ecl/devices/string.hpp>
#include <ecl/exceptions/data_exception.hpp>
#include <ecl/exceptions/posix_error_handler.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/filesystem/realpath.hpp>
#include <ecl/formatters.hpp>
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
#include <ecl/math.hpp>
#include <ecl/sigslots.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/log_stream.hpp>
#include <ecl/streams/manipulators.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/string_stream.hpp>
#include <ecl/threads/mutex.hpp>
#include <ecl/threads/thread.hpp>
#include <ecl/threads/threadable.hpp>
#include <ecl/time/duration.hpp>
#include <ecl/time/frequency.hpp>
#include <ecl/time/sleep.hpp>
#include <ecl/time/snooze.hpp>
#include <ecl/time/stopwatch.hpp>
#include <ecl/time/time_data.hpp>
#include <ecl/time/timestamp.hpp>
#include <ecl/utilities/flags.hpp>
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/references.hpp>
#include <arpa/inet.h>
#include <cerrno>
#include <cstddef>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <netinet/in.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <termios.h>
#include <unistd.h>
typedef unsigned char uchar;
static std::string word(Rng& r, size_t most = 12) { std::string s; size_t n = 1 + r.below(most); for (size_t i = 0; i < n; ++i) s += char('a' + r.below(26)); return s; }
static std::string slurp(const std::string& p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::string mine(const char* what, Place& p) { return cat(mon::scratch(), "/", what, p.thread); }
static void arrays(Place& p) { Rng& r = p.r; int n = int(r.range(1, 40)); ecl::Array<int> a(n); ecl::Array<double, 5> f; for (int i = 0; i < n; ++i) a[i] = int(r.below(1000)); f << r.unit(), r.unit(), r.unit(), r.unit(), r.unit(); ecl::Array<int> b(a); b.resize(n + 3); for (int i = 0; i < n + 3; ++i) b[i] = i; b = a; int from = int(r.below(n)); ecl::Stencil<ecl::Array<int>> s = a.stencil(from, n - from); for (int x : s) p.o << x; ecl::Array<int> c = ecl::Array<int>::Constant(int(r.range(1, 6)), 7); for (int x : c) p.o << x; for (double x : f) p.o << x; try { a.at(n + 5); } catch (const ecl::StandardException& e) { p.o << e.what(); } for (int x : b) p.o << x; std::ostringstream o; ecl::Format<ecl::Array<double, 5>> ff; ff(3, 9); o << ff(f); ecl::Array<uchar> u(6); for (int i = 0; i < 6; ++i) u[i] = uchar(r.below(256)); ecl::Format<ecl::Array<uchar>> uf; o << uf(u); p.o << o.str(); std::ostringstream raw; raw << a << f; p.o << raw.str(); }
static void queues(Place& p) { Rng& r = p.r; ecl::PushAndPop<int, 5> q; ecl::PushAndPop<double> d(7); ecl::FiFo<int> fifo(4, 3); q.fill(2); for (int i = 0; i < 30; ++i) { int v = int(r.below(100)); q.push_back(v); fifo.push_back(v); d.push_back(v * 0.5); if (r.flip()) p.o << q.pop_front() << d.pop_front(); p.o << q.size() << d.size() << fifo[int(r.below(4))] ; if (d.size()) p.o << d[0]; } for (int i = 0; i < int(q.size()); ++i) p.o << q[i]; }
static void bytes(Place& p) { Rng& r = p.r; std::vector<uchar> v(4); ecl::Converter<std::vector<uchar>, int> to; ecl::Converter<int, std::vector<uchar>> from; ecl::Converter<ecl::Array<char>, long> toa; ecl::Array<char> a(sizeof(long)); ecl::Converter<std::vector<char>, char*> hex; for (int i = 0; i < 20; ++i) { int x = r.integer<int>(); to(v, x); p.o << from(v); toa(a, r.integer<long>()); for (char c : a) p.o << int(c); std::vector<char> h = hex("A1 03 ff 7e"); for (char c : h) p.o << int(c); } }
static void texts(Place& p) { Rng& r = p.r; ecl::Converter<char*, int> i; ecl::Converter<char*, double> d; ecl::Converter<char*, float> sized(60); ecl::Converter<char*> family; ecl::Converter<char*, bool> b; ecl::Converter<int, std::string> back; ecl::Converter<std::string, int> s; ecl::Converter<int, std::string> sb; for (int k = 0; k < 20; ++k) { int v = r.integer<int>(); p.o << i(v) << family(v) << d(r.uniform(-1000, 1000), int(r.range(0, 8))) << sized(float(r.uniform(-10, 10)), 3) << b(r.flip()) << back(s(v)) << sb(s(v)) << family(r.uniform(0, 1)); } try { back(word(r)); } catch (const ecl::StandardException& e) { p.o << e.what(); } }
static void formats(Place& p) { Rng& r = p.r; ecl::Format<int> i(int(r.range(1, 12)), ecl::RightAlign, ecl::Hex); ecl::Format<uchar> u(5, ecl::CentreAlign, ecl::Dec); ecl::Format<double> d(3, 12, ecl::LeftAlign, ecl::Fixed); ecl::Format<float> f; ecl::Format<std::string> s(20, ecl::RightAlign); f.precision(2).width(9); for (int k = 0; k < 15; ++k) { std::ostringstream o; ecl::StringStream e; int v = r.integer<int>(); double x = r.uniform(-1e4, 1e4); std::string w = word(r); if (r.chance(1, 3)) i.width(int(r.range(1, 20))); if (r.chance(1, 3)) d.precision(int(r.range(1, 9))); if (r.chance(1, 4)) d.base(r.flip() ? ecl::Sci : ecl::Fixed); o << i(v) << u(uchar(v)) << d(x) << f(float(x)) << s(w) << d(x, 5, 15, ecl::RightAlign, ecl::Fixed) << i(v, 14, ecl::LeftAlign, ecl::Bin); e << i(v) << s(w) << d(x) << ecl::endl; p.o << o.str() << e.str(); } }
static void streams(Place& p) { Rng& r = p.r; ecl::StringStream s; for (int k = 0; k < 12; ++k) { int v = r.integer<int>(); double x = r.uniform(-100, 100); std::string w = word(r); s << v << ' ' << x << ' ' << w << ' ' << r.flip() << ' ' << 'c' << ecl::endl; int v2 = 0; double x2 = 0; std::string w2; bool b2 = false; char c2 = 0; s >> v2 >> x2 >> w2 >> b2; (void)c2; p.o << v2 << x2 << w2 << b2 << s.fail() << s.str(); s.clear(); } ecl::String d; char buf[20] = ""; std::string w = word(r, 15); d.write(w.c_str(), w.size()); d.read(buf, 4); p.o << buf << d.remaining() << d.str(); }
static void files(Place& p) { Rng& r = p.r; std::string n = mine("file", p), all; { ecl::OFileStream f(n, ecl::New); for (int k = 0; k < 10; ++k) { std::string w = word(r, 30); int v = r.integer<int>(); f << w << ' ' << v << ecl::endl; all += cat(w, ' ', v, "\n"); if (r.chance(1, 4)) f.flush(); } } { ecl::OFile f(n, ecl::Append); std::string w = word(r); f.write(w.c_str(), w.size()); all += w; p.o << f.filename().size(); } p.o << (slurp(n) == all) << slurp(n); try { ecl::OFile bad(mon::scratch() + "/no/such", ecl::New); } catch (const ecl::StandardException& e) { p.o << e.flag() << e.message(); } ::unlink(n.c_str()); }
static void shared_files(Place& p) { Rng& r = p.r; std::string n = mine("shared", p), all; { ecl::SharedFile f(n, ecl::New), g(n, ecl::New); for (int k = 0; k < 8; ++k) { std::string w = word(r, 30); ecl::SharedFile& x = r.flip() ? f : g; x.write(w.c_str(), w.size()); x.flush(); all += w; } } { ecl::SharedFileStream s(n, ecl::Append); int v = r.integer<int>(); s << v << ecl::endl; all += cat(v, "\n"); } p.o << (slurp(n) == all) << all; ::unlink(n.c_str()); { ecl::LogStream l(n, ecl::New); l.disableTimeStamp(); l.enableMode(1, "ONE"); std::string w = word(r); l.log(1) << w << "\n"; l.flush(); } p.o << slurp(n).size(); ::unlink(n.c_str()); }
static void times(Place& p) { Rng& r = p.r; ecl::TimeStamp a(r.range(0, 1000000), r.range(0, 999999999)), b(r.uniform(0, 1e6)); ecl::Duration d(r.range(0, 100), r.range(0, 999999999)); p.o << (a + b) << (a - b) << (d + d) << (a < b) << a.sec() << b.nsec() << (a + d); ecl::StopWatch w; ecl::TimeData data; ecl::FrequencyMonitor m(ecl::Duration(1.0)); for (int k = 0; k < 5; ++k) { data.push_back(ecl::Duration(r.uniform(0, 1))); m.update(); } p.o << data.average() << data.variance(); ecl::NanoSleep n; n(100); ecl::Snooze z(ecl::Duration(0, 1000)); z.initialise(); z(); ecl::TimeStamp now; p.o << (w.elapsed() >= ecl::Duration(0, 0)) << (now > a) << (w.split() >= ecl::Duration(0, 0)); }
static void exceptions(Place& p) { Rng& r = p.r; for (int k = 0; k < 5; ++k) try { std::string m = word(r, 60); try { if (r.flip()) throw ecl::StandardException(LOC, ecl::ErrorFlag(r.below(30)), m); errno = int(r.below(60)); throw ecl::PosixErrorHandler<int>::GenerateStandardException(LOC); } catch (const ecl::StandardException& e) { throw ecl::StandardException(LOC, e); } } catch (const ecl::StandardException& e) { p.o << e.what() << e.flag() << e.message(); } try { throw ecl::DataException<int>(LOC, ecl::InvalidArgError, word(r), r.integer<int>()); } catch (const ecl::DataException<int>& e) { p.o << e.what() << e.data(); } ecl::ArgException ae(word(r, 100), word(r)); p.o << ae.what() << ae.error() << ae.argId(); ecl::CmdLineParseException ce(word(r), word(r)); p.o << ce.what() << ce.typeDescription(); }
enum Letters { A = 1, B = 2, C = 4 }; static int two(int b) { return 10 * b; } struct Thing { int base; int plus(int v) { return base += v; } int get() { return base; } };
static void utilities(Place& p) { Rng& r = p.r; ecl::Flags<Letters> f(A); if (r.flip()) f |= C; p.o << (f & A) << f.testFlag(B) << int(f); Thing t = {int(r.below(100))}; ecl::NullaryMemberFunction<Thing, int> g(&Thing::get); ecl::UnaryMemberFunction<Thing, int, int> h(&Thing::plus); ecl::BoundUnaryFreeFunction<int, int> two_(two, int(r.below(9))); ecl::BoundUnaryMemberFunction<Thing, int, int> bound(&Thing::plus, t, 5); p.o << g(t) << h(t, 3) << two_() << bound() << ecl::generateFunctionObject(&Thing::get, t)(); ecl::ReferenceWrapper<Thing> w = ecl::ref(t); p.o << static_cast<Thing&>(w).base << ecl::cube_root(r.uniform(0, 100)) << ecl::isApprox(1.0, 1.0 + 1e-14) << ecl::sign(-3) << ecl::psign(2.0); }
static thread_local std::vector<int>* heard; static void hear(const int& v) { heard->push_back(v); } struct Ear { std::vector<int> got; int voids; Ear() : voids(0) {} void take(const int& v) { got.push_back(v); } void nothing() { ++voids; } };
static void signals(Place& p) { Rng& r = p.r; std::vector<int> mineHeard; heard = &mineHeard; Ear ear; std::string topic = cat("topic-of-", p.thread); { ecl::Slot<const int&> a(hear), b(&Ear::take, ear, topic); ecl::Signal<const int&> s(topic), q; q.connect(topic); ecl::Slot<> v(&Ear::nothing, ear, topic + "-void"); ecl::Signal<> e(topic + "-void"); for (int k = 0; k < 6; ++k) { int x = r.integer<int>(); if (k == 2) a.connect(topic); if (k == 4 && r.flip()) b.disconnect(); (r.flip() ? s : q).emit(x); e.emit(); ecl::Slot<const int&> passing(hear, topic); } p.o << b.connections().size(); } for (int x : mineHeard) p.o << x; for (int x : ear.got) p.o << x; p.o << ear.voids << mineHeard.size(); }
struct Count { int n; Count() : n(0) {} void up() { for (int i = 0; i < 10; ++i) ++n; } }; struct Runner : public ecl::Threadable { int n; Runner() : n(0) {} void runnable() { n += 7; } };
static void threads(Place& p) { Rng& r = p.r; Count c; { ecl::Thread t(&Count::up, c); t.join(); } p.o << c.n; Runner run; run.start(); while (run.isRunning()) usleep(20); p.o << run.n; ecl::Mutex m; for (int k = 0; k < 5; ++k) { m.lock(); p.o << k; m.unlock(); bool got = m.trylock(); p.o << got; if (got) m.unlock(); ecl::Duration d(0, 100); got = m.trylock(d); p.o << got; if (got) m.unlock(); } p.o << r.below(3); }
struct Storage { int a[8]; Storage() { for (int i = 0; i < 8; ++i) a[i] = i; } };
static void ipc(Place& p) { Rng& r = p.r; std::string id = cat("verif38.", getpid(), ".", p.thread); { ecl::Semaphore s(id); p.o << s.trylock() << s.trylock() << s.trylock(ecl::Duration(0, 1000)); s.unlock(); s.lock(); s.unlock(); p.o << s.trylock(); s.unlock(); } { ecl::SharedMemory<Storage> a(id + "m"), b(id + "m"); int k = int(r.below(8)); a.data()->a[k] = 77; for (int i = 0; i < 8; ++i) p.o << b.data()->a[i]; } }
// which address the thread's client asked for
static thread_local sockaddr_in asked; extern "C" int connect(int s, const sockaddr* a, socklen_t l) { static int (*real)(int, const sockaddr*, socklen_t) = (int (*)(int, const sockaddr*, socklen_t))dlsym(RTLD_NEXT, "connect"); if (a->sa_family == AF_INET) memcpy(&asked, a, sizeof asked); return real(s, a, l); }
struct Port { int lease; unsigned n; explicit Port(Rng& r) : lease(-1), n(0) { for (int k = 0; k < 400; ++k) { unsigned p = 11000 + unsigned(r.below(20000)); int s = socket(AF_UNIX, SOCK_STREAM, 0); if (s < 0) mon::harness_error("no sockets here"); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "verif-port-%u", p); if (bind(s, (sockaddr*)&a, socklen_t(offsetof(sockaddr_un, sun_path) + 1 + l)) != 0) { ::close(s); continue; } int t = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = INADDR_ANY; i.sin_port = htons(uint16_t(p)); bool free = bind(t, (sockaddr*)&i, sizeof i) == 0; ::close(t); if (!free) { ::close(s); continue; } lease = s; n = p; return; } mon::inconclusive("no free port"); } ~Port() { if (lease >= 0) ::close(lease); } };
static void sockets(Place& p) {
  Rng& r = p.r; Rng any(mon::mix(r.next(), uint64_t(p.thread) * 7919 + uint64_t(getpid()))); Port port(any); if (!port.n) return; ecl::SocketServer s; ecl::SocketClient c; s.open(port.n);
  // many addresses all lead here; nobody but this thread asks for this one
  std::string host = cat("127.0.", p.thread + 1, ".", r.range(1, 250)); std::thread t([&] { try { s.listen(); } catch (const ecl::StandardException&) {} }); bool ok = false; char b[64];
  for (int k = 0; k < 20000 && !ok; ++k) { memset(&asked, 0, sizeof asked); try { ok = c.open(host, port.n); } catch (const ecl::StandardException& e) { if (e.flag() != ecl::ConnectionRefusedError) break; usleep(k < 20 ? 50 : 1000); } inet_ntop(AF_INET, &asked.sin_addr, b, sizeof b); if (host != b || ntohs(asked.sin_port) != port.n) { p.o << "asked for" << host << "went to" << b; ok = false; break; } }
  if (!ok) { int w = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); i.sin_port = htons(uint16_t(port.n)); ::connect(w, (sockaddr*)&i, sizeof i); ::close(w); }
  t.join(); if (!ok) { p.o << "no connection"; return; }
  for (int k = 0; k < 3; ++k) { std::string w = word(r, 30); c.write(w.c_str(), w.size()); memset(b, 0, sizeof b); size_t got = 0; while (got < w.size()) { long n = s.read(b + got, w.size() - got); if (n <= 0) break; got += size_t(n); } p.o << b; s.write(b, got); memset(b, 0, sizeof b); got = 0; while (got < w.size()) { long n = c.read(b + got, w.size() - got); if (n <= 0) break; got += size_t(n); } p.o << b << c.remaining(); }
}
static void serial(Place& p) {
  Rng& r = p.r; int master = posix_openpt(O_RDWR | O_NOCTTY); if (master < 0 || grantpt(master) || unlockpt(master)) mon::harness_error("no pseudo terminals here"); char name[128]; if (ptsname_r(master, name, sizeof name)) mon::harness_error("ptsname");
  int keep = ::open(name, O_RDWR | O_NOCTTY); { termios t; tcgetattr(keep, &t); t.c_cflag = CS8 | CREAD | CLOCAL; t.c_lflag = 0; t.c_oflag = 0; t.c_iflag = 0; tcsetattr(keep, TCSANOW, &t); }
  { ecl::Serial s; bool open = false; try { open = s.open(name, ecl::BaudRate_115200, ecl::DataBits_8, ecl::StopBits_1, ecl::NoParity); } catch (const ecl::StandardException&) {} if (open) { s.block(2000); for (int k = 0; k < 3; ++k) { std::string w = word(r, 20); char b[64] = ""; s.write(w.c_str(), w.size()); size_t got = 0; while (got < w.size()) { ssize_t n = ::read(master, b + got, w.size() - got); if (n <= 0) break; got += size_t(n); } p.o << b; if (::write(master, b, got) != ssize_t(got)) break; memset(b, 0, sizeof b); got = 0; while (got < w.size()) { long n = s.read(b + got, w.size() - got); if (n <= 0) break; got += size_t(n); } p.o << b; } } else p.o << "closed"; }
  ::close(keep); ::close(master);
}
static void paths(Place& p) { std::string n = mine("dir", p), out; ::mkdir(n.c_str(), 0700); std::string l = n + "/link"; if (::symlink(n.c_str(), l.c_str())) p.o << "no link"; ecl::Error e = ecl::realpath(l + "/../" + n.substr(n.rfind('/') + 1) + "/./link", out); p.o << e.flag() << (out == n); std::string q = word(p.r); ecl::Error f = ecl::realpath(n + "/" + q, out); p.o << f.flag() << q; ::unlink(l.c_str()); ::rmdir(n.c_str()); }
static const std::vector<Named>& quick() { static const std::vector<Named> j = {{"arrays", arrays}, {"queues", queues}, {"bytes", bytes}, {"texts", texts}, {"formats", formats}, {"streams", streams}, {"files", files}, {"shared files", shared_files}, {"times", times}, {"exceptions", exceptions}, {"utilities", utilities}, {"signals", signals}, {"threads", threads}, {"paths", paths}}; return j; }
static const std::vector<Named>& slow() { static const std::vector<Named> j = {{"ipc", ipc}, {"sockets", sockets}, {"serial", serial}}; return j; }
GROUP(same_kind, 280, 8000) { crowd(R, quick(), int(mon::current_case % quick().size())); }
GROUP(mixed, 120, 4000) { crowd(R, quick(), -1); }
GROUP_OPT(system_kinds, 60, 1500, "hang=120") { crowd(R, slow(), int(mon::current_case % slow().size())); }
