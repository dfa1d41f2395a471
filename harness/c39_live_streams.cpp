// C39: text streams on live connections open what they were given and carry values to the other end
#include "mon.hpp"
#include <unistd.h>
#include <ecl/config/ecl.hpp>
#include <ecl/streams/socket_streams.hpp>
#include <ecl/streams/serial_stream.hpp>
#include <ecl/streams/console_streams.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/log_stream.hpp>
#include <ecl/streams/manipulators.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <termios.h>
#include <atomic>
#include <cmath>
#include <cstring>
#include <fstream>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
using mon::Rng; using mon::cat;
REQUIRE_OBS("values carried over sockets", 2000); REQUIRE_OBS("values carried over serial lines", 800); REQUIRE_OBS("values carried over consoles", 300); REQUIRE_OBS("texts arriving in pieces", 60); REQUIRE_OBS("opens refused", 80); REQUIRE_OBS("settings compared", 40); REQUIRE_OBS("peers gone", 20); REQUIRE_OBS("stream headers standing alone", 8, 16);
static long openFds() { long n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// ---------------------------------------------------------------- values: what is written, its text, what has to be read
struct Value { int kind; long long i; unsigned long long u; double d; std::string s; std::string text() const { char b[80]; switch (kind) { case 0: case 1: case 2: case 3: return std::to_string(i); case 4: case 5: case 6: case 7: return std::to_string(u); case 8: case 9: snprintf(b, sizeof b, "%f", d); return b; case 10: return s; case 11: return i ? "true" : "false"; default: return s; } } };
static Value draw(Rng& r) { Value v = {int(r.below(13)), 0, 0, 0, ""}; switch (v.kind) { case 0: v.i = r.integer<short>(); break; case 1: v.i = r.integer<int>(); break; case 2: v.i = r.integer<long>(); break; case 3: v.i = r.integer<long long>(); break; case 4: v.u = r.integer<unsigned short>(); break; case 5: v.u = r.integer<unsigned int>(); break; case 6: v.u = r.integer<unsigned long>(); break; case 7: v.u = r.integer<unsigned long long>(); break; case 8: v.d = double(r.range(-100000, 100000)) / 64; break; case 9: v.d = float(r.range(-1000, 1000)) / 8; break; case 10: { size_t n = r.range(1, 40); for (size_t k = 0; k < n; ++k) v.s += char(r.range(33, 126)); break; } case 11: v.i = r.flip(); break; default: v.s = std::string(1, char(r.range(33, 126))); } return v; }
template <class S> static void put(S& s, const Value& v) { switch (v.kind) { case 0: s << short(v.i); break; case 1: s << int(v.i); break; case 2: s << long(v.i); break; case 3: s << (long long)v.i; break; case 4: s << (unsigned short)v.u; break; case 5: s << (unsigned int)v.u; break; case 6: s << (unsigned long)v.u; break; case 7: s << (unsigned long long)v.u; break; case 8: s << v.d; break; case 9: s << float(v.d); break; case 10: if (v.i) s << v.s.c_str(); else s << v.s; break; case 11: s << bool(v.i); break; default: s << v.s[0]; } }
template <class T, class S> static std::string as(S& s, T x) { s >> x; return s.fail() ? cat("failed with ", int(s.errorStatus().flag())) : cat(x); }
template <class T, class S> static std::string real(S& s, double want) { T x = -77; s >> x; return s.fail() ? cat("failed with ", int(s.errorStatus().flag())) : std::fabs(double(x) - want) <= 1e-6 + std::fabs(want) * (sizeof(T) == 4 ? 2e-7 : 1e-15) ? "" : cat("reads ", double(x)); }
// empty, or what went wrong
template <class S> static std::string get(S& s, const Value& v) {
  std::string got, want = v.text(); switch (v.kind) { case 0: got = as<short>(s, 5); break; case 1: got = as<int>(s, 5); break; case 2: got = as<long>(s, 5); break; case 3: got = as<long long>(s, 5); break; case 4: got = as<unsigned short>(s, 5); break; case 5: got = as<unsigned int>(s, 5); break; case 6: got = as<unsigned long>(s, 5); break; case 7: got = as<unsigned long long>(s, 5); break; case 8: return real<double>(s, v.d); case 9: return real<float>(s, v.d); case 10: got = as<std::string>(s, "before"); break; case 11: { bool b = !v.i; s >> b; got = s.fail() ? "failed" : b ? "true" : "false"; break; } default: got = as<char>(s, '~' + 1); }
  return got == want ? "" : "reads " + got; }
template <class S> static std::string gap(Rng& r, S& s) { switch (r.below(4)) { case 0: s << ' '; return " "; case 1: s << '\n'; return "\n"; case 2: s << ecl::endl; return "\n"; default: s << ' '; s.flush(); return " "; } }
static std::vector<Value> values(Rng& r, int most) { std::vector<Value> v; int n = int(r.range(1, most)); if (most > 15 && r.chance(1, 25)) { n = int(r.range(256, 2500)); mon::obs("long conversations"); } for (; n > 0; --n) v.push_back(draw(r)); return v; }
template <class S> static std::string speak(Rng& r, S& s, const std::vector<Value>& v) { std::string text; for (const Value& x : v) { put(s, x); text += x.text(); text += gap(r, s); } s.flush(); return text; }
template <class S> static void hear(S& s, const std::vector<Value>& v, const char* where) { for (size_t k = 0; k < v.size(); ++k) { std::string wrong = get(s, v[k]); CHECK(wrong.empty(), "value-carried", where, ": value ", k, " of ", v.size(), " ", mon::quote(v[k].text()), " ", wrong); if (!wrong.empty()) return; } mon::obs(cat("values carried over ", where).c_str(), v.size()); }
static std::string spelt(Rng& r, const std::vector<Value>& v) { std::string t; for (const Value& x : v) { for (int k = r.chance(1, 4) ? int(r.range(1, 3)) : 0; k > 0; --k) t += r.flip() ? ' ' : '\n'; t += x.text(); t += r.flip() ? ' ' : '\n'; } return t; }
// ends of a descriptor
static bool pour(int fd, const std::string& t) { size_t at = 0; while (at < t.size()) { ssize_t n = ::write(fd, t.data() + at, t.size() - at); if (n <= 0) return false; at += size_t(n); } return true; }
static bool drip(Rng& r, int fd, const std::string& t) { size_t at = 0; while (at < t.size()) { size_t n = std::min<size_t>(t.size() - at, r.range(1, 7)); if (!pour(fd, t.substr(at, n))) return false; at += n; usleep(useconds_t(r.below(120))); } return true; }
static std::string take(int fd, size_t want) { std::string got; char b[4096]; while (got.size() < want) { ssize_t n = ::read(fd, b, std::min(sizeof b, want - got.size())); if (n <= 0) break; got.append(b, size_t(n)); } return got; }
// ---------------------------------------------------------------- sockets
struct Port { int lease; unsigned n; explicit Port(Rng& r) : lease(-1), n(0) { for (int k = 0; k < 400; ++k) { unsigned p = 11000 + unsigned(r.below(20000)); int s = socket(AF_UNIX, SOCK_STREAM, 0); if (s < 0) mon::harness_error("no sockets here"); sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "verif-port-%u", p); if (bind(s, (sockaddr*)&a, socklen_t(offsetof(sockaddr_un, sun_path) + 1 + l)) != 0) { ::close(s); continue; } int t = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = INADDR_ANY; i.sin_port = htons(uint16_t(p)); bool free = bind(t, (sockaddr*)&i, sizeof i) == 0; ::close(t); if (!free) { ::close(s); continue; } lease = s; n = p; return; } mon::inconclusive("no free port"); } ~Port() { if (lease >= 0) ::close(lease); } };
static int knock(unsigned port) { for (int k = 0; k < 4000; ++k) { int w = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = htonl(INADDR_LOOPBACK); i.sin_port = htons(uint16_t(port)); if (::connect(w, (sockaddr*)&i, sizeof i) == 0) return w; ::close(w); usleep(k < 40 ? 50 : 1000); } return -1; }
template <class F> static bool refused(F f) { mon::obs("opens refused"); try { return f(); } catch (const ecl::StandardException& e) { return e.flag() != ecl::NoError; } }
static std::unique_ptr<ecl::SocketClientStream> dial(const std::string& host, unsigned port, bool raii) { for (int k = 0; k < 4000; ++k) { try { std::unique_ptr<ecl::SocketClientStream> c; if (raii) c.reset(new ecl::SocketClientStream(host, port)); else { c.reset(new ecl::SocketClientStream); c->device().open(host, port); } if (c->device().open() && !c->fail()) return c; } catch (const ecl::StandardException&) {} usleep(k < 40 ? 50 : 1000); } return nullptr; }
GROUP_OPT(sockets, 400, 3000, "hang=120") {
  Rng any(mon::mix(R.next(), uint64_t(getpid()))); Port port(any); if (!port.n) return; bool raii = R.flip(); std::unique_ptr<ecl::SocketServerStream> s; if (raii) s.reset(new ecl::SocketServerStream(port.n)); else { s.reset(new ecl::SocketServerStream); CHECK(!s->device().open(), "opened-by-itself", ""); s->device().open(port.n); } CHECK(s->device().open() && !s->fail(), "server-opens", "");
  std::thread l([&] { try { s->device().listen(); } catch (const ecl::StandardException&) {} });
  if (R.chance(1, 2)) { std::unique_ptr<ecl::SocketClientStream> c = dial(R.flip() ? "127.0.0.1" : "localhost", port.n, R.flip()); if (!c) { int w = knock(port.n); l.join(); ::close(w); CHECK(false, "client-opens", "port ", port.n); return; } l.join();
    for (int round = int(R.range(1, 5)); round > 0; --round) { std::vector<Value> v = values(R, 25); bool up = R.flip(); Rng q(R.next()); std::thread t([&] { try { if (up) speak(q, *c, v); else speak(q, *s, v); } catch (const ecl::StandardException& e) { mon::fail("speak", e.what()); } }); if (up) hear(*s, v, "sockets"); else hear(*c, v, "sockets"); t.join(); long left = up ? s->device().remaining() : c->device().remaining(), other = up ? c->device().remaining() : s->device().remaining(); CHECK(left == (v.back().kind == 12) && other == 0, "left-over", "after ", v.size(), " values ", left, " and ", other); char x; if (left) { if (up) s->device().read(x); else c->device().read(x); } }
    if (R.flip()) { c.reset(); int x = 31; bool failed = false; try { *s >> x; failed = s->fail(); } catch (const ecl::StandardException&) { failed = true; } CHECK(failed && x == 31, "peer-gone", "reads ", x); mon::obs("peers gone"); } }
  else { int w = knock(port.n); l.join(); if (w < 0) { CHECK(false, "server-listens", ""); return; } std::vector<Value> v = values(R, 25); std::string t = spelt(R, v); Rng q(R.next()); bool slow = R.flip(); std::thread d([&] { if (slow) drip(q, w, t); else pour(w, t); }); hear(*s, v, "sockets"); d.join(); mon::obs("texts arriving in pieces");
    std::vector<Value> u = values(R, 25); std::string text = speak(R, *s, u), got = take(w, text.size()); CHECK(got == text, "text-carried", "to a peer ", mon::quote(got.substr(0, 200)), " want ", mon::quote(text.substr(0, 200))); mon::obs("values carried over sockets", u.size());
    // a word cut short by the end is a word or a failure, what follows is a failure
    ::close(w); std::string word = "before"; bool failed = false; try { *s >> word; failed = s->fail(); } catch (const ecl::StandardException&) { failed = true; } CHECK(failed && word == "before", "peer-gone", "reads ", word); mon::obs("peers gone"); }
  mon::nontrivial(R.s); mon::sample(cat("port ", port.n)); }
GROUP_OPT(refused_opens, 60, 1000, "serial") {
  Rng any(mon::mix(R.next(), uint64_t(getpid()))); Port port(any); if (!port.n) return; std::string missing = mon::scratch() + "/no/such/thing"; { volatile bool warm = refused([&] { ecl::OFileStream f(missing); return f.fail(); }); (void)warm; } long before = openFds();
  CHECK(refused([&] { ecl::SocketClientStream c("127.0.0.1", port.n); return c.fail() && !c.device().open(); }), "refusal-unnoticed", "a client without a server"); CHECK(refused([&] { ecl::SocketClientStream c("no.such.host.invalid", port.n); return c.fail() && !c.device().open(); }), "refusal-unnoticed", "an unknown host");
  { int w = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in i; memset(&i, 0, sizeof i); i.sin_family = AF_INET; i.sin_addr.s_addr = INADDR_ANY; i.sin_port = htons(uint16_t(port.n)); if (bind(w, (sockaddr*)&i, sizeof i) != 0 || ::listen(w, 1) != 0) mon::inconclusive("port taken"); else CHECK(refused([&] { ecl::SocketServerStream second(port.n); return second.fail() || !second.device().open(); }), "refusal-unnoticed", "a port in use"); ::close(w); }
  CHECK(refused([&] { ecl::OFileStream f(missing, R.flip() ? ecl::New : ecl::Append); return f.fail() && f.errorStatus().flag() != ecl::NoError; }), "refusal-unnoticed", "a file that cannot be"); CHECK(refused([&] { ecl::SharedFileStream f(missing); return f.fail(); }), "refusal-unnoticed", "a shared file that cannot be"); CHECK(refused([&] { ecl::LogStream f(missing); return f.fail(); }), "refusal-unnoticed", "a log that cannot be"); CHECK(refused([&] { ecl::SerialStream f(missing); return f.fail(); }), "refusal-unnoticed", "a port that is not there");
  { std::string dir = mon::scratch(); CHECK(refused([&] { ecl::OFileStream f(dir); return f.fail(); }), "refusal-unnoticed", "a directory"); }
#ifndef NDEBUG
  { ecl::SocketClientStream c; ecl::SerialStream q; ecl::OFileStream o; ecl::SharedFileStream sh; auto closed = [&](const char* n, std::function<void()> f) { bool told = false; try { f(); } catch (const ecl::StandardException& e) { told = e.flag() == ecl::OpenError; } CHECK(told, "closed-stream-used", n); mon::obs("opens refused"); }; int x = 0; std::string w; closed("client <<", [&] { c << 1; }); closed("client >>", [&] { c >> x; }); closed("serial <<", [&] { q << "x"; }); closed("serial >>", [&] { q >> w; }); closed("file <<", [&] { o << 2.5; }); closed("shared file <<", [&] { sh << 'c'; }); }
#endif
  CHECK(openFds() == before, "descriptors-left", openFds() - before); mon::nontrivial(R.s); mon::sample("refused opens of every stream class"); }
// ---------------------------------------------------------------- serial lines
static thread_local int sets; static thread_local termios lastSet;
extern "C" int tcsetattr(int fd, int action, const termios* t) { static int (*real)(int, int, const termios*) = (int (*)(int, int, const termios*))dlsym(RTLD_NEXT, "tcsetattr"); int rc = real(fd, action, t); if (rc == 0 || errno == EINVAL) { lastSet = *t; ++sets; return 0; } return rc; }
GROUP_OPT(serial_lines, 300, 3000, "hang=120") {
  int master = posix_openpt(O_RDWR | O_NOCTTY); if (master < 0 || grantpt(master) || unlockpt(master)) mon::harness_error("no pseudo terminals here"); char name[128]; if (ptsname_r(master, name, sizeof name)) mon::harness_error("ptsname");
  int keep = ::open(name, O_RDWR | O_NOCTTY); { termios t; memset(&t, 0, sizeof t); t.c_cflag = CS8 | CREAD | CLOCAL; tcsetattr(keep, TCSANOW, &t); }
  static const speed_t speeds[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600}; static const tcflag_t sizes[] = {CS5, CS6, CS7, CS8}; int baud = int(R.below(14)), bits = int(R.below(4)), stop = R.flip() ? 0 : 2, par = int(R.below(3)), given = int(R.below(6)); if (given < 1) baud = 10; if (given < 2) bits = 3; if (given < 3) stop = 0; if (given < 4) par = 0; ecl::BaudRate B = ecl::BaudRate(baud); ecl::DataBits D = ecl::DataBits(bits); ecl::StopBits T = ecl::StopBits(stop); ecl::Parity P = ecl::Parity(par); sets = 0; std::unique_ptr<ecl::SerialStream> s; std::string in = cat("baud ", baud, " bits ", bits, " stop ", stop, " parity ", par, " given ", given);
  try { switch (given) { case 0: s.reset(new ecl::SerialStream(name)); break; case 1: s.reset(new ecl::SerialStream(name, B)); break; case 2: s.reset(new ecl::SerialStream(name, B, D)); break; case 3: s.reset(new ecl::SerialStream(name, B, D, T)); break; case 4: s.reset(new ecl::SerialStream(name, B, D, T, P)); break; default: s.reset(new ecl::SerialStream); CHECK(!s->device().open(), "opened-by-itself", ""); s->device().open(name, B, D, T, P); } } catch (const ecl::StandardException& e) { mon::fail("serial-opens", cat(in, " ", e.what())); ::close(keep); ::close(master); return; }
  CHECK(s->device().open() && !s->fail(), "serial-opens", in); CHECK(sets > 0 && cfgetospeed(&lastSet) == speeds[baud] && cfgetispeed(&lastSet) == speeds[baud] && (lastSet.c_cflag & CSIZE) == sizes[bits] && !!(lastSet.c_cflag & CSTOPB) == (stop == 2) && !!(lastSet.c_cflag & PARENB) == (par != 0) && (par == 0 || !!(lastSet.c_cflag & PARODD) == (par == 1)), "settings", in, " sets flags ", long(lastSet.c_cflag), " speed ", long(cfgetospeed(&lastSet))); mon::obs("settings compared");
  if (R.chance(1, 3)) s->device().unblock(), s->device().block(5000); else s->device().block(5000); for (int round = int(R.range(1, 3)); round > 0; --round) { std::vector<Value> v = values(R, 12); if (R.flip()) { std::string t = spelt(R, v); Rng q(R.next()); bool slow = R.flip(); std::thread d([&] { if (slow) drip(q, master, t); else pour(master, t); }); hear(*s, v, "serial lines"); d.join(); mon::obs("texts arriving in pieces"); if (s->device().remaining()) { char c; while (s->device().remaining() > 0) s->device().read(c); } } else { std::string text, got; Rng q(R.next()); std::thread d([&] { text = speak(q, *s, v); }); size_t want = 0; d.join(); want = text.size(); got = take(master, want); CHECK(got == text, "text-carried", "over the line ", mon::quote(got.substr(0, 200)), " want ", mon::quote(text.substr(0, 200))); mon::obs("values carried over serial lines", v.size()); } }
  s.reset(); ::close(keep); ::close(master); mon::nontrivial(R.s); mon::sample(in); }
// ---------------------------------------------------------------- consoles, in a child
GROUP(consoles, 120, 1500) {
  std::vector<Value> v = values(R, 30); std::string in = spelt(R, v), base = cat(mon::scratch(), "/console", mon::current_case), out = base + ".out", err = base + ".err"; int p[2]; if (pipe(p)) mon::harness_error("pipe"); Rng q(R.next()), w(R.next()); fflush(0); pid_t child = fork();
  if (child == 0) { ::close(p[1]); dup2(p[0], 0); int o = ::open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = ::open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); clearerr(stdin); std::string wrong; try { ecl::IConsoleStream i; ecl::OConsoleStream os; ecl::EConsoleStream es; dup2(o, 1); dup2(e, 2); for (size_t k = 0; k < v.size() && wrong.empty(); ++k) { wrong = get(i, v[k]); if (!wrong.empty()) wrong = cat("value ", k, " ", mon::quote(v[k].text()), " ", wrong); } speak(q, os, v); speak(q, es, v); int x = 4; bool failed = false; try { for (int k = 0; k < 3 && !failed; ++k) { i >> x; failed = i.fail(); } } catch (const ecl::StandardException&) { failed = true; } if (wrong.empty() && !(failed && x == 4)) wrong = "reads on past the end"; } catch (const std::exception& x) { wrong = x.what(); } fflush(0); if (!wrong.empty()) { int f = ::open((base + ".wrong").c_str(), O_WRONLY | O_CREAT, 0600); pour(f, wrong); } _exit(wrong.empty() ? 0 : 3); }
  ::close(p[0]); if (R.flip()) drip(w, p[1], in); else pour(p[1], in); ::close(p[1]); int st = 0; waitpid(child, &st, 0); auto slurp = [](const std::string& f) { int d = ::open(f.c_str(), O_RDONLY); std::string t = d < 0 ? "" : take(d, 1 << 20); if (d >= 0) ::close(d); ::unlink(f.c_str()); return t; }; std::string wrong = slurp(base + ".wrong"), o = slurp(out), e = slurp(err); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "console-values", "status ", st, " ", wrong);
  auto squeeze = [](std::string t) { for (char& c : t) if (c == '\n') c = ' '; return t; }; std::string want; for (const Value& x : v) want += x.text() + ' '; CHECK(squeeze(o) == want, "console-output", mon::quote(o.substr(0, 200)), " want ", mon::quote(want.substr(0, 200))); CHECK(squeeze(e) == want, "console-errors", mon::quote(e.substr(0, 200))); mon::obs("values carried over consoles", v.size()); mon::obs("texts arriving in pieces"); mon::nontrivial(mon::hash(in)); mon::sample(mon::quote(in.substr(0, 80))); }

// ---------------------------------------------------------------- a stream's header is all it takes to use the stream
static const struct { const char *header, *type; } headers[] = {{"socket_streams", "SocketClientStream"}, {"socket_streams", "SocketServerStream"}, {"serial_stream", "SerialStream"}, {"console_streams", "OConsoleStream"}, {"console_streams", "IConsoleStream"}, {"console_streams", "EConsoleStream"}, {"file_streams", "OFileStream"}, {"shared_file_stream", "SharedFileStream"}, {"string_stream", "StringStream"}, {"log_stream", "LogStream"}, {"text_stream", "TextStream<ecl::String>"}};
GROUP(headers_alone, 11, 22) {
  (void)R; auto& h = headers[mon::current_case % 11]; bool after = mon::current_case >= 11; // thorough: also after the whole of the umbrella header
  std::string f = cat(mon::scratch(), "/alone", mon::current_case, ".cpp"), log = f + ".log"; { std::ofstream o(f.c_str()); if (after) o << "#include <ecl/streams.hpp>\n"; if (std::string(h.header) == "text_stream") o << "#include <ecl/devices/string.hpp>\n"; o << "#include <ecl/streams/" << h.header << ".hpp>\nunsigned long use() { return sizeof(ecl::" << h.type << "); }\n"; }
  mon::note(cat("header ", h.header, " for ", h.type)); pid_t p = fork(); if (p == 0) {
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); std::vector<std::string> a = {"g++", "-std=c++14", "-fsyntax-only", "-w", "-isystem", "/usr/include/eigen3", "-I" VERIF_HARNESS_DIR "/../shims"};
    DIR* d = opendir(VERIF_REPO_DIR); if (!d) _exit(125); while (dirent* e = readdir(d)) if (!strncmp(e->d_name, "ecl_", 4)) a.push_back(cat("-I" VERIF_REPO_DIR "/", e->d_name, "/include")); a.push_back(f);
    std::vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(0); unsetenv("LD_PRELOAD"); execvp("g++", v.data()); _exit(126); }
  int st = 0; waitpid(p, &st, 0); std::ifstream i(log.c_str()); std::string err((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); unlink(f.c_str()); unlink(log.c_str());
  if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) mon::harness_error("the compiler did not run: " + err.substr(0, 300));
  CHECK(WEXITSTATUS(st) == 0, "header-alone", h.header, ".hpp", after ? " after ecl/streams.hpp" : "", " does not give ecl::", h.type, ": ", err.substr(0, 400));
  mon::obs("stream headers standing alone"); mon::nontrivial(mon::hash(cat(h.header, h.type, after))); mon::sample(h.type);
}
REQUIRE_OBS("long conversations", 15);
