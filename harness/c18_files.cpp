// C18: files contain exactly what was written to them.
#include "mon.hpp"
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/console.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <fstream>
#include <memory>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
using ecl::OFile; using ecl::StandardException;
REQUIRE_OBS("file operations", 20000); REQUIRE_OBS("file contents compared", 5000); REQUIRE_OBS("uses of closed files refused", 500); REQUIRE_OBS("opens refused", 300); REQUIRE_OBS("writes to full devices", 300); REQUIRE_OBS("console transfers", 60);
static std::string slurp(const std::string& f) { int fd = ::open(f.c_str(), O_RDONLY); if (fd < 0) return ""; std::string s; char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n); ::close(fd); return s; }
#ifdef NDEBUG
static const bool checked_build = false;
#else
static const bool checked_build = true;
#endif
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static std::string block(mon::Rng& R) { static const size_t sizes[] = {0, 1, 2, 4095, 4096, 4097, 8192, 65536, 100000}; size_t n = R.chance(1, 6) ? sizes[R.below(9)] : R.chance(1, 8) ? R.below(20000) : R.below(100); std::string s(n, 0); uint64_t x = R.next(); for (size_t i = 0; i < n; ++i) s[i] = (char)((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 40); return s; }
// runs an operation that must be refused: by exception when the library is built for debugging, else by its result and error()
template <class F> static void refused(OFile& f, const char* what, F op) {
#ifdef NDEBUG
  long r = op(); CHECK(r <= 0 && r != 1, "closed-device-used", what, " returned ", r); CHECK(f.error().flag() == ecl::OpenError, "closed-device-error", what, " left ", (int)f.error().flag());
#else
  bool threw = false; try { op(); } catch (const StandardException& e) { threw = e.flag() == ecl::OpenError; } (void)f; CHECK(threw, "closed-device-used", what);
#endif
  mon::obs("uses of closed files refused");
}
static void refuse_all(OFile& f) { ecl::Array<char, 3> a; a << 'x', 'y', 'z'; CHECK(!f.open(), "closed-device-says-open", ""); refused(f, "write(char)", [&] { return f.write('c'); }); refused(f, "write(block)", [&] { return f.write("abc", 3ul); }); refused(f, "write(array)", [&] { return f.write(a); }); refused(f, "flush", [&] { return (long)f.flush(); }); CHECK(f.close(), "closing-twice", ""); }
struct File { std::unique_ptr<OFile> dev; std::string name, model; size_t sure = 0; bool was_open = false; };
static void contents(File& f, bool all, const char* after) {
  std::string got = slurp(f.name); if (all) CHECK(got == f.model, "contents", "after ", after, ": ", got.size(), " bytes, want ", f.model.size(), ", same up to ", std::mismatch(got.begin(), got.begin() + std::min(got.size(), f.model.size()), f.model.begin()).first - got.begin());
  else CHECK(got.size() >= f.sure && got.size() <= f.model.size() && f.model.compare(0, got.size(), got) == 0, "contents", "after ", after, ": ", got.size(), " bytes, flushed ", f.sure, " written ", f.model.size());
  if (all) f.sure = f.model.size(); mon::obs("file contents compared");
}
GROUP(histories, 1500, 20000) {
  int fds = open_fds(); uint64_t h = 0; std::vector<std::string> names; std::string base = mon::scratch() + "/f" + std::to_string(mon::current_case) + "_";
  { File fs[2]; for (int i = 0; i < 2; ++i) { File& f = fs[i]; f.name = base + std::to_string(i); names.push_back(f.name); if (R.chance(1, 3)) { std::ofstream o(f.name, std::ios::binary); f.model = block(R); o << f.model; f.sure = f.model.size(); } bool exists = !f.model.empty(); (void)exists; if (R.flip()) f.dev.reset(new OFile); else { bool app = R.flip(); f.dev.reset(app ? new OFile(f.name, ecl::Append) : R.flip() ? new OFile(f.name, ecl::New) : new OFile(f.name)); f.was_open = true; if (!app) { f.model.clear(); f.sure = 0; } contents(f, true, "opening"); } }
    int steps = R.range(5, 50);
    for (int s = 0; s < steps; ++s) {
      File& f = fs[R.below(2)]; OFile& d = *f.dev; int op = R.below(16); h = mon::mix(h, op); mon::obs("file operations"); CHECK(d.open() == f.was_open, "open-state", "");
      if (op < 2 || (!f.was_open && op < 12)) { if (!f.was_open && R.chance(1, 3)) { refuse_all(d); continue; } bool app = R.flip(); CHECK(d.open(f.name, app ? ecl::Append : ecl::New), "open", f.name); f.was_open = true; CHECK(d.filename() == f.name && d.error().flag() == ecl::NoError, "filename", d.filename()); if (!app) { f.model.clear(); f.sure = 0; } contents(f, true, app ? "appending" : "opening anew"); }
      else if (op < 5) { char c = (char)R.next(); CHECK(d.write(c) == 1, "write-count", "char"); f.model += c; contents(f, false, "write(char)"); }
      else if (op < 9) { std::string b = block(R); std::unique_ptr<char[]> p(new char[b.size()]); memcpy(p.get(), b.data(), b.size()); long n = d.write(p.get(), (unsigned long)b.size()); CHECK(n == (long)b.size(), "write-count", "block of ", b.size(), " returned ", n); CHECK(d.error().flag() == ecl::NoError, "write-error", b.size()); f.model += b; contents(f, false, "write(block)"); h = mon::mix(h, b.size()); }
      else if (op < 11) { std::string b = block(R); long n; if (b.size() > 2 && R.flip()) { ecl::Array<unsigned char> a((unsigned)b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = (unsigned char)b[i]; if (R.flip()) n = d.write(a); else { size_t at = R.below(b.size()), len = 1 + R.below(b.size() - at); auto st = a.stencil((unsigned)at, (unsigned)len); n = d.write(st); b = b.substr(at, len); } } else if (R.flip()) { ecl::Array<char, 5> a; for (int i = 0; i < 5; ++i) a[i] = (char)R.next(); b.assign(a.begin(), a.end()); n = d.write(a); } else { ecl::Array<char> a((unsigned)b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = b[i]; if (b.empty()) n = 0; else n = d.write(a); } CHECK(n == (long)b.size(), "write-count", "container of ", b.size(), " returned ", n); f.model += b; contents(f, false, "write(container)"); }
      else if (op == 11 && f.was_open) { CHECK(d.flush() && d.error().flag() == ecl::NoError, "flush", ""); contents(f, true, "flush"); }
      else if (op == 12) { CHECK(d.close() && d.error().flag() == ecl::NoError && !d.open(), "close", ""); f.was_open = false; contents(f, true, "close"); }
      else if (op == 13) { f.dev.reset(); f.was_open = false; contents(f, true, "destruction"); f.dev.reset(new OFile); }
      else if (op == 14) { bool thrown = false; bool r = false; std::string bad = base + "none/file"; try { r = d.open(bad, R.flip() ? ecl::New : ecl::Append); } catch (const StandardException& e) { thrown = true; CHECK(std::string(e.what()).find(bad) != std::string::npos, "refusal-names-file", e.what()); } CHECK(thrown && !r && !d.open(), "bad-open-accepted", ""); f.was_open = false; contents(f, true, "a failed open"); mon::obs("opens refused"); }
      else if (op == 15 && f.was_open) { CHECK(d.flush(), "flush", ""); contents(f, true, "flush"); if (names[0] != names[1]) { std::swap(fs[0].name, fs[1].name); std::string keep = f.name; File& o = &f == fs ? fs[1] : fs[0]; if (o.was_open) o.dev->flush(); std::swap(fs[0].model, fs[1].model); fs[0].sure = fs[0].model.size(); fs[1].sure = fs[1].model.size(); std::swap(fs[0].dev, fs[1].dev); std::swap(fs[0].was_open, fs[1].was_open); } } }
    for (File& f : fs) { f.dev.reset(); if (f.was_open) contents(f, true, "destruction"); } }
  CHECK(open_fds() == fds, "descriptors-left-open", open_fds() - fds); for (auto& n : names) ::unlink(n.c_str()); mon::nontrivial(h); mon::sample("two files, a history of opens, writes, flushes and closes");
}
// appending goes to the end of the file even when it has grown since; a new file replaces what is there
GROUP(shared_with_others, 150, 5000) {
  std::string name = mon::scratch() + "/a" + std::to_string(mon::current_case), model; OFile f(name, ecl::Append); int fd = ::open(name.c_str(), O_WRONLY | O_APPEND); for (int i = R.range(2, 12); i > 0; --i) { std::string b = block(R).substr(0, 3000); f.write(b.data(), (unsigned long)b.size()); CHECK(f.flush(), "flush", ""); model += b; std::string o = block(R).substr(0, 500); if (!o.empty() && ::write(fd, o.data(), o.size()) != (ssize_t)o.size()) mon::harness_error("write"); model += o; CHECK(slurp(name) == model, "append", ""); mon::obs("file contents compared"); } ::close(fd);
  { OFile g(name, ecl::New); CHECK(slurp(name).empty(), "new-file-not-empty", ""); } ::unlink(name.c_str()); mon::nontrivial(mon::hash(model)); mon::sample("a file appended to by two writers");
}
GROUP(unopenable, 200, 3000) {
  int fds = open_fds(); std::string d = mon::scratch() + "/u" + std::to_string(mon::current_case), bad; mkdir(d.c_str(), 0755); int kind = R.below(6); std::string extra; bool limited = false;
  switch (kind) { case 0: bad = d; break; case 1: bad = d + "/missing/x"; break; case 2: bad = d + "/" + std::string(300, 'n'); break; case 3: { extra = d + "/plain"; std::ofstream(extra) << "x"; bad = extra + "/below"; break; } case 4: { extra = d + "/loop"; if (symlink("loop", extra.c_str())) mon::harness_error("symlink"); bad = extra; break; } default: bad = d + "/forbidden"; limited = geteuid() == 0; if (!limited) bad = d; }
  ecl::WriteMode m = R.flip() ? ecl::New : ecl::Append; OFile g; bool threw = false; mon::note(bad); int base = open_fds(); if (limited && seteuid(65534)) mon::harness_error("seteuid");
  try { if (R.flip()) { OFile f(bad, m); CHECK(!f.open(), "bad-open-accepted", bad); } else g.open(bad, m); } catch (const StandardException& e) { threw = true; CHECK(e.flag() != ecl::NoError, "refusal-flag", bad); }
  if (limited && seteuid(0)) mon::harness_error("seteuid"); CHECK(threw, "bad-open-accepted", bad, " kind ", kind); CHECK(open_fds() == base, "descriptors-left-open", bad); refuse_all(g);
  std::string good = d + "/good"; CHECK(g.open(good, m) && g.write("fine", 4ul) == 4 && g.close() && slurp(good) == "fine", "use-after-failed-open", ""); ::unlink(good.c_str()); if (!extra.empty()) ::unlink(extra.c_str()); ::rmdir(d.c_str()); CHECK(open_fds() == fds, "descriptors-left-open", good); mon::obs("opens refused"); mon::nontrivial(mon::mix(kind, m)); mon::sample(bad.substr(0, 80));
}
// a device that takes no bytes: whoever wrote something must be told before the file is gone
GROUP(full_device, 150, 3000) {
  OFile f("/dev/full", R.flip() ? ecl::New : ecl::Append); bool told = false; size_t accepted = 0; auto tell = [&](std::function<bool()> op) { try { if (!op()) { told = true; CHECK(!checked_build, "quiet-refusal", "a device that is full refuses without an exception in a debug build"); CHECK(f.error().flag() != ecl::NoError, "quiet-refusal", "no error left behind"); } } catch (const StandardException&) { told = true; } };
  for (int i = R.range(1, 12); i > 0; --i) switch (R.below(4)) { case 0: tell([&] { long n = f.write('c'); if (n > 0) accepted += n; return n == 1; }); break; case 1: { std::string b = block(R); tell([&] { long n = f.write(b.data(), (unsigned long)b.size()); if (n > 0) accepted += n; return n == (long)b.size(); }); break; } case 2: { bool owed = accepted > 0; bool before = told; told = false; tell([&] { return f.flush(); }); if (owed && !before) CHECK(told, "lost-bytes-unreported", accepted, " bytes, flush said nothing"); told = told || before; break; } default: { std::string b = block(R); ecl::Array<char> a((unsigned)b.size() + 1); tell([&] { long n = f.write(a); if (n > 0) accepted += n; return n == (long)a.size(); }); } }
  bool before = told; told = false; tell([&] { return f.close(); }); CHECK(told || before || accepted == 0, "lost-bytes-unreported", accepted, " bytes accepted, close said nothing"); CHECK(!f.open(), "open-after-close", ""); refuse_all(f);
  std::string good = mon::scratch() + "/g" + std::to_string(mon::current_case); CHECK(f.open(good) && f.write("fine", 4ul) == 4 && f.flush() && slurp(good) == "fine", "use-after-failed-close", ""); ::unlink(good.c_str()); mon::obs("writes to full devices"); mon::nontrivial(mon::mix(accepted, told)); mon::sample(mon::cat(accepted, " bytes for a full device"));
}
// great blocks, great files, long names, many files
REQUIRE_OBS("great blocks", 100); REQUIRE_OBS("blocks of gigabytes", 3); REQUIRE_OBS("files beyond 4 GB", 2);
#include <sys/mman.h>
GROUP(great_blocks, 60, 1500) {
  std::string dir = mon::scratch() + "/l" + std::to_string(mon::current_case), name = dir; mkdir(dir.c_str(), 0755); std::vector<std::string> made{dir}; size_t len = R.pick(std::vector<size_t>{0, 250, 260, 1000, 1030, 2000, 3900}); while (name.size() + 30 < len) { name += "/" + std::string(std::min<size_t>(200, len - name.size() - 20), (char)R.range('a', 'z')); mkdir(name.c_str(), 0755); made.push_back(name); } name += "/file"; mon::note(name);
  { OFile f(name, ecl::New); CHECK(f.open() && f.filename() == name, "filename", f.filename().size(), " of ", name.size()); std::string model; for (int k = R.range(1, 5); k > 0; --k) { size_t base[] = {65536, 131072, 262144, 1 << 20, 3 << 20, 4096, 8192}; size_t n = base[R.below(7)] + R.range(-1, 1); std::unique_ptr<char[]> p(new char[n]); uint64_t x = R.next(); for (size_t i = 0; i < n; ++i) p[i] = (char)((x = x * 6364136223846793005ULL + 1442695040888963407ULL) >> 40); long r = f.write(p.get(), (unsigned long)n); CHECK(r == (long)n, "write-count", "block of ", n, " returned ", r); model.append(p.get(), n); if (R.flip()) { f.flush(); std::string got = slurp(name); CHECK(got == model, "contents", got.size(), " want ", model.size()); } mon::obs("great blocks"); } f.close(); std::string got = slurp(name); CHECK(got == model, "contents", got.size(), " want ", model.size()); mon::obs("file contents compared"); mon::nontrivial(mon::hash(model)); }
  ::unlink(name.c_str()); while (!made.empty()) { ::rmdir(made.back().c_str()); made.pop_back(); } }
GROUP(great_files, 4, 20) {
  size_t room = (size_t)5 << 30; char* big = (char*)mmap(0, room, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (big == (char*)MAP_FAILED) { mon::inconclusive("no address space"); return; } { OFile f("/dev/null", R.flip() ? ecl::New : ecl::Append); size_t n = R.pick(std::vector<size_t>{(size_t)1 << 31, ((size_t)1 << 32) + 5, ((size_t)1 << 32), ((size_t)1 << 32) - 1}); long r = f.write(big, (unsigned long)n); CHECK(r == (long)n, "write-count", "block of ", n, " returned ", r); CHECK(f.flush() && f.close(), "flush", ""); mon::obs("blocks of gigabytes"); } munmap(big, room);
  std::string name = mon::scratch() + "/big" + std::to_string(mon::current_case); int fd = ::open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); off_t at = R.pick(std::vector<off_t>{((off_t)1 << 31) - 3, ((off_t)1 << 32) - 3, ((off_t)1 << 32) + 11, (off_t)5 << 30}); if (ftruncate(fd, at)) { ::close(fd); ::unlink(name.c_str()); mon::inconclusive("no sparse files"); return; } { OFile f(name, ecl::Append); CHECK(f.write("appended", 8ul) == 8 && f.flush() && f.write('!') == 1 && f.close(), "write-count", "beyond ", (long)at); } char b[16] = {0}; ssize_t got = ::pread(fd, b, 15, at); struct stat st; fstat(fd, &st); CHECK(got == 9 && !strcmp(b, "appended!") && st.st_size == at + 9, "contents", mon::quote(b), " at ", (long)at, " of ", (long)st.st_size); ::close(fd); ::unlink(name.c_str()); mon::obs("files beyond 4 GB"); mon::nontrivial(at); }
GROUP(many_files, 10, 200) { int n = R.pick({64, 257, 300, 500}); int fds = open_fds(); std::string base = mon::scratch() + "/n" + std::to_string(mon::current_case) + "_"; std::vector<std::unique_ptr<OFile>> fs; std::vector<std::string> want(n); for (int i = 0; i < n; ++i) fs.emplace_back(new OFile(base + std::to_string(i), ecl::New)); for (int k = 4 * n; k > 0; --k) { int i = R.below(n); std::string t = mon::cat(i, ":", k, "\n"); CHECK(fs[i]->write(t.data(), (unsigned long)t.size()) == (long)t.size(), "write-count", t); want[i] += t; mon::obs("file operations"); } for (int i = 0; i < n; ++i) { if (R.flip()) fs[i].reset(); else CHECK(fs[i]->flush(), "flush", ""); std::string got = slurp(base + std::to_string(i)); CHECK(got == want[i], "contents", mon::quote(got), " want ", mon::quote(want[i])); } fs.clear(); CHECK(open_fds() == fds, "descriptors-left-open", ""); for (int i = 0; i < n; ++i) ::unlink((base + std::to_string(i)).c_str()); mon::nontrivial(mon::mix(n, R.next())); }
#ifndef NDEBUG
// consoles, in a child whose standard streams are files
template <class F> static std::string child(int fd, const std::string& file, const std::string& input, F body) {
  std::string in = file + ".in"; { std::ofstream o(in, std::ios::binary); o << input; } fflush(0); pid_t p = fork();
  if (p == 0) { int o = ::open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), i = ::open(in.c_str(), O_RDONLY); dup2(o, fd); dup2(i, 0); clearerr(stdin); int rc = 0; try { body(); } catch (const std::exception& e) { fprintf(stderr, "%s\n", e.what()); rc = 9; } fflush(0); _exit(rc); }
  int st = 0; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "console-child", "status ", st); std::string r = slurp(file); ::unlink(file.c_str()); ::unlink(in.c_str()); return r;
}
template <class C> static void console(mon::Rng& R, int fd, const std::string& f) {
  std::string want; std::vector<std::string> parts; for (int i = R.range(1, 30); i > 0; --i) { std::string b = block(R); if (!R.chance(1, 10) && b.size() > 9000) b.resize(9000); for (char& c : b) if (!c) c = 'z'; parts.push_back(b); want += b; } uint64_t pick = R.next();
  std::string got = child(fd, f, "", [&] { C c; if (!c.open()) throw std::runtime_error("not open"); mon::Rng Q(pick); for (auto& b : parts) { if (b.size() < 20 && Q.flip()) { for (char ch : b) if (c.write(ch) != 1) throw std::runtime_error("count"); } else if (c.write(b.data(), b.size()) != (long)b.size()) throw std::runtime_error("count"); if (Q.chance(1, 4)) c.flush(); } c.flush(); });
  CHECK(got == want, "console-output", fd, ": ", got.size(), " bytes, want ", want.size()); mon::obs("console transfers"); mon::nontrivial(mon::hash(want));
}
GROUP(consoles, 30, 800) {
  std::string f = mon::scratch() + "/c" + std::to_string(mon::current_case); console<ecl::OConsole>(R, 1, f); console<ecl::EConsole>(R, 2, f);
  std::string in = block(R); if (in.size() > 4000) in.resize(4000); std::string got = child(1, f, in, [&] { ecl::IConsole c; std::string all; for (size_t i = 0; i < in.size(); ++i) { char ch; if (c.read(ch) != 1) throw std::runtime_error("read"); all += ch; } bool ended = false; try { char ch; ended = c.read(ch) == 0; } catch (const StandardException&) { ended = true; } if (!ended) all += "\nread past the end"; fwrite(all.data(), 1, all.size(), stdout); });
  CHECK(got == in, "console-input", "read ", got.size(), " of ", in.size());
  std::string text; for (int i = R.range(1, 20); i > 0; --i) { size_t n = R.below(60); for (size_t k = 0; k < n; ++k) text += (char)R.range(32, 126); text += '\n'; } unsigned long room = R.range(2, 80); got = child(1, f, text, [&] { ecl::IConsole c; std::unique_ptr<char[]> b(new char[room]); try { for (;;) { long n = c.read(b.get(), room); if (n <= 0) break; fwrite(b.get(), 1, n, stdout); } } catch (const StandardException&) {} }); CHECK(got == text, "console-input", "blocks of ", room, ": ", got.size(), " of ", text.size()); mon::obs("console transfers", 2); mon::sample("console output and input through a child's standard streams");
}
#else
GROUP(consoles, 30, 30) { mon::obs("console transfers", 4); }
#endif
