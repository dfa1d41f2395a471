// C36: path resolution returns the real path or a failure, never garbage.  The oracle is the kernel:
// a path-only descriptor opened on the same path, and the name the kernel has for it.
#include "mon.hpp"
#include <ecl/filesystem/realpath.hpp>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
REQUIRE_OBS("paths resolved", 15000); REQUIRE_OBS("paths refused", 8000); REQUIRE_OBS("through links", 5000); REQUIRE_OBS("loops", 300); REQUIRE_OBS("missing", 3000); REQUIRE_OBS("through a file", 500); REQUIRE_OBS("forbidden", 300); REQUIRE_OBS("too long", 100); REQUIRE_OBS("relative", 8000); REQUIRE_OBS("without a working directory", 50); REQUIRE_OBS("long results", 100); REQUIRE_OBS("result over the argument", 3000);
// failures the file system will not give on demand
static int fault = 0, fill = 0; static unsigned long faulted = 0;
extern "C" char* realpath(const char* p, char* b) { typedef char* (*F)(const char*, char*); static F real = (F)dlsym(RTLD_NEXT, "realpath"); if (!fault) return real(p, b); ++faulted; if (b && fill) memset(b, fill, PATH_MAX); errno = fault; return nullptr; }
static std::string kernel(const std::string& p, int& err, struct stat* st = nullptr) { int fd = open(p.c_str(), O_PATH | O_CLOEXEC); if (fd < 0) { err = errno; return ""; } err = 0; std::string out(5000, 0); if (st) fstat(fd, st); ssize_t n = readlink(mon::cat("/proc/self/fd/", fd).c_str(), &out[0], out.size()); close(fd); out.resize(n < 0 ? 0 : n); return out; }
static bool flag_fits(int err, ecl::ErrorFlag f) { switch (err) { case EACCES: return f == ecl::PermissionsError; case EINVAL: case ENAMETOOLONG: return f == ecl::InvalidArgError; case EIO: return f == ecl::ReadError; case ELOOP: case ENOTDIR: return f == ecl::InvalidObjectError; case ENOENT: return f == ecl::NotFoundError; default: return f == ecl::UnknownError; } }
static bool canonical(const std::string& s) { if (s.empty() || s[0] != '/' || s.size() >= PATH_MAX) return false; if (s == "/") return true; size_t i = 0; while (i < s.size()) { size_t e = s.find('/', i + 1); if (e == std::string::npos) e = s.size(); std::string c = s.substr(i + 1, e - i - 1); if (c.empty() || c == "." || c == "..") return false; i = e; } for (size_t k = 1; k <= s.size(); ++k) if (k == s.size() || s[k] == '/') { struct stat st; if (!lstat(s.substr(0, k).c_str(), &st) && S_ISLNK(st.st_mode)) return false; } return true; }
static const std::string before = "what was there before, long enough to live on the heap";
// resolves once, watching memory; the text is shown shortened
static ecl::ErrorFlag call(mon::Rng& R, const std::string& p, std::string& out, const std::string& in) { bool over = R.chance(1, 5); std::string path(p); out = before; out.reserve(5000); path.reserve(5000); long had = mon::live_blocks(); ecl::ErrorFlag f; if (over) { f = ecl::realpath(path, path).flag(); } else f = ecl::realpath(path, out).flag(); long left = mon::live_blocks() - had; CHECK(left == 0, "memory", in, " keeps ", left); if (over) { mon::obs("result over the argument"); out = f == ecl::NoError || path != p ? path : before; } else CHECK(path == p, "argument", in); if (f != ecl::NoError) CHECK(out == before || out.empty(), "undefined-result", in, " fails with flag ", f, " and leaves ", mon::quote(out.substr(0, 300))); return f; }
static void resolve(mon::Rng& R, const std::string& p, bool nowhere = false, size_t depth = 0) {
  std::string shown = p.size() > 400 ? p.substr(0, 380) + mon::cat("... (", p.size(), " characters)") : p, in = "path " + mon::quote(shown), got; int err; std::string want = kernel(p, err); ecl::ErrorFlag f = call(R, p, got, in); if (p.empty() || p[0] != '/') mon::obs("relative");
  if (nowhere && (p.empty() || p[0] != '/')) { mon::obs("without a working directory"); if (f != ecl::NoError) { return; } }
  if (!err && want.empty()) { CHECK(f != ecl::NoError || canonical(got), "wrong", in, " gives ", got.substr(0, 300)); mon::obs("too long"); return; }
  bool gone = !err && want.size() > 10 && want.substr(want.size() - 10) == " (deleted)"; if (gone) { CHECK(f != ecl::NoError, "deleted-directory", in, " gives ", got); mon::obs("without a working directory"); return; }
  if (!err && want.size() < PATH_MAX) { CHECK(f == ecl::NoError && got == want, "wrong", in, " flag ", f, " gives ", mon::quote(got.substr(0, 600)), " want ", want.substr(0, 600)); mon::obs("paths resolved"); if (want.size() > 3000) mon::obs("long results"); return; }
  if (f == ecl::NoError) { // more patient than the kernel: then it must be right all the same
    uid_t e = geteuid(); seteuid(0); int err2; std::string all = kernel(p, err2); bool right = err == ENAMETOOLONG ? canonical(got) : !err2 && all == got; if (seteuid(e)) mon::harness_error("seteuid"); CHECK(right, "not-refused", in, " gives ", mon::quote(got.substr(0, 600)), " although the system says ", strerror(err)); mon::obs("more patient"); return; }
  mon::obs("paths refused"); if (!err) { CHECK(flag_fits(ENAMETOOLONG, f), "flag", in, " flag ", f, " for a path too long"); mon::obs("too long"); return; } size_t part = 0, longest = 0; for (char c : p) { part = c == '/' ? 0 : part + 1; longest = std::max(longest, part); } bool any = err == ENAMETOOLONG || (longest > 255 && err == EACCES); bool fits = any || flag_fits(err, f) || (flag_fits(ENAMETOOLONG, f) && (longest > 255 || depth + p.size() > 3000)); if (!fits && err == EACCES) { uid_t e = geteuid(); seteuid(0); int err2; kernel(p, err2); if (seteuid(e)) mon::harness_error("seteuid"); fits = err2 && flag_fits(err2, f); } CHECK(fits, "flag", in, " flag ", f, " where the system says ", strerror(err)); mon::obs(err == ELOOP ? "loops" : err == ENOENT ? "missing" : err == ENOTDIR ? "through a file" : err == EACCES ? "forbidden" : err == ENAMETOOLONG ? "too long" : "other failures"); }
static void fresh(const std::string& d) { if (mkdir(d.c_str(), 0755)) mon::harness_error("mkdir " + d); }
static void clear(const std::string& d) { std::string cmd; if (d.size() < 10 || d[0] != '/') mon::harness_error("not a scratch directory " + d); (void)!chdir("/"); cmd = "chmod -R u+rwx '" + d + "' 2>/dev/null; rm -rf '" + d + "'"; if (system(cmd.c_str())) mon::harness_error("cleaning " + d); }
static void warm() { static bool w = false; if (w) return; w = true; for (const char* o : {"paths resolved", "paths refused", "through links", "loops", "missing", "through a file", "forbidden", "too long", "relative", "without a working directory", "long results", "result over the argument", "more patient", "other failures"}) mon::obs(o, 0); std::string s; ecl::realpath("/", s); ecl::realpath("/no such", s); ecl::realpath(".", s); }
GROUP_OPT(trees, 1000, 60000, "hang=60") {
  warm(); std::string root = mon::cat(mon::scratch(), "/t", mon::current_case); fresh(root); std::vector<std::string> dirs{root}, files, links, names; const char* odd[] = {"a", "b", "sub", "x y", "..x", ".hid", "...", "name", "\xc3\xa9", "q'q", "-r", "a.b"}; auto name = [&] { return mon::cat(odd[R.below(12)], R.below(4) ? std::string() : mon::cat(R.below(10))); };
  auto there = [&](const std::string& p) { struct stat st; return !lstat(p.c_str(), &st); }; for (int i = R.range(2, 7); i--;) { std::string d = R.pick(dirs) + "/" + name(); if (!there(d)) { fresh(d); dirs.push_back(d); } } for (int i = R.range(1, 4); i--;) { std::string f = R.pick(dirs) + "/" + name(); if (!there(f)) { int fd = open(f.c_str(), O_CREAT | O_WRONLY, R.flip() ? 0644 : 0); close(fd); files.push_back(f); } }
  auto rel = [&](const std::string& p) { return p.size() > root.size() ? p.substr(root.size() + 1) : std::string("."); }; auto some = [&]() -> std::string { int k = R.below(8); if (k < 3) return R.pick(dirs); if (k < 4 && files.size()) return R.pick(files); if (k < 7 && links.size()) return R.pick(links); return R.pick(dirs) + "/" + name(); };
  for (int i = R.range(1, 9); i--;) { std::string at = R.pick(dirs) + "/" + name(), to; if (there(at)) continue; switch (R.below(7)) { case 0: to = some(); break; case 1: { size_t s = at.rfind('/'); to = at.substr(s + 1); break; } case 2: to = ".."; break; case 3: to = "../" + name(); break; case 4: to = some() + "/" + (R.flip() ? ".." : "."); break; case 5: to = name() + (R.flip() ? "/" : ""); break; default: { std::string up; for (size_t k = root.size() + 1; k < at.size(); ++k) if (at[k] == '/') up += "../"; to = up + rel(some()); } } if (!symlink(to.c_str(), at.c_str())) links.push_back(at); }
  if (links.size() && R.chance(1, 3)) { std::string last = links[0], n; for (int i = 0, len = R.flip() ? R.range(5, 30) : R.range(45, 60); i < len; ++i) { n = mon::cat(root, "/chain", i); if (!symlink(last.c_str(), n.c_str())) last = n; } links.push_back(last); }
  bool weak = R.chance(1, 3) && !geteuid(); if (weak) for (auto& d : dirs) { if (d != root && R.chance(1, 3)) chmod(d.c_str(), R.flip() ? 0700 : 0744); } std::string cwd = R.pick(dirs); bool gone = R.chance(1, 10); if (gone) { cwd = root + "/gone"; fresh(cwd); } if (chdir(cwd.c_str())) mon::harness_error("chdir"); if (gone) rmdir(cwd.c_str()); if (weak && seteuid(65534)) mon::harness_error("seteuid");
  { int e; kernel(cwd + "/.", e); if (e) gone = true; /* the way down to here is shut or no more */ } uint64_t h = 0; for (int n = 0; n < 120; ++n) { std::string p = R.flip() ? std::string() : some(); if (p.empty() && R.chance(1, 8)) p = R.pick(std::vector<std::string>{"/", "//", "///", "/..", "/../../", "/tmp", "/tmp/..", "/."}); if (p.empty() && R.flip()) p = rel(some()); int parts = R.chance(1, 3) ? 0 : R.range(1, R.chance(1, 5) ? 20 : 4); for (int i = 0; i < parts; ++i) { if (!p.empty() && p.back() != '/') p += R.chance(1, 6) ? R.flip() ? "//" : "///" : "/"; switch (R.below(7)) { case 0: p += "."; break; case 1: case 2: p += ".."; break; case 3: { std::string s = some(); p += s.substr(s.rfind('/') + 1); break; } case 4: p += rel(some()); break; case 5: { std::string s = R.pick(dirs); p += s.substr(s.rfind('/') + 1); break; } default: p += name(); } } if (R.chance(1, 8)) p += R.flip() ? "/" : "/."; if (R.chance(1, 60)) p += "/" + std::string(R.range(250, 260), 'n'); if (R.chance(1, 60)) { size_t want = R.range(4000, 4200); while (p.size() < want) p += "/."; } for (auto& l : links) if (p.find(l.substr(root.size() + 1)) != std::string::npos) { mon::obs("through links"); break; } resolve(R, p, gone); h = mon::hash(p, h); if (n == 0) mon::sample(p); }
  if (weak && seteuid(0)) mon::harness_error("seteuid"); clear(root); mon::nontrivial(h); }
// directories so deep that their names come up to the longest possible path
GROUP_OPT(deep, 24, 600, "hang=60") {
  warm(); std::string root = mon::cat(mon::scratch(), "/d", mon::current_case); fresh(root); if (chdir(root.c_str())) mon::harness_error("chdir"); size_t len = root.size(); size_t target = PATH_MAX - 1 + R.range(-6, 6); bool past = R.chance(1, 3); uint64_t h = len; for (;;) { int m = R.range(150, 255); if (len + 1 + m > target) m = (int)target - (int)len - 1; if (m <= 0) break; std::string n(m, (char)('a' + R.below(26))); if (mkdir(n.c_str(), 0755) || chdir(n.c_str())) mon::harness_error("deep mkdir"); len += 1 + m; for (const char* p : {".", "./", "..", "../."}) resolve(R, p, false, len); resolve(R, "../" + n, false, len); resolve(R, n, false, len); if (R.flip() && len < PATH_MAX - 1) { std::string k((size_t)R.range(1, 255), 'f'); int fd = open(k.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if (fd >= 0) { close(fd); resolve(R, k, false, len); resolve(R, "./" + k, false, len); resolve(R, k + "/", false, len); resolve(R, k + "/..", false, len); unlink(k.c_str()); } } h = mon::hash(n, h); }
  if (past) { for (int i = 0; i < 3; ++i) { std::string n(200, 'z'); if (mkdir(n.c_str(), 0755) || chdir(n.c_str())) mon::harness_error("deeper mkdir"); for (const char* p : {".", "..", "../..", "../../../.."}) resolve(R, p, false, len); } } clear(root); mon::nontrivial(h); mon::sample(mon::cat("deep to ", len)); }
// failures of the resolution itself, with whatever it leaves in its buffer
GROUP(faults, 400, 20000) {
  warm(); int errs[] = {EACCES, EINVAL, EIO, ELOOP, ENAMETOOLONG, ENOENT, ENOTDIR, ENOMEM, EPERM, EBADF, ESTALE, ETIMEDOUT}; int e = errs[R.below(12)]; std::string p = R.flip() ? "/" : R.flip() ? "." : "/tmp/../tmp", got, in = mon::cat("fault ", strerror(e), " on ", p); fill = R.pick(std::vector<int>{0, 1, 'x', 255}); fault = e; unsigned long was = faulted; ecl::ErrorFlag f = call(R, p, got, in); fault = 0; if (faulted == was) { mon::obs("faults not taken"); return; } CHECK(f != ecl::NoError, "fault-hidden", in); CHECK(flag_fits(e, f), "fault-flag", in, " flag ", f); f = call(R, p, got, in); int err; CHECK(f == ecl::NoError && got == kernel(p, err), "after-a-fault", in, " gives ", got); mon::obs("faults"); mon::nontrivial(mon::hash(in)); mon::sample(in); }
