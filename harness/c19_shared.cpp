// C19: shared log files lose, mix or duplicate no writer's data. Built with the race detector and, again, with AddressSanitizer.
#include "mon.hpp"
#include <algorithm>
#include <ecl/devices/shared_file.hpp>
#include <thread>
#include <atomic>
#include <memory>
#include <mutex>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sched.h>
using ecl::SharedFile; using ecl::StandardException;
REQUIRE_OBS("bytes accounted for", 2000000); REQUIRE_OBS("flushed blocks found whole", 3000); REQUIRE_OBS("handles opened", 1500); REQUIRE_OBS("failed opens", 100); REQUIRE_OBS("switches between writers in the files", 500);
static std::string slurp(const std::string& f) { int fd = ::open(f.c_str(), O_RDONLY); if (fd < 0) return "\1missing"; std::string s; char b[65536]; ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n); ::close(fd); return s; }
static int open_fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
// byte k of writer w: the writer in the upper half, a running count (prime period 13) in the lower
static char byte(int w, uint64_t k) { return (char)(w << 4 | (int)(k * 7 % 13)); }
struct Writer { int id; uint64_t written = 0; std::vector<uint64_t> cuts; size_t room = 4096; // cuts: where a block must have ended
  void took(size_t n) { while (n) { size_t k = std::min(n, room); written += k; room -= k; n -= k; if (!room) flushed(); } }
  void flushed() { if (cuts.empty() ? written > 0 : cuts.back() < written) cuts.push_back(written); room = 4096; } };
static void account(const std::string& file, std::vector<Writer>& ws, const char* what) {
  std::string s = slurp(file); std::vector<uint64_t> seen(16, 0); std::vector<size_t> cut(16, 0); std::vector<Writer*> by(16, (Writer*)0); for (auto& w : ws) by[w.id] = &w; int last = -1; uint64_t total = 0, want = 0; for (auto& w : ws) want += w.written;
  for (size_t i = 0; i < s.size(); ++i) { int w = (unsigned char)s[i] >> 4; if (!by[w] || s[i] != byte(w, seen[w])) { mon::fail("bytes-lost-or-reordered", mon::cat(what, ": offset ", i, " writer ", w, " byte ", seen[w], " of ", by[w] ? by[w]->written : 0)); return; }
    if (w != last) { if (last >= 0) { // the writer left behind must have ended a block here
        bool ended = std::binary_search(by[last]->cuts.begin(), by[last]->cuts.end(), seen[last]); if (!ended) { mon::fail("block-torn", mon::cat(what, ": writer ", last, " interrupted after its byte ", seen[last])); return; } mon::obs("switches between writers in the files"); } last = w; }
    ++seen[w]; ++total; }
  for (auto& w : ws) { CHECK(seen[w.id] == w.written, "bytes-missing", what, ": writer ", w.id, " wrote ", w.written, ", file has ", seen[w.id]); mon::obs("flushed blocks found whole", w.cuts.size()); } (void)want; mon::obs("bytes accounted for", total);
}
static void pause(mon::Rng& R) { switch (R.below(6)) { case 0: sched_yield(); break; case 1: usleep(R.below(60)); break; default: break; } }
static void write_some(mon::Rng& R, SharedFile& f, Writer& w, int steps) {
  for (int i = 0; i < steps; ++i) { int op = R.below(10); if (op < 3) { char c = byte(w.id, w.written); if (f.write(c) != 1) mon::fail("write-count", "char"); w.took(1); } else if (op < 8) { static const size_t sizes[] = {0, 1, 4095, 4096, 4097, 9000}; size_t n = R.chance(1, 5) ? sizes[R.below(6)] : R.below(400); std::string s(n, 0); for (size_t k = 0; k < n; ++k) s[k] = byte(w.id, w.written + k); std::unique_ptr<char[]> p(new char[n]); memcpy(p.get(), s.data(), n); long r = f.write(p.get(), (unsigned long)n); if (r != (long)n) mon::fail("write-count", mon::cat(r, " of ", n)); w.took(n); } else { if (!f.flush()) mon::fail("flush", ""); w.flushed(); } pause(R); }
}
// several writers, each with handles of its own, while one handle keeps the file open
GROUP_OPT(writers, 120, 4000, "serial") {
  std::string name = mon::scratch() + "/w" + std::to_string(mon::current_case); int fds = open_fds(); int n = R.range(2, 7), rounds = R.range(1, 3); std::vector<Writer> ws(n); for (int i = 0; i < n; ++i) ws[i].id = i + 1; uint64_t seed = R.next(); std::atomic<int> ready(0); std::atomic<bool> go(false);
  { std::unique_ptr<SharedFile> keeper(new SharedFile(name, ecl::New)); std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { mon::Rng Q(seed + i * 977); ++ready; while (!go) sched_yield(); for (int r = 0; r < rounds; ++r) { SharedFile f(name, Q.flip() ? ecl::New : ecl::Append); mon::obs("handles opened"); if (!f.open()) mon::fail("open", name); write_some(Q, f, ws[i], Q.range(5, 40)); if (Q.flip()) { f.flush(); } ws[i].flushed(); } }); while (ready < n) sched_yield(); go = true; for (auto& t : ts) t.join();
    CHECK(keeper->count() == 1, "count", keeper->count()); keeper.reset(); }
  account(name, ws, "after the last handle"); CHECK(open_fds() == fds, "descriptors-left-open", ""); ::unlink(name.c_str()); uint64_t h = 0; for (auto& w : ws) h = mon::mix(h, w.written); mon::nontrivial(h); mon::sample(mon::cat(n, " writers, ", rounds, " handles each"));
}
// handles come and go until none is left, and again: appended files keep everything
GROUP_OPT(coming_and_going, 100, 3000, "serial") {
  std::string name[2] = {mon::scratch() + "/x" + std::to_string(mon::current_case), mon::scratch() + "/y" + std::to_string(mon::current_case)}, bad = mon::scratch() + "/none" + std::to_string(mon::current_case) + "/file"; int fds = open_fds(); int n = R.range(2, 6); std::vector<Writer> ws[2]; for (auto& v : ws) { v.resize(n); for (int i = 0; i < n; ++i) v[i].id = i + 1; } uint64_t seed = R.next(); std::atomic<int> ready(0); std::atomic<bool> go(false);
  std::vector<std::thread> ts; for (int i = 0; i < n; ++i) ts.emplace_back([&, i] { mon::Rng Q(seed + i * 31337); ++ready; while (!go) sched_yield(); for (int r = Q.range(2, 8); r > 0; --r) { int k = Q.below(2); if (Q.chance(1, 3)) { bool threw = false; try { SharedFile b; b.open(bad, ecl::Append); } catch (const StandardException&) { threw = true; } if (!threw) mon::fail("bad-open-accepted", bad); mon::obs("failed opens"); } SharedFile f; if (!f.open(name[k], ecl::Append)) mon::fail("open", name[k]); mon::obs("handles opened"); write_some(Q, f, ws[k][i], Q.range(1, 15)); if (Q.chance(1, 4)) { f.open(name[1 - k], ecl::Append); ws[k][i].flushed(); k = 1 - k; write_some(Q, f, ws[k][i], Q.range(1, 10)); } ws[k][i].flushed(); } });
  while (ready < n) sched_yield(); go = true; for (auto& t : ts) t.join(); for (int k = 0; k < 2; ++k) { if (access(name[k].c_str(), F_OK) == 0) account(name[k], ws[k], "after coming and going"); else for (auto& w : ws[k]) CHECK(w.written == 0, "file-missing", ""); ::unlink(name[k].c_str()); } CHECK(open_fds() == fds, "descriptors-left-open", open_fds() - fds); mon::nontrivial(seed); mon::sample(mon::cat(n, " threads opening and closing two files"));
}
// one thread, many handles: counts, contents at every moment, failures and misuse
GROUP(handles, 150, 8000) {
  std::string name = mon::scratch() + "/h" + std::to_string(mon::current_case), dir = mon::scratch() + "/d" + std::to_string(mon::current_case), bad = dir + "/file"; int fds = open_fds(); int n = R.range(1, 6); std::vector<std::unique_ptr<SharedFile>> hs(n); std::vector<Writer> ws(n); for (int i = 0; i < n; ++i) ws[i].id = i + 1; unsigned live = 0; uint64_t h = 0;
  for (int s = R.range(10, 60); s > 0; --s) { int i = R.below(n), op = R.below(8); h = mon::mix(h, op * 8 + i);
    if (!hs[i]) { if (op < 2) { SharedFile f; CHECK(!f.open() && f.count() == 0, "unopened-handle", ""); bool threw = false; try { switch (R.below(4)) { case 0: f.write('c'); break; case 1: f.write("abc", 3); break; case 2: f.flush(); break; default: f.open(bad); } } catch (const StandardException&) { threw = true; } CHECK(threw, "closed-device-used", ""); if (R.flip()) { mkdir(dir.c_str(), 0755); CHECK(f.open(bad) && f.open() && f.count() == 1 && f.write("x", 1) == 1 && f.flush(), "open-after-failure", ""); SharedFile g(bad); CHECK(g.count() == 2 && f.count() == 2, "count", ""); } mon::obs("failed opens"); ::unlink(bad.c_str()); ::rmdir(dir.c_str()); }
      else { hs[i].reset(new SharedFile(name, ecl::Append)); ++live; mon::obs("handles opened"); CHECK(hs[i]->open() && hs[i]->error().flag() == ecl::NoError, "open", ""); } }
    else if (op == 0) { hs[i].reset(); ws[i].flushed(); --live; }
    else write_some(R, *hs[i], ws[i], R.range(1, 5));
    for (auto& x : hs) if (x) CHECK(x->count() == live, "count", x->count(), " want ", live);
    if (!live && access(name.c_str(), F_OK) == 0) account(name, ws, "no handle left"); }
  hs.clear(); for (auto& w : ws) w.flushed(); if (access(name.c_str(), F_OK) == 0) account(name, ws, "end"); CHECK(open_fds() == fds, "descriptors-left-open", ""); ::unlink(name.c_str()); mon::nontrivial(h); mon::sample(mon::cat(n, " handles in one thread"));
}
// many handles to one file (more than a byte can count; thorough, more than two bytes), many files at once, and writes of many buffers at once
GROUP(many_handles, 6, 60) {
  std::string name = mon::scratch() + "/m" + std::to_string(mon::current_case); int fds = open_fds(); size_t n = mon::current_case % 6 == 5 ? (mon::thorough && mon::current_case % 12 == 5 ? 65536 + R.range(1, 40) : 4096 + R.range(1, 300)) : 256 + R.range(0, 60); std::vector<std::unique_ptr<SharedFile>> hs(n); std::vector<size_t> order(n); for (size_t i = 0; i < n; ++i) order[i] = i; std::string want; bool hold = n > 5000;
  for (size_t i = 0; i < n; ++i) { hs[i].reset(new SharedFile(name, ecl::Append)); if (i % 64 == 0 || i + 1 == n || (i & (i + 1)) == 0) CHECK(hs[i]->count() == i + 1 && hs[0]->count() == i + 1, "count", hs[0]->count(), " want ", i + 1); }
  mon::obs("handles opened", n); CHECK(open_fds() == fds + 1, "one-descriptor-for-one-file", open_fds() - fds);
  for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[R.below(i)]);
  for (size_t k = 0; k + 1 < n; ++k) { SharedFile& f = *hs[order[k]]; if (!hold || R.chance(1, 16)) { char c = (char)('a' + k % 26); if (f.write(c) != 1) mon::fail("write-count", "char"); want += c; } hs[order[k]].reset(); if (k % 64 == 0 || ((n - 1 - k) & (n - 2 - k)) == 0 || n - 1 - k < 4) CHECK(hs[order[n - 1]]->count() == n - 1 - k, "count", hs[order[n - 1]]->count(), " want ", n - 1 - k); }
  CHECK(open_fds() == fds + 1, "file-let-go-early", ""); SharedFile& last = *hs[order[n - 1]]; bool ok = true; try { ok = last.write("the last", 8) == 8 && last.flush(); } catch (const StandardException&) { ok = false; } CHECK(ok, "last-handle-cut-off", ""); want += "the last"; hs[order[n - 1]].reset(); CHECK(open_fds() == fds, "descriptors-left-open", open_fds() - fds); std::string got = slurp(name); CHECK(got == want, "bytes-missing", got.size(), " want ", want.size(), " with ", n, " handles"); mon::obs("bytes accounted for", got.size()); ::unlink(name.c_str()); mon::nontrivial(n); mon::obs("rounds of many handles"); }
GROUP(many_files, 30, 600) {
  int fds = open_fds(); int n = R.pick({9, 15, 16, 17, 31, 33, 64, 65, 129, 257}); std::string base = mon::scratch() + "/q" + std::to_string(mon::current_case) + "_"; std::vector<std::string> want(n); std::vector<std::vector<std::unique_ptr<SharedFile>>> hs(n); auto name = [&](int i) { return base + std::to_string(i); };
  for (int i = 0; i < n; ++i) hs[i].emplace_back(new SharedFile(name(i), ecl::New));
  for (int s = 4 * n; s > 0; --s) { int i = R.below(n); switch (R.below(4)) { case 0: hs[i].emplace_back(new SharedFile(name(i), ecl::Append)); break; case 1: if (hs[i].size() > 1) hs[i].pop_back(); break; default: { std::string t = mon::cat(i, ":", s, ";"); int h = R.below(hs[i].size()); if (hs[i][h]->write(t.data(), t.size()) != (long)t.size() || !hs[i][h]->flush()) mon::fail("write-count", t); want[i] += t; } } CHECK(hs[i][0]->count() == hs[i].size(), "count", hs[i][0]->count(), " want ", hs[i].size(), " with ", n, " files"); }
  CHECK(open_fds() == fds + n, "one-descriptor-for-one-file", open_fds() - fds, " for ", n); for (int i = 0; i < n; ++i) CHECK(hs[i][0]->count() == hs[i].size(), "count", hs[i][0]->count(), " want ", hs[i].size(), " with ", n, " files");
  while (true) { std::vector<int> left; for (int i = 0; i < n; ++i) if (!hs[i].empty()) left.push_back(i); if (left.empty()) break; int i = left[R.below(left.size())]; hs[i].clear(); CHECK(open_fds() == fds + (int)left.size() - 1, "descriptors-left-open", ""); std::string got = slurp(name(i)); CHECK(got == want[i], "bytes-missing", mon::quote(got), " want ", mon::quote(want[i]), " among ", n, " files"); mon::obs("bytes accounted for", got.size()); ::unlink(name(i).c_str()); }
  mon::nontrivial(n); mon::obs("rounds of many files"); }
GROUP(great_writes, 60, 2000) {
  std::string name = mon::scratch() + "/g" + std::to_string(mon::current_case); std::string want; { SharedFile f(name, ecl::New); for (int s = R.range(1, 6); s > 0; --s) { size_t n = (R.chance(1, 6) ? R.range(15, 40) : R.range(1, 5)) * 4096 + R.pick({-1, 0, 0, 1}); if (R.chance(1, 3)) { size_t into = want.size() % 4096; n += 4096 - into; } std::unique_ptr<char[]> p(new char[n]); for (size_t i = 0; i < n; ++i) p[i] = (char)('!' + (want.size() + i) * 7 % 89); long r = f.write(p.get(), (unsigned long)n); CHECK(r == (long)n, "write-count", r, " of ", n); want.append(p.get(), n); if (R.chance(1, 3)) CHECK(f.flush(), "flush", ""); std::string got = slurp(name); CHECK(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "bytes-reordered", got.size(), " of ", want.size()); } }
  std::string got = slurp(name); CHECK(got == want, "bytes-missing", got.size(), " want ", want.size()); mon::obs("bytes accounted for", got.size()); mon::obs("great writes"); ::unlink(name.c_str()); mon::nontrivial(want.size()); }
REQUIRE_OBS("rounds of many handles", 6); REQUIRE_OBS("rounds of many files", 30); REQUIRE_OBS("great writes", 60);
