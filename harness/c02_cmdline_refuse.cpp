// C02: inadmissible command lines and declarations are refused.
#include "cmdline_model.hpp"
using namespace cl;
REQUIRE_OBS("refused", 3000, 30000);
REQUIRE_OBS("refused: missing", 200);
REQUIRE_OBS("refused: exclusive", 60);
REQUIRE_OBS("refused: twice", 150);
REQUIRE_OBS("refused: value", 100);
REQUIRE_OBS("refused: constraint", 60);
REQUIRE_OBS("refused: missing value", 40);
REQUIRE_OBS("refused: delimiter", 30);
REQUIRE_OBS("refused: unknown", 200);
REQUIRE_OBS("declarations refused", 400);
REQUIRE_OBS("declarations admitted", 100);

static void judge(const Spec& S, const vector<string>& w) {
  mon::note(describe(S, w));
  Reference ref(S); Outcome o = ref.run(w);
  Parsed p = run_real(S, w);
  crash_check(S, w, p.c);
  if (p.c.code == 77 || p.c.signalled || p.c.code == 88) return;
  if (ref.amb) { mon::obs("outcome not pinned down"); return; }
  if (o.code == 10 || o.code == 11) {
    mon::obs("help or version");
    CHECK(p.c.code == 0, "help-status", describe(S, w), " => exit ", p.c.code);
    return;
  }
  if (o.code == 0) {
    mon::obs("accepted");
    CHECK(p.accepted, "status", describe(S, w), " => admissible but exit ", p.c.code, " ", p.c.err.substr(0, 300));
    return;
  }
  if (p.accepted) { mon::fail("accepted:" + o.why, describe(S, w) + " => accepted as " + vals_text(S, p.vals) + " although " + o.why + " " + o.offender); return; }
  mon::obs("refused"); mon::obs(("refused: " + o.why).c_str());
  CHECK(p.c.code == 1, "status", describe(S, w), " => exit ", p.c.code, " want failure");
  size_t at = p.c.err.find("PARSE ERROR:");
  if (at == string::npos) { mon::fail("no-message", describe(S, w) + " => stderr " + mon::quote(p.c.err.substr(0, 200))); return; }
  size_t end = p.c.err.rfind("Brief USAGE"); string msg = p.c.err.substr(at, end == string::npos ? string::npos : end - at);
  CHECK(msg.find_first_not_of(" \n", 12) != string::npos, "empty-message", msg);
  if (!o.offender.empty()) {
    string want = o.why == "unknown" ? o.offender : "(--" + o.offender + ")";
    CHECK(p.c.err.find(want) != string::npos && p.c.err.find(want) < p.c.err.find("USAGE"), "offender-not-named", describe(S, w), " => ", msg, " want ", want);
    mon::obs("offenders named");
  }
  if (S.help) CHECK(p.c.out.empty(), "output-on-stdout", describe(S, w), " => ", p.c.out.substr(0, 200));
  mon::nontrivial(mon::hash(describe(S, w))); mon::sample(o.why + ": " + describe(S, w));
}
// an admissible line with one or two things gone wrong
GROUP(mutated, 9000, 90000) {
  Gen g(R); g.great = R.chance(1, 30); g.spec(g.great ? R.range(5, 50) : mon::thorough ? 8 : 6, true);
  vector<string> w = g.admissible();
  int n = R.range(1, 2);
  for (int m = 0; m < n; ++m) {
    size_t at = w.empty() ? 0 : R.below(w.size());
    const Decl* d = g.S.args.empty() ? 0 : &g.S.args[R.below(g.S.args.size())];
    switch (R.below(12)) {
      case 0: if (!w.empty()) w.erase(w.begin() + at); break;
      case 1: if (!w.empty()) w.insert(w.begin() + at, w[R.below(w.size())]); break;
      case 2: if (w.size() > 1) std::swap(w[at], w[R.below(w.size())]); break;
      case 3: if (!w.empty()) w[at] = g.word(true); break;
      case 4: w.insert(w.begin() + at, g.word(true)); break;
      case 5: case 6: case 7: if (d && !is_unlabeled(d->kind)) { // give some argument (again), properly
        vector<string> t(1, g.label(*d)); if (takes_value(d->kind)) { if (g.S.delim == ' ') t.push_back(g.good(*d, true)); else t[0] += string(1, g.S.delim) + g.good(*d, true); }
        w.insert(w.begin() + at, t.begin(), t.end()); } break;
      case 8: if (d && takes_value(d->kind)) { // a bad value
        static const char* bad[] = {"", "x", "1x", "1 2", "1.5.2", "--3", "99999999999999999999", "-", "+", "ab", " 7 8", "1e", "0x", "nope", "4 ", "2147483648", "-2147483649", "4294967296", "1,2", "."};
        string v = bad[R.below(20)]; vector<string> t(1, g.label(*d)); if (g.S.delim == ' ') t.push_back(v); else t[0] += string(1, g.S.delim) + v;
        // in place of a good one where there is one
        for (size_t i = 0; i < w.size(); ++i) { string h = w[i].substr(0, w[i].find(g.S.delim)); if (h == "-" + d->flag || h == "--" + d->name) { w.erase(w.begin() + i, w.begin() + std::min(w.size(), i + t.size())); at = i; break; } }
        w.insert(w.begin() + std::min(at, w.size()), t.begin(), t.end()); } break;
      case 9: if (d && !is_unlabeled(d->kind)) w.push_back(g.label(*d)); break;   // value missing at the end
      case 10: { string c = "-"; for (int i = R.range(2, 4); i > 0; --i) { const string f = g.S.args.empty() ? "" : g.S.args[R.below(g.S.args.size())].flag; c += f.empty() ? "q" : f; } w.insert(w.begin() + at, c); break; }
      case 11: if (d && !is_unlabeled(d->kind)) { string l = "--" + d->name; if (R.flip()) l += "s"; else l.pop_back(); w.insert(w.begin() + at, l); } break;  // nearly a name
    }
  }
  judge(g.S, w);
}
// words of arbitrary bytes and of pieces of labels
GROUP(bytes, 3000, 30000) {
  Gen g(R); g.spec(4, true);
  vector<string> w; int n = R.range(0, 5);
  for (int i = 0; i < n; ++i) {
    string s; int len = R.chance(1, 40) ? R.range(100, 3000) : R.range(0, 10); int mode = R.below(3);
    if (!g.S.args.empty() && R.chance(1, 3)) s = g.label(g.S.args[R.below(g.S.args.size())]);
    while (len-- > 0) { char c = mode == 0 ? (char)R.range(1, 255) : mode == 1 ? "-= :#*a0.h,|"[R.below(12)] : (char)R.range(32, 126); if (c == 7) c = 8; s += c; }
    w.push_back(s);
  }
  judge(g.S, w);
}
// declarations: each is either fine or must be refused when made
GROUP(declarations, 1500, 15000) {
  static const char* flags[] = {"", "", "a", "b", "c", "h", "-", "--", " ", "ab", "--x", "Z", "7", "-a", "\xc3\xbc", "q"};
  static const char* names[] = {"alpha", "beta", "alph", "help", "version", "ignore_rest", "a", "with space", "-dash", "mid-dash", "--dd", "x-", "gamma", "delta", "Alpha"};
  struct D { int kind; string flag, name; bool req; bool direct; };
  vector<D> ds; int n = R.range(1, 4); bool help = R.flip(); string text; int pads = R.chance(1, 8) ? R.range(8, 300) : 0; if (pads) { text = mon::cat("after ", pads, " others"); mon::obs("declarations after many others"); }
  for (int i = 0; i < n; ++i) { D d; d.kind = R.below(6); d.flag = R.chance(2, 3) ? flags[R.below(6)] : flags[R.below(16)]; d.name = R.chance(2, 3) ? names[R.below(5)] : names[R.below(15)]; d.req = R.flip(); d.direct = R.flip(); if (d.kind >= 4) d.flag = ""; if (pads && R.chance(1, 3)) d.name = "pad" + std::to_string(R.below(pads + 3)); ds.push_back(d);
    text += mon::cat(" [", d.kind, " flag=", mon::quote(d.flag), " name=", mon::quote(d.name), d.req ? " req" : "", "]"); }
  // which one is the first to be refused?
  int bad = -1; bool optional = false; vector<std::pair<string, string>> seen; seen.push_back({"-", "ignore_rest"}); for (int i = 0; i < pads; ++i) seen.push_back({i == 5 ? "q" : "", "pad" + std::to_string(i)}); if (help) { seen.push_back({"h", "help"}); seen.push_back({"", "version"}); }
  string why;
  for (int i = 0; i < n && bad < 0; ++i) {
    const D& d = ds[i];
    if (d.flag.size() > 1) why = "long flag"; else if (d.name != "ignore_rest" && (d.flag == "-" || d.flag == " ")) why = "flag form";
    else if (d.name.find('-') != string::npos || d.name.find(' ') != string::npos) why = "name form";
    if (why.empty() && d.kind >= 4) { if (optional) why = "after optional"; if (!d.req && d.kind == 4) optional = true; }
    if (why.empty()) for (auto& s : seen) if ((!d.flag.empty() && d.flag == s.first) || d.name == s.second) why = "clash";
    if (!why.empty()) bad = i; else seen.push_back({d.flag, d.name});
  }
  mon::note(text);
  ChildResult c = in_child([&]() -> string {
    ecl::CmdLine cmd("m", ' ', "1", help); int at = -1; static const char* desc[] = {"first", "second", "third", "fourth"}; for (int i = 0; i < pads; ++i) { const string f = i == 5 ? "q" : "", nm = "pad" + std::to_string(i); switch (i % 3) { case 0: new ecl::SwitchArg(f, nm, "a pad", cmd, false); break; case 1: new ecl::ValueArg<int>(f, nm, "a pad", false, 1, "int", cmd); break; default: cmd.add(new ecl::ValueArg<string>(f, nm, "a pad", false, "", "text")); } }
    try {
      for (at = 0; at < n; ++at) {
        const D& d = ds[at];
        switch (d.kind) {
          case 0: if (d.direct) new ecl::SwitchArg(d.flag, d.name, desc[at], cmd, false); else cmd.add(new ecl::SwitchArg(d.flag, d.name, desc[at], false)); break;
          case 1: if (d.direct) new ecl::MultiSwitchArg(d.flag, d.name, desc[at], cmd, 0); else cmd.add(*new ecl::MultiSwitchArg(d.flag, d.name, desc[at], 0)); break;
          case 2: if (d.direct) new ecl::ValueArg<int>(d.flag, d.name, desc[at], d.req, 1, "int", cmd); else cmd.add(new ecl::ValueArg<int>(d.flag, d.name, desc[at], d.req, 1, "int")); break;
          case 3: if (d.direct) new ecl::MultiArg<string>(d.flag, d.name, desc[at], d.req, "s", cmd); else cmd.add(new ecl::MultiArg<string>(d.flag, d.name, desc[at], d.req, "s")); break;
          case 4: if (d.direct) new ecl::UnlabeledValueArg<int>(d.name, desc[at], d.req, 1, "int", cmd); else cmd.add(new ecl::UnlabeledValueArg<int>(d.name, desc[at], d.req, 1, "int")); break;
          case 5: if (d.direct) new ecl::UnlabeledMultiArg<string>(d.name, desc[at], d.req, "s", cmd); else cmd.add(new ecl::UnlabeledMultiArg<string>(d.name, desc[at], d.req, "s")); break;
        }
      }
    } catch (ecl::SpecificationException& e) { return mon::cat("refused ", at, " ", e.what(), " / ", e.error(), " / ", e.argId()); }
    return "admitted";
  });
  Spec none; crash_check(none, vector<string>(1, text), c);
  if (c.code != 50) return;
  if (bad < 0) { mon::obs("declarations admitted"); CHECK(c.payload == "admitted", "good-declaration-refused", text, " help=", help, " => ", c.payload); }
  else {
    mon::obs("declarations refused");
    CHECK(c.payload.compare(0, 10 + (bad > 9), mon::cat("refused ", bad, " ")) == 0, "bad-declaration:" + why, text, " help=", help, " => ", c.payload, " want refusal of #", bad);
    mon::nontrivial(mon::hash(text)); mon::sample(why + text);
  }
}
