// C03: help, version and usage output tell the whole truth about the declarations.
#include "cmdline_model.hpp"
#include <ecl/command_line/docbook_output.hpp>
using namespace cl;
REQUIRE_OBS("usages judged", 600, 6000);
REQUIRE_OBS("brief usages judged", 120);
REQUIRE_OBS("versions judged", 120);
REQUIRE_OBS("docbooks judged", 300);
REQUIRE_OBS("wrapped lines", 1500);
REQUIRE_OBS("ids judged", 4000);
REQUIRE_OBS("user outputs", 100);

struct Entry { string sid, lid, desc, name; bool req, multi; int xorg; };
static Entry entry(const Decl& d, char delim) {
  Entry e; e.name = d.name; e.xorg = d.xorg; e.req = d.xorg >= 0 || (d.req && !is_switch(d.kind)); e.multi = is_multi(d.kind) || d.kind == MultiSwitch;
  string type = d.type;
  if (is_constrained(d.kind)) { type = ""; for (size_t i = 0; i < d.allowed.size(); ++i) { string c; convert(type_of(d.kind), d.allowed[i], c); type += (i ? "|" : "") + c; } }
  if (is_unlabeled(d.kind)) { e.sid = "<" + type + ">" + (e.multi ? " ..." : ""); e.lid = "<" + type + ">" + (e.multi ? "  (accepted multiple times)" : ""); }
  else {
    string val = takes_value(d.kind) ? " <" + type + ">" : "", dval = takes_value(d.kind) ? string(1, delim) + "<" + type + ">" : "";
    e.sid = (d.flag.empty() ? "--" + d.name : "-" + d.flag) + dval; if (!e.req) e.sid = "[" + e.sid + "]"; if (e.multi) e.sid += " ...";
    e.lid = (d.flag.empty() ? "" : "-" + d.flag + val + ",  ") + "--" + d.name + val + (e.multi ? "  (accepted multiple times)" : "");
  }
  e.desc = (e.req ? (d.xorg >= 0 ? string("(OR required)  ") : string("(required)  ")) : string()) + d.desc;
  return e;
}
static string squash(const string& s) { string r; for (char c : s) if (!isspace((unsigned char)c)) r += c; return r; }
static bool eqsquash(const string& a, const string& b) { return squash(a) == squash(b); }

// does `got` render `want` wrapped? consumes whitespace freely, breaks words only where a line cannot hold them
static void judge_layout(const string& want, const string& got, const char* part, const string& ctx) {
  string a = squash(want), b = squash(got);
  if (a != b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    mon::fail(string(part) + "-text", ctx + " => differs at " + mon::quote(b.substr(i, 60)) + " want " + mon::quote(a.substr(i, 60)) + " in " + mon::quote(got.substr(0, 1500)));
    return;
  }
  size_t i = 0, j = 0, line = 0;
  while (i < want.size() || j < got.size()) {
    bool sa = false, sb = false, nl = false; size_t i0 = i;
    while (i < want.size() && isspace((unsigned char)want[i])) { sa = true; ++i; }
    while (j < got.size() && isspace((unsigned char)got[j])) { sb = true; if (got[j] == '\n') { nl = true; line = 0; } else ++line; ++j; }
    if (i >= want.size() && j >= got.size()) break;
    if (i0 > 0 && i < want.size() && j < got.size()) {
      if (sa && !sb) { mon::fail(string(part) + "-words-joined", ctx + " at " + mon::quote(want.substr(i > 20 ? i - 20 : 0, 40)) + " in " + mon::quote(got)); return; }
      if (!sa && sb) {
        if (!nl) { mon::fail(string(part) + "-space-inside-word", ctx + " at " + mon::quote(want.substr(i > 20 ? i - 20 : 0, 40)) + " in " + mon::quote(got)); return; }
        // broken inside a word: the word must not fit on a line (continuation lines may be indented by up to 3+37)
        auto sep = [](char c) { return isspace((unsigned char)c) || c == ',' || c == '|'; };
        size_t l = i, r = i; while (l > 0 && !sep(want[l - 1])) --l; while (r < want.size() && !sep(want[r])) ++r;
        if (!(sep(want[i]) || sep(want[i - 1]) || r - l >= 34)) { mon::fail(string(part) + "-word-broken", ctx + " at " + mon::quote(want.substr(l, r - l)) + " in " + mon::quote(got)); return; }
        mon::obs("words broken legitimately");
      }
      if (nl) mon::obs("wrapped lines");
    }
    ++i; ++j; if (++line > 75) { mon::fail(string(part) + "-line-too-long", ctx + " near " + mon::quote(got.substr(j > 80 ? j - 80 : 0, 80)) ); return; }
  }
}
static string next_line(const string& s, size_t& at) { size_t e = s.find('\n', at); string l = s.substr(at, e == string::npos ? string::npos : e - at); at = e == string::npos ? s.size() : e + 1; return l; }

struct View { vector<string> order; vector<string> sid, lid, desc; bool ok; };
// what the declared arguments say of themselves, and in which order they are listed
static View view(const Spec& S, string& crash) {
  View v; v.ok = false;
  ChildResult c = in_child([&]() -> string {
    ecl::CmdLine cmd(S.message, S.delim, S.version, S.help); auto hs = build(cmd, S); string o;
    std::list<ecl::Arg*> l = cmd.getArgList(); put_str(o, std::to_string(l.size()));
    for (auto* a : l) { put_str(o, a->getName()); put_str(o, a->shortID()); put_str(o, a->longID()); put_str(o, a->getDescription()); put_str(o, a->getFlag()); put_str(o, a->toString()); put_str(o, mon::cat(a->isRequired(), a->isValueRequired(), a->acceptsMultipleValues(), a->isSet())); }
    put_str(o, cmd.getMessage()); put_str(o, cmd.getVersion()); put_str(o, string(1, cmd.getDelimiter())); put_str(o, cmd.hasHelpAndVersion() ? "1" : "0");
    return o;
  });
  vector<string> none; crash_check(S, none, c);
  if (c.code != 50) { crash = c.err; return v; }
  size_t at = 0; string s; get_str(c.payload, at, s); int n = atoi(s.c_str());
  std::map<string, const Decl*> by; for (auto& d : S.args) by[d.name] = &d;
  size_t found = 0; string ctx = describe(S, none);
  while (n-- > 0) {
    string name, sid, lid, desc, flag, str, bits; get_str(c.payload, at, name); get_str(c.payload, at, sid); get_str(c.payload, at, lid); get_str(c.payload, at, desc); get_str(c.payload, at, flag); get_str(c.payload, at, str); get_str(c.payload, at, bits);
    v.order.push_back(name); v.sid.push_back(sid); v.lid.push_back(lid); v.desc.push_back(desc);
    auto it = by.find(name); if (it == by.end()) continue; ++found;
    const Decl& d = *it->second; Entry e = entry(d, S.delim); mon::obs("ids judged", 5);
    CHECK(eqsquash(sid, e.sid), "short-id", ctx, " => ", sid, " want ", e.sid);
    CHECK(eqsquash(lid, e.lid), "long-id", ctx, " => ", lid, " want ", e.lid);
    CHECK(desc == e.desc, "description", ctx, " => ", desc, " want ", e.desc);
    CHECK(flag == d.flag, "flag", ctx, " => ", flag);
    CHECK(str == d.label(), "to-string", ctx, " => ", str, " want ", d.label());
    CHECK(bits == mon::cat(e.req, is_switch(d.kind) ? 0 : 1, e.multi, 0), "traits", ctx, " ", d.name, " => ", bits);
  }
  CHECK(found == S.args.size(), "listed-arguments", ctx, " => ", found);
  get_str(c.payload, at, s); CHECK(s == S.message, "message", s); get_str(c.payload, at, s); CHECK(s == S.version, "version", s);
  get_str(c.payload, at, s); CHECK(s == string(1, S.delim), "delimiter", s); get_str(c.payload, at, s); CHECK(s == (S.help ? "1" : "0"), "help-and-version", s);
  v.ok = true; return v;
}
static std::map<string, Entry> entries(const Spec& S) {
  std::map<string, Entry> m; for (auto& d : S.args) m[d.name] = entry(d, S.delim);
  auto builtin = [&](const string& f, const string& n, const string& t) { Decl d; d.kind = Switch; d.flag = f; d.name = n; d.desc = t; m[n] = entry(d, S.delim); };
  builtin("-", "ignore_rest", "Ignores the rest of the labeled arguments following this flag.");
  if (S.help) { builtin("h", "help", "Displays usage information and exits."); builtin("", "version", "Displays version information and exits."); }
  return m;
}
static string want_short(const Spec& S, const View& v) {
  auto m = entries(S); string s = S.prog + " ";
  for (size_t i = 0; i < v.order.size(); ++i) m[v.order[i]].sid = v.sid[i];   // judged above up to spacing
  for (int g = 0; g < S.xors; ++g) { s += " {"; bool first = true; for (auto& d : S.args) if (d.xorg == g) { s += (first ? "" : "|") + m[d.name].sid; first = false; } s += "}"; }
  for (auto& n : v.order) if (m[n].xorg < 0) s += " " + m[n].sid;
  return s;
}
static string want_long(const Spec& S, const View& v) {
  auto m = entries(S); string s;
  for (int g = 0; g < S.xors; ++g) { bool first = true; for (auto& d : S.args) if (d.xorg == g) { if (!first) s += "-- OR --\n"; s += m[d.name].lid + "\n" + m[d.name].desc + "\n"; first = false; } }
  for (auto& n : v.order) if (m[n].xorg < 0) s += m[n].lid + "\n" + m[n].desc + "\n";
  return s + S.message;
}
static void rich(Gen& g, mon::Rng& R) {
  auto t = [&](string s) {
    int n = R.chance(1, 3) ? R.range(1, 60) : 0; for (int i = 0; i < n; ++i) s += (R.chance(1, 12) ? "\n" : R.chance(1, 8) ? ", " : R.chance(1, 12) ? "|" : R.chance(1, 15) ? "  " : " ") + string(R.chance(1, 25) ? R.range(30, 180) : R.range(1, 11), (char)R.range('a', 'z'));
    if (R.chance(1, 8)) s = string(R.range(30, 160), 'W') + " " + s; return s; };
  for (auto& d : g.S.args) { d.desc = t(d.desc); if (R.chance(1, 10)) d.type = string(R.range(10, 90), 't'); }
  g.S.message = t(g.S.message); if (R.chance(1, 20)) g.S.prog = "/" + string(R.range(20, 150), 'p');
}
GROUP(usage, 2500, 25000) {
  Gen g(R); bool unl = R.chance(2, 3); g.great = R.chance(1, 30); g.spec(g.great ? R.range(5, 50) : 7, unl); if (g.great) mon::obs("long usages"); rich(g, R); const Spec& S = g.S; string crash; vector<string> w; mon::note(describe(S, w));
  View v = view(S, crash); if (!v.ok) return;
  int how = unl ? R.below(2) : S.help ? R.below(3) : 2; if (unl && !S.help) return; // help, version, failure
  if (how == 0) w.push_back(R.flip() ? "-h" : "--help"); else if (how == 1) w.push_back("--version"); else w.push_back("--no_such_argument");
  if (how < 2 && R.chance(1, 3)) w.push_back("--no_such_argument");
  Parsed p = run_real(S, w); crash_check(S, w, p.c); if (p.c.code == 77 || p.c.signalled || p.c.code == 88) return;
  string ctx = describe(S, w); string wants = want_short(S, v);
  // the built in switches combine with a flag clash free set
  if (how == 0 || (how == 2 && !S.help)) {
    CHECK(p.c.code == (how == 0 ? 0 : 1), "status", ctx, " => exit ", p.c.code);
    size_t u = p.c.out.find("USAGE:"), wh = p.c.out.find("\nWhere:");
    if (u == string::npos || wh == string::npos || wh < u) { mon::fail("usage-sections", ctx + " => " + mon::quote(p.c.out.substr(0, 400))); return; }
    judge_layout(wants, p.c.out.substr(u + 6, wh - u - 6), "short", ctx);
    string lg = p.c.out.substr(wh + 7); judge_layout(want_long(S, v), lg, "long", ctx);
    // entries start on lines of their own
    size_t at = 0; std::set<string> starts; string l; while (at < p.c.out.size()) { l = next_line(p.c.out, at); size_t k = l.find_first_not_of(' '); if (k != string::npos) starts.insert(l.substr(k)); }
    for (auto& e : entries(S)) if (e.second.lid.size() < 60) CHECK(starts.count(e.second.lid), "entry-line", ctx, " => no line ", mon::quote(e.second.lid));
    mon::obs("usages judged");
  } else if (how == 1) {
    CHECK(p.c.code == 0, "status", ctx, " => exit ", p.c.code);
    CHECK(eqsquash(p.c.out, S.prog + "version:" + S.version), "version-output", ctx, " => ", mon::quote(p.c.out)); mon::obs("versions judged");
    CHECK(p.c.err.empty(), "version-stderr", p.c.err);
  } else {
    CHECK(p.c.code == 1, "status", ctx, " => exit ", p.c.code);
    size_t u = p.c.err.find("Brief USAGE:"), e = p.c.err.rfind("\nFor complete USAGE");
    if (u == string::npos || e == string::npos || e < u) { mon::fail("brief-sections", ctx + " => " + mon::quote(p.c.err.substr(0, 400))); return; }
    judge_layout(wants, p.c.err.substr(u + 12, e - u - 12), "brief", ctx);
    CHECK(p.c.err.find(S.prog + " --help", e) != string::npos, "help-hint", ctx); mon::obs("brief usages judged");
  }
  mon::nontrivial(mon::hash(ctx + S.message)); mon::sample(ctx);
}
// docbook generation, selected as a program would
struct Part { string tag, text; };
GROUP(docbook, 700, 7000) {
  Gen g(R); g.great = R.chance(1, 30); g.spec(g.great ? R.range(5, 50) : 6, true); const Spec& S = g.S; vector<string> none; string crash; mon::note(describe(S, none)); if (!S.help) return;
  View v = view(S, crash); if (!v.ok) return;
  ChildResult c = in_child([&]() -> string { ecl::CmdLine cmd(S.message, S.delim, S.version, true); ecl::DocBookOutput out; cmd.setOutput(&out); auto hs = build(cmd, S);
    vector<string> st = {S.prog, "--help"}; vector<char*> av = {&st[0][0], &st[1][0], 0}; cmd.parse(2, &av[0]); return ""; });
  crash_check(S, none, c); if (c.code == 77 || c.signalled || c.code == 88) return;
  string ctx = describe(S, none); CHECK(c.code == 0, "docbook-status", ctx, " ", c.code);
  auto esc = [](string s) { string r; for (char ch : s) if (ch == '<') r += "&lt;"; else if (ch == '>') r += "&gt;"; else r += ch; return r; };
  auto nobr = [](string s) { string r; for (char ch : s) if (ch != '[' && ch != ']') r += ch; return r; };
  auto m = entries(S); string want = "<book><refentry><refmeta><refentrytitle>" + S.prog + "</refentrytitle><manvolnum>1</manvolnum></refmeta><refnamediv><refname>" + S.prog + "</refname></refnamediv><cmdsynopsis><command>" + S.prog + "</command>";
  auto sarg = [&](const Entry& e) { want += mon::cat("<arg choice='", e.req ? "req" : "opt", "' repeat='", e.multi ? "repeat" : "norepeat", "'>", nobr(esc(e.sid)), "</arg>"); };
  for (int x = 0; x < S.xors; ++x) { want += "<group choice='req'>"; for (auto& d : S.args) if (d.xorg == x) sarg(m[d.name]); want += "</group>"; }
  for (auto& n : v.order) if (m[n].xorg < 0) sarg(m[n]);
  want += "</cmdsynopsis><refsect1><title>Description</title><para>" + S.message + "</para></refsect1><refsect1><title>Options</title><para><itemizedlist>";
  auto larg = [&](const Entry& e) { want += "<simplelist><member>" + nobr(esc(e.lid)) + "</member><member>" + esc(e.desc) + "</member></simplelist>"; };
  for (int x = 0; x < S.xors; ++x) { want += "<itemizedlist>"; bool first = true; for (auto& d : S.args) if (d.xorg == x) { if (!first) want += "<listitem>OR</listitem>"; larg(m[d.name]); first = false; } want += "</itemizedlist>"; }
  for (auto& n : v.order) if (m[n].xorg < 0) larg(m[n]);
  want += "</itemizedlist></para></refsect1><refsect1><title>Version</title><para>" + S.version + "</para></refsect1></refentry></book>";
  string a = squash(want), b = squash(c.out); size_t st = b.find("<book>"); b = st == string::npos ? b : b.substr(st);
  if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; mon::fail("docbook-text", ctx + " => differs at " + mon::quote(b.substr(i > 20 ? i - 20 : 0, 80)) + " want " + mon::quote(a.substr(i > 20 ? i - 20 : 0, 80))); }
  mon::obs("docbooks judged"); mon::nontrivial(mon::hash(ctx, 7)); mon::sample("docbook " + ctx);
}
// an output object supplied by the user is the one that is asked
GROUP(user_output, 300, 3000) {
  Gen g(R); bool unl = R.flip(); g.spec(4, unl); const Spec& S = g.S; if (unl && !S.help) return; int how = unl ? R.below(2) : S.help ? R.below(3) : 2; vector<string> w; w.push_back(how == 0 ? "--help" : how == 1 ? "--version" : "--no_such_argument");
  mon::note(describe(S, w));
  struct Out : ecl::CmdLineOutput {
    void version(ecl::CmdLineInterface& c) { std::cout << "V " << c.getProgramName() << " " << c.getVersion() << std::endl; }
    void usage(ecl::CmdLineInterface& c) { std::cout << "U " << c.getArgList().size() << " " << c.getMessage() << std::endl; }
    void failure(ecl::CmdLineInterface& c, ecl::ArgException& e) { std::cout << "F " << e.argId() << " " << (e.error().empty() ? 0 : 1) << (e.typeDescription().empty() ? 0 : 1) << (string(e.what()).find(e.error()) != string::npos ? 1 : 0) << std::endl; }
  };
  ChildResult c = in_child([&]() -> string { ecl::CmdLine cmd(S.message, S.delim, S.version, S.help); Out out; cmd.setOutput(&out); auto hs = build(cmd, S); if (cmd.getOutput() != &out) std::cout << "X";
    vector<string> st = {S.prog, w[0]}; vector<char*> av = {&st[0][0], &st[1][0], 0}; cmd.parse(2, &av[0]); return ""; });
  crash_check(S, w, c); if (c.code == 77 || c.signalled || c.code == 88) return;
  string want = how == 0 ? mon::cat("U ", S.args.size() + 3, " ", S.message, "\n") : how == 1 ? "V " + S.prog + " " + S.version + "\n" : "F Argument: --no_such_argument 111\n";
  CHECK(c.out == want && c.err.empty(), "user-output", describe(S, w), " => ", c.out, c.err.substr(0, 200), " want ", want);
  CHECK(c.code == (how == 2 ? 1 : 0), "user-output-status", describe(S, w), " ", c.code);
  mon::obs("user outputs"); mon::nontrivial(mon::hash(describe(S, w), 9));
}
REQUIRE_OBS("long usages", 40);
