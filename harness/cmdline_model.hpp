// Declarations, reference parser and child-process execution for the command line harnesses.
#ifndef VERIF_CMDLINE_MODEL_HPP_
#define VERIF_CMDLINE_MODEL_HPP_
#include "mon.hpp"
#include <ecl/command_line.hpp>
#include <set>
#include <map>
#include <memory>
#include <algorithm>
#include <cstdlib>
#include <cerrno>
#include <climits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace cl {
using std::string; using std::vector;
enum Kind { Switch, MultiSwitch, VInt, VDouble, VString, VChar, VUint, MInt, MString, MDouble, VIntC, VStringC, MStringC, UInt, UString, UStringC, UMString, UMInt };
inline bool is_switch(Kind k) { return k == Switch || k == MultiSwitch; }
inline bool is_unlabeled(Kind k) { return k == UInt || k == UString || k == UStringC || k == UMString || k == UMInt; }
inline bool is_multi(Kind k) { return k == MInt || k == MString || k == MDouble || k == MStringC || k == UMString || k == UMInt; }
inline bool is_constrained(Kind k) { return k == VIntC || k == VStringC || k == MStringC || k == UStringC; }
inline bool takes_value(Kind k) { return !is_switch(k) && !is_unlabeled(k); }
enum T { TInt, TDouble, TString, TChar, TUint };
inline T type_of(Kind k) {
  switch (k) { case VInt: case MInt: case VIntC: case UInt: case UMInt: return TInt; case VDouble: case MDouble: return TDouble;
    case VChar: return TChar; case VUint: return TUint; default: return TString; }
}
struct Decl {
  Kind kind; string flag, name, desc, type; bool req; bool sdef; int minit; string def; vector<string> allowed; int xorg; int style;
  Decl() : kind(Switch), req(false), sdef(false), minit(0), xorg(-1), style(0) {}
  string label() const { string s; if (!flag.empty()) s += "-" + flag + " "; return s + "(--" + name + ")"; }
};
struct Spec { vector<Decl> args; char delim; bool help; string message, version, prog; int xors; Spec() : delim(' '), help(true), version("none"), prog("prog"), xors(0) {} };
// what an argument ends up with
struct Val { bool set; vector<string> v; Val() : set(false) {} bool operator==(const Val& o) const { return set == o.set && v == o.v; } };
struct Outcome { int code; vector<Val> vals; string why, offender; Outcome() : code(0) {} };  // code 0 accepted, 1 refused, 10 help, 11 version

inline string canon_double(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }
// does the text denote exactly one value of the type? canonical form in out
inline bool convert(T t, const string& s, string& out) {
  if (t == TString) { out = s; return true; }
  size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) i++;
  if (i == s.size()) return false;
  string body = s.substr(i);
  if (t == TChar) { if (body.size() != 1) return false; out = body; return true; }
  if (isspace((unsigned char)body[body.size() - 1])) return false;
  if (body.find('\0') != string::npos) return false;
  if (t == TInt || t == TUint) {
    size_t k = (body[0] == '-' || body[0] == '+') ? 1 : 0;
    if (k == body.size()) return false;
    for (size_t j = k; j < body.size(); ++j) if (!isdigit((unsigned char)body[j])) return false;
    errno = 0; long long v = strtoll(body.c_str(), 0, 10);
    if (errno) return false;
    if (t == TInt) { if (v < INT_MIN || v > INT_MAX) return false; out = std::to_string((int)v); return true; }
    // the language's own extraction wraps a negated magnitude; keep to the unambiguous part
    if (v < 0 || v > (long long)UINT_MAX) return false;
    out = std::to_string((unsigned)v); return true;
  }
  // double: decimal notation
  size_t j = (body[0] == '-' || body[0] == '+') ? 1 : 0; bool dig = false;
  while (j < body.size() && isdigit((unsigned char)body[j])) { j++; dig = true; }
  if (j < body.size() && body[j] == '.') { j++; while (j < body.size() && isdigit((unsigned char)body[j])) { j++; dig = true; } }
  if (!dig) return false;
  if (j < body.size() && (body[j] == 'e' || body[j] == 'E')) {
    j++; if (j < body.size() && (body[j] == '-' || body[j] == '+')) j++;
    if (j >= body.size()) return false;
    while (j < body.size() && isdigit((unsigned char)body[j])) j++;
  }
  if (j != body.size()) return false;
  double d = strtod(body.c_str(), 0); if (d > 1e300 || d < -1e300) return false;
  out = canon_double(d); return true;
}
// the part of text whose reading the reference does not pin down
inline bool ambiguous(T t, const string& s) {
  if (t == TString || t == TChar) return false;
  if (t == TUint && s.find('-') != string::npos) return true;
  if (t == TDouble) for (char c : s) if (strchr("xXpPnNaAiIfF", c) || c == 'e' || c == 'E') return s.find_first_of("0123456789") != string::npos || s.size() > 0;
  return false;
}
inline Val initial(const Decl& d) {
  Val v; string c;
  if (d.kind == Switch) v.v.push_back(d.sdef ? "1" : "0");
  else if (d.kind == MultiSwitch) v.v.push_back(std::to_string(d.minit));
  else if (!is_multi(d.kind)) { convert(type_of(d.kind), d.def, c); v.v.push_back(c); }
  return v;
}

struct Reference {
  const Spec& S; vector<int> given; vector<int> times; bool amb;
  explicit Reference(const Spec& s) : S(s), given(s.args.size(), 0), times(s.args.size(), 0), amb(false) {}
  Outcome bad(const string& why, const string& off) { Outcome o; o.code = 1; o.why = why; o.offender = off; return o; }
  bool xor_conflict(size_t k) {
    if (S.args[k].xorg < 0) return false;
    for (size_t j = 0; j < S.args.size(); ++j) if (j != k && S.args[j].xorg == S.args[k].xorg && given[j]) return true;
    return false;
  }
  Outcome run(const vector<string>& words) {
    Outcome o; const vector<Decl>& A = S.args;
    for (size_t k = 0; k < A.size(); ++k) o.vals.push_back(initial(A[k]));
    bool ignoring = false;
    auto put = [&](size_t k, const string& text, string& err) -> bool {
      string c; if (ambiguous(type_of(A[k].kind), text)) amb = true;
      if (!convert(type_of(A[k].kind), text, c)) { err = "value"; return false; }
      if (is_constrained(A[k].kind)) {
        bool ok = false; for (auto& a : A[k].allowed) { string ac; convert(type_of(A[k].kind), a, ac); if (ac == c) ok = true; }
        if (!ok) { err = "constraint"; return false; }
      }
      if (!is_multi(A[k].kind)) o.vals[k].v.clear();
      o.vals[k].v.push_back(c); o.vals[k].set = true; given[k] = 1; return true;
    };
    for (size_t i = 0; i < words.size(); ++i) {
      const string& w = words[i]; bool matched = false; string err;
      if (!ignoring) {
        string head = w, val; size_t p = w.find(S.delim);
        if (p != string::npos && p > 1) { head = w.substr(0, p); val = w.substr(p + 1); }
        if (w == "--" || w == "--ignore_rest") { ignoring = true; continue; }
        if (S.help && (w == "-h" || w == "--help")) { o.code = 10; return o; }
        if (S.help && w == "--version") { o.code = 11; return o; }
        for (size_t k = 0; k < A.size() && !matched; ++k) {
          if (is_unlabeled(A[k].kind)) continue;
          const string& m = is_switch(A[k].kind) ? w : head;
          if (!((!A[k].flag.empty() && m == "-" + A[k].flag) || m == "--" + A[k].name)) continue;
          matched = true;
          if (xor_conflict(k)) return bad("exclusive", A[k].name);
          if (A[k].kind == Switch) {
            if (given[k]) return bad("twice", A[k].name);
            given[k] = 1; o.vals[k].set = true; o.vals[k].v[0] = A[k].sdef ? "0" : "1";
          } else if (A[k].kind == MultiSwitch) {
            given[k] = 1; o.vals[k].set = true; o.vals[k].v[0] = std::to_string(atoi(o.vals[k].v[0].c_str()) + 1);
          } else {
            if (!is_multi(A[k].kind) && given[k]) return bad("twice", A[k].name);
            if (val.empty()) {
              if (S.delim != ' ') return bad("delimiter", A[k].name);
              if (i + 1 >= words.size()) return bad("missing value", A[k].name);
              ++i; if (!put(k, words[i], err)) return bad(err, A[k].name);
            } else if (!put(k, val, err)) return bad(err, A[k].name);
          }
        }
        if (matched) continue;
        if (w.size() > 1 && w[0] == '-' && w[1] != '-' && (S.delim == ' ' || w.find(S.delim) == string::npos)) {
          // a combination of switches?
          bool any = false, all = true, help = false;
          for (size_t c = 1; c < w.size(); ++c) {
            bool hit = S.help && w[c] == 'h'; if (hit) help = true;
            for (auto& d : A) if (is_switch(d.kind) && d.flag == string(1, w[c])) hit = true;
            any |= hit; all &= hit;
          }
          if (any) {
            std::set<size_t> now;
            for (size_t c = 1; c < w.size(); ++c)
              for (size_t k = 0; k < A.size(); ++k) if (is_switch(A[k].kind) && A[k].flag == string(1, w[c])) {
                if (A[k].kind == Switch) {
                  if (given[k] || now.count(k)) return bad("twice", "");
                  o.vals[k].v[0] = A[k].sdef ? "0" : "1";
                } else o.vals[k].v[0] = std::to_string(atoi(o.vals[k].v[0].c_str()) + 1);
                if (xor_conflict(k)) return bad("exclusive", "");
                now.insert(k); o.vals[k].set = true;
              }
            if (help) { if (std::count(w.begin(), w.end(), 'h') > 1) return bad("twice", "help"); o.code = 10; return o; }
            if (!all) return bad("unknown", "");
            for (size_t k : now) given[k] = 1;
            for (size_t k : now) if (xor_conflict(k)) return bad("exclusive", "");
            continue;
          }
        }
      }
      for (size_t k = 0; k < A.size() && !matched; ++k) {
        if (!is_unlabeled(A[k].kind)) continue;
        if (!is_multi(A[k].kind) && given[k]) continue;
        matched = true;
        if (!put(k, w, err)) return bad(err, A[k].name);
      }
      if (!matched && !ignoring) return bad("unknown", w);
    }
    for (int g = 0; g < S.xors; ++g) {
      bool any = false; for (size_t k = 0; k < A.size(); ++k) if (A[k].xorg == g && given[k]) any = true;
      if (!any) return bad("missing", "");
    }
    for (size_t k = 0; k < A.size(); ++k) if (A[k].req && A[k].xorg < 0 && !given[k]) return bad("missing", "");
    return o;
  }
};

// ---- the real thing
template <class X> inline X conv(const string& s) { std::istringstream i(s); X x = X(); i >> x; return x; }
template <> inline string conv<string>(const string& s) { return s; }
template <> inline char conv<char>(const string& s) { return s.empty() ? 'x' : s[0]; }
struct Holder {
  ecl::Arg* arg; std::function<vector<string>()> get; std::shared_ptr<void> keep;
};
template <class X> inline string show(const X& x) { return std::to_string(x); }
inline string show(const string& x) { return x; }
inline string show(const char& x) { return string(1, x); }
inline string show(const double& x) { return canon_double(x); }
template <class X> inline std::shared_ptr<ecl::ValuesConstraint<X>> constraint(const Decl& d) {
  vector<X> v; for (auto& a : d.allowed) v.push_back(conv<X>(a));
  return std::make_shared<ecl::ValuesConstraint<X>>(v);
}
template <class A> inline void attach(ecl::CmdLine& c, A* a, const Decl& d) {
  if (d.xorg >= 0 || d.style == 0) return;
  if (d.style == 1) c.add(*a); else c.add(static_cast<ecl::Arg*>(a));
}
template <class X> Holder make_value(ecl::CmdLine& c, const Decl& d) {
  bool parser = d.style == 0 && d.xorg < 0; ecl::ValueArg<X>* a; Holder h; X def = conv<X>(d.def);
  if (is_constrained(d.kind)) {
    auto k = constraint<X>(d); h.keep = k;
    a = parser ? new ecl::ValueArg<X>(d.flag, d.name, d.desc, d.req, def, k.get(), c) : new ecl::ValueArg<X>(d.flag, d.name, d.desc, d.req, def, k.get());
  } else a = parser ? new ecl::ValueArg<X>(d.flag, d.name, d.desc, d.req, def, d.type, c) : new ecl::ValueArg<X>(d.flag, d.name, d.desc, d.req, def, d.type);
  attach(c, a, d); h.arg = a; h.get = [a] { return vector<string>(1, show(a->getValue())); }; return h;
}
template <class X> Holder make_multi(ecl::CmdLine& c, const Decl& d) {
  bool parser = d.style == 0 && d.xorg < 0; ecl::MultiArg<X>* a; Holder h;
  if (is_constrained(d.kind)) {
    auto k = constraint<X>(d); h.keep = k;
    a = parser ? new ecl::MultiArg<X>(d.flag, d.name, d.desc, d.req, k.get(), c) : new ecl::MultiArg<X>(d.flag, d.name, d.desc, d.req, k.get());
  } else a = parser ? new ecl::MultiArg<X>(d.flag, d.name, d.desc, d.req, d.type, c) : new ecl::MultiArg<X>(d.flag, d.name, d.desc, d.req, d.type);
  attach(c, a, d); h.arg = a; h.get = [a] { vector<string> r; for (auto& x : a->getValue()) r.push_back(show(x)); return r; }; return h;
}
template <class X> Holder make_unlabeled(ecl::CmdLine& c, const Decl& d) {
  bool parser = d.style == 0; ecl::UnlabeledValueArg<X>* a; Holder h; X def = conv<X>(d.def);
  if (is_constrained(d.kind)) {
    auto k = constraint<X>(d); h.keep = k;
    a = parser ? new ecl::UnlabeledValueArg<X>(d.name, d.desc, d.req, def, k.get(), c) : new ecl::UnlabeledValueArg<X>(d.name, d.desc, d.req, def, k.get());
  } else a = parser ? new ecl::UnlabeledValueArg<X>(d.name, d.desc, d.req, def, d.type, c) : new ecl::UnlabeledValueArg<X>(d.name, d.desc, d.req, def, d.type);
  attach(c, a, d); h.arg = a; h.get = [a] { return vector<string>(1, show(a->getValue())); }; return h;
}
template <class X> Holder make_unlabeled_multi(ecl::CmdLine& c, const Decl& d) {
  bool parser = d.style == 0; Holder h;
  auto* a = parser ? new ecl::UnlabeledMultiArg<X>(d.name, d.desc, d.req, d.type, c) : new ecl::UnlabeledMultiArg<X>(d.name, d.desc, d.req, d.type);
  attach(c, a, d); h.arg = a; h.get = [a] { vector<string> r; for (auto& x : a->getValue()) r.push_back(show(x)); return r; }; return h;
}
inline Holder make(ecl::CmdLine& c, const Decl& d) {
  bool parser = d.style == 0 && d.xorg < 0; Holder h;
  switch (d.kind) {
    case Switch: { auto* a = parser ? new ecl::SwitchArg(d.flag, d.name, d.desc, c, d.sdef) : new ecl::SwitchArg(d.flag, d.name, d.desc, d.sdef);
      attach(c, a, d); h.arg = a; h.get = [a] { return vector<string>(1, a->getValue() ? "1" : "0"); }; return h; }
    case MultiSwitch: { auto* a = parser ? new ecl::MultiSwitchArg(d.flag, d.name, d.desc, c, d.minit) : new ecl::MultiSwitchArg(d.flag, d.name, d.desc, d.minit);
      attach(c, a, d); h.arg = a; h.get = [a] { return vector<string>(1, std::to_string(a->getValue())); }; return h; }
    case VInt: case VIntC: return make_value<int>(c, d);
    case VUint: return make_value<unsigned int>(c, d);
    case VDouble: return make_value<double>(c, d);
    case VChar: return make_value<char>(c, d);
    case VString: case VStringC: return make_value<string>(c, d);
    case MInt: return make_multi<int>(c, d);
    case MDouble: return make_multi<double>(c, d);
    case MString: case MStringC: return make_multi<string>(c, d);
    case UInt: return make_unlabeled<int>(c, d);
    case UString: case UStringC: return make_unlabeled<string>(c, d);
    case UMString: return make_unlabeled_multi<string>(c, d);
    case UMInt: return make_unlabeled_multi<int>(c, d);
  }
  return h;
}
inline vector<Holder> build(ecl::CmdLine& cmd, const Spec& S) {
  vector<Holder> hs; std::map<int, vector<ecl::Arg*>> groups;
  for (auto& d : S.args) { hs.push_back(make(cmd, d)); if (d.xorg >= 0) groups[d.xorg].push_back(hs.back().arg); }
  for (auto& g : groups) { if (g.second.size() == 2 && S.args.size() % 2) cmd.xorAdd(*g.second[0], *g.second[1]); else cmd.xorAdd(g.second); }
  return hs;
}
struct ChildResult { int code; bool signalled; string out, err, payload; };
// runs f in a child whose standard output and error are captured; f's return is the payload
inline ChildResult in_child(const std::function<string()>& f) {
  string d = mon::scratch(); string fo = d + "/cout", fe = d + "/cerr", fp = d + "/cpay";
  unlink(fp.c_str());
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) mon::harness_error("fork");
  if (pid == 0) {
    int o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(o, 1); dup2(e, 2);
    alarm(120);
    string p;
    try { p = f(); } catch (std::exception& x) { std::cerr << "ESCAPED-EXCEPTION " << x.what() << std::endl; _exit(88); }
    catch (...) { std::cerr << "ESCAPED-EXCEPTION" << std::endl; _exit(88); }
    std::cout.flush(); std::cerr.flush();
    FILE* pf = fopen(fp.c_str(), "w"); fwrite(p.data(), 1, p.size(), pf); fclose(pf);
    _exit(50);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  auto rd = [](const string& f) { string s; FILE* x = fopen(f.c_str(), "r"); if (!x) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, x)) > 0) s.append(b, n); fclose(x); return s; };
  ChildResult r; r.signalled = WIFSIGNALED(st); r.code = r.signalled ? -WTERMSIG(st) : WEXITSTATUS(st); r.out = rd(fo); r.err = rd(fe); r.payload = rd(fp);
  if (r.signalled && WTERMSIG(st) == SIGALRM) { mon::fail("hang", "child did not finish"); }
  return r;
}
inline void put_str(string& o, const string& s) { uint32_t n = s.size(); o.append((char*)&n, 4); o += s; }
inline bool get_str(const string& p, size_t& at, string& s) { if (at + 4 > p.size()) return false; uint32_t n; memcpy(&n, p.data() + at, 4); at += 4; if (at + n > p.size()) return false; s = p.substr(at, n); at += n; return true; }

inline string describe(const Spec& S, const vector<string>& w) {
  string r = mon::cat("delim='", string(1, S.delim), "' help=", S.help, " decl:");
  static const char* kn[] = {"Switch", "MultiSwitch", "int", "double", "string", "char", "uint", "ints", "strings", "doubles", "int|", "string|", "strings|", "@int", "@string", "@string|", "@strings", "@ints"};
  for (auto& d : S.args) { r += mon::cat(" [", kn[d.kind], " -", d.flag, " --", d.name, d.req ? " req" : ""); if (d.xorg >= 0) r += mon::cat(" xor", d.xorg); r += "]"; }
  r += " argv:"; for (auto& x : w) r += " " + mon::quote(x);
  return r;
}
// exit code of parse as the user sees it: 0 accepted, else the process's exit code
struct Parsed { ChildResult c; bool accepted; vector<Val> vals; string prog; };
inline Parsed run_real(const Spec& S, const vector<string>& words) {
  Parsed P;
  P.c = in_child([&]() -> string {
    ecl::CmdLine cmd(S.message, S.delim, S.version, S.help);
    vector<Holder> hs = build(cmd, S);
    vector<string> store(1, S.prog); store.insert(store.end(), words.begin(), words.end());
    vector<char*> av; for (auto& s : store) av.push_back(&s[0]); av.push_back(0);
    cmd.parse((int)store.size(), &av[0]);
    string o; put_str(o, cmd.getProgramName());
    for (auto& h : hs) { put_str(o, h.arg->isSet() ? "1" : "0"); vector<string> v = h.get(); put_str(o, std::to_string(v.size())); for (auto& x : v) put_str(o, x); }
    return o;
  });
  P.accepted = P.c.code == 50;
  if (P.accepted) {
    size_t at = 0; string s; get_str(P.c.payload, at, P.prog);
    for (size_t k = 0; k < S.args.size(); ++k) {
      Val v; if (!get_str(P.c.payload, at, s)) mon::harness_error("payload"); v.set = s == "1";
      get_str(P.c.payload, at, s); int n = atoi(s.c_str()); while (n-- > 0) { get_str(P.c.payload, at, s); v.v.push_back(s); }
      P.vals.push_back(v);
    }
  }
  return P;
}
inline void crash_check(const Spec& S, const vector<string>& w, const ChildResult& c) {
  if (c.code == 77 || c.signalled || c.code == 88) {
    string kind = "crash"; size_t p;
    if ((p = c.err.find("AddressSanitizer: ")) != string::npos) kind += ":" + c.err.substr(p + 18, c.err.find_first_of(" \n", p + 18) - p - 18);
    else if ((p = c.err.find("runtime error: ")) != string::npos) kind += ":undefined-behaviour";
    else if (c.code == 88) kind = "escaped-exception";
    mon::fail(kind, describe(S, w) + " => " + c.err.substr(0, 1200));
  }
}
inline string vals_text(const Spec& S, const vector<Val>& v) {
  string r; for (size_t k = 0; k < v.size() && k < S.args.size(); ++k) { r += S.args[k].name + (v[k].set ? "!=" : "="); for (auto& x : v[k].v) r += mon::quote(x) + ","; r += " "; } return r;
}
// ---- generation
struct Gen {
  mon::Rng& R; Spec S; std::set<string> flags, names; bool digits;
  explicit Gen(mon::Rng& r) : R(r), digits(false) {}
  string flag() {
    if (R.chance(1, 4)) return "";
    for (int t = 0; t < 50; ++t) {
      string pool = digits ? "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789?!@" : "abcdefgijklmnopqrstuvwxyzABCDH?@";
      if (!S.help) pool += "h";
      string f(1, pool[R.below(pool.size())]); if (f[0] == S.delim) continue;
      if (flags.insert(f).second) return f;
    }
    return "";
  }
  string name() {
    static const char* stems[] = {"a", "al", "alpha", "alphabet", "be", "beta", "h", "hel", "helpme", "ver", "versions", "ignore", "in", "input", "inputs", "out", "output", "x", "zeta", "verbose", "v1", "N", "rate_limit", "file.name", "_"};
    for (;;) {
      string n = stems[R.below(sizeof stems / sizeof *stems)]; if (R.chance(1, 2)) n += std::to_string(R.below(30));
      if (n.find(S.delim) != string::npos) continue;
      if (names.insert(n).second) return n;
    }
  }
  string word(bool any) {
    static const char* w[] = {"foo", "bar.txt", "a*b", "*", "x=y", "a:b", "hello world", "ünï", "0", "42", "a,b", "100%", "\"q\"", "'", "$HOME", "a-b", "path/to/file", "k", "aa", "=", "a=", "~", "\\", "a\tb", "f*.c*"};
    static const char* flaglike[] = {"-a", "--alpha", "-", "--", "-5", "-abc", "--ignore_rest", "-h", "--help", "-x*y", "-**", "---", "--=", "-=", "", " ", "-1.5e3", "--version", "-a-b", "- "};
    if (any && R.chance(2, 5)) return flaglike[R.below(sizeof flaglike / sizeof *flaglike)];
    string s = w[R.below(sizeof w / sizeof *w)];
    if (R.chance(1, 3)) s += std::to_string(R.below(1000));
    if (R.chance(1, 60)) s += string(R.range(50, 400), 'L'); if (great && R.chance(1, 20)) s += string(R.chance(1, 8) ? 70000 : R.range(1000, 9000), 'M');
    return s;
  }
  string good(const Decl& d, bool any) {
    if (is_constrained(d.kind)) return d.allowed[R.below(d.allowed.size())];
    switch (type_of(d.kind)) {
      case TInt: { string s = std::to_string(R.integer<int>()); return (R.chance(1, 8) && s[0] != '-') ? "+" + s : R.chance(1, 10) ? "0" + std::to_string(R.below(1000)) : s; }
      case TUint: return std::to_string(R.integer<unsigned int>());
      case TChar: return string(1, "abcXYZ019*-=.#"[R.below(14)]);
      case TDouble: { static const char* f[] = {"%.3f", "%g", "%.17g", "%e"}; char b[64]; snprintf(b, sizeof b, f[R.below(4)], R.uniform(-1e4, 1e4) * (R.chance(1, 3) ? 1e-6 : 1)); return b; }
      default: return word(any);
    }
  }
  string texty() {
    static const char* w[] = {"the", "value", "of", "an", "argument", "for", "testing,", "which", "may|be", "long", "or", "short.", "Default", "is", "42", "a", "file(s)"};
    string s; int n = great && R.chance(1, 8) ? R.range(40, 400) : R.range(1, 12); for (int i = 0; i < n; ++i) s += (i ? " " : "") + string(w[R.below(sizeof w / sizeof *w)]);
    return s + " #" + std::to_string(serial++);
  }
  int serial = 0; bool great = false; int count(int lo, int hi) { return great && R.chance(1, 3) ? R.range(100, 400) : R.range(lo, hi); }
  Decl decl(Kind k) {
    Decl d; d.kind = k; d.name = name(); if (!is_unlabeled(k)) d.flag = flag(); d.desc = texty(); d.style = R.below(3);
    static const char* ty[] = {"int", "string", "value", "file name", "val|ue", "x"}; d.type = ty[R.below(6)];
    d.sdef = R.flip(); d.minit = R.chance(1, 2) ? 0 : R.range(-3, 7); if (!is_switch(k)) d.req = R.chance(1, 3);
    if (is_constrained(k)) { int n = R.range(1, 4); for (int i = 0; i < n; ++i) d.allowed.push_back(type_of(k) == TInt ? std::to_string(R.range(-20, 20)) : string(1, 'p' + i) + std::to_string(R.below(50))); d.def = d.allowed[0]; if (R.chance(1, 3)) d.def = type_of(k) == TInt ? "777" : "other"; }
    else { d.def = good(d, false); if (type_of(k) == TString && R.chance(1, 4)) d.def = ""; }
    return d;
  }
  void spec(int maxl, bool unl) {
    S.delim = R.chance(1, 2) ? ' ' : "=:#"[R.below(3)]; S.help = !R.chance(1, 4); digits = R.chance(1, 5);
    if (S.help) { names.insert("help"); names.insert("version"); }
    static const char* progs[] = {"prog", "./a.out", "/usr/bin/some program", "x", "a_very_long_program_name_that_goes_on_and_on_until_the_cows_come_home_yes"};
    S.prog = progs[R.below(5)]; S.message = texty(); S.version = "1." + std::to_string(R.below(99));
    static const Kind lab[] = {Switch, Switch, Switch, MultiSwitch, MultiSwitch, VInt, VInt, VDouble, VString, VString, VChar, VUint, MInt, MString, MString, MDouble, VIntC, VStringC, MStringC};
    int n = R.range(0, maxl); for (int i = 0; i < n; ++i) S.args.push_back(decl(lab[R.below(sizeof lab / sizeof *lab)]));
    // exclusive groups among the labelled arguments
    while (R.chance(1, 3) && S.xors < 3) {
      vector<size_t> free; for (size_t k = 0; k < S.args.size(); ++k) if (S.args[k].xorg < 0) free.push_back(k);
      if (free.size() < 2) break;
      int m = R.range(2, std::min<int>(4, free.size()));
      for (int j = 0; j < m; ++j) { size_t p = R.below(free.size()); S.args[free[p]].xorg = S.xors; free.erase(free.begin() + p); }
      S.xors++;
    }
    if (unl && R.chance(3, 5)) {
      int m = R.range(0, 3); bool opt = false;
      for (int j = 0; j < m && !opt; ++j) { Decl d = decl(R.chance(1, 4) ? UInt : R.chance(1, 4) ? UStringC : UString); d.req = !R.chance(1, 4); opt = !d.req; S.args.push_back(d); }
      if (!opt && R.chance(1, 2)) S.args.push_back(decl(R.chance(1, 4) ? UMInt : UMString));
    }
  }
  string label(const Decl& d) { return (!d.flag.empty() && R.flip()) ? "-" + d.flag : "--" + d.name; }
  // an admissible command line; expected values in o
  vector<string> admissible() {
    vector<vector<string>> tokens; vector<string> comb; vector<bool> giv(S.args.size(), false);
    for (int g = 0; g < S.xors; ++g) { vector<size_t> m; for (size_t k = 0; k < S.args.size(); ++k) if (S.args[k].xorg == g) m.push_back(k); giv[m[R.below(m.size())]] = true; }
    int unl_opt = -1; (void)unl_opt;
    for (size_t k = 0; k < S.args.size(); ++k) { const Decl& d = S.args[k]; if (d.xorg < 0 && !is_unlabeled(d.kind)) giv[k] = d.req || R.chance(3, 5); }
    for (size_t k = 0; k < S.args.size(); ++k) {
      const Decl& d = S.args[k]; if (!giv[k]) continue;
      if (is_switch(d.kind)) {
        int n = d.kind == MultiSwitch ? count(1, 4) : 1;
        for (int j = 0; j < n; ++j) { if (!d.flag.empty() && R.flip()) comb.push_back(d.flag); else tokens.push_back(vector<string>(1, label(d))); }
      } else {
        int n = is_multi(d.kind) ? count(1, 4) : 1;
        for (int j = 0; j < n; ++j) {
          string v = good(d, true);
          if (S.delim == ' ') { vector<string> t(1, label(d)); t.push_back(v); tokens.push_back(t); }
          else { if (v.empty()) v = "e"; tokens.push_back(vector<string>(1, label(d) + string(1, S.delim) + v)); }
        }
      }
    }
    // combine switches behind one dash
    while (!comb.empty()) {
      int n = R.range(1, std::min<int>(great ? 500 : 5, comb.size())); string w = "-";
      for (int j = 0; j < n; ++j) { size_t p = R.below(comb.size()); w += comb[p]; comb.erase(comb.begin() + p); }
      tokens.push_back(vector<string>(1, w));
    }
    for (size_t i = tokens.size(); i > 1; --i) std::swap(tokens[i - 1], tokens[R.below(i)]);
    // positional words, in order, threaded through
    vector<string> pos; bool open = false; T mt = TString;
    for (size_t k = 0; k < S.args.size(); ++k) { const Decl& d = S.args[k]; if (!is_unlabeled(d.kind)) continue;
      if (is_multi(d.kind)) { int n = d.req ? count(1, 5) : count(0, 5); for (int j = 0; j < n; ++j) pos.push_back(good(d, false)); open = true; mt = type_of(d.kind); }
      else if (d.req || R.flip()) pos.push_back(good(d, false)); else break; }
    (void)mt; (void)open;
    for (auto& p : pos) {
      if (p.size() && p[0] == '-' && digits) { /* could be a combination of digit switches */ p = "1"; }
    }
    bool rest = R.chance(1, 5); size_t before = rest ? R.below(pos.size() + 1) : pos.size();
    vector<string> w; size_t pi = 0;
    for (auto& t : tokens) { while (pi < before && R.chance(1, 3)) w.push_back(pos[pi++]); w.insert(w.end(), t.begin(), t.end()); }
    while (pi < before) w.push_back(pos[pi++]);
    if (rest) {
      w.push_back(R.flip() ? "--" : "--ignore_rest");
      while (pi < pos.size()) w.push_back(pos[pi++]);
      if (!open || mt == TString) {
        // the rest: words that look like anything; only string takers may see them
        bool ok = true; size_t cnt = 0; for (auto& d : S.args) if (is_unlabeled(d.kind) && !is_multi(d.kind)) { cnt++; if (type_of(d.kind) != TString || is_constrained(d.kind)) ok = false; }
        (void)cnt; if (ok) { int n = count(0, 4); for (int j = 0; j < n; ++j) w.push_back(word(true)); }
      }
    }
    return w;
  }
};
}
#endif
