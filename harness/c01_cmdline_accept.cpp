// C01: admissible command lines yield exactly what was declared and supplied.
#include "cmdline_model.hpp"
using namespace cl;
REQUIRE_OBS("accepted", 1200, 10000);
REQUIRE_OBS("values delivered", 3000, 30000);
REQUIRE_OBS("combined switches", 150);
REQUIRE_OBS("ignore rest", 60);

static void judge(const Spec& S, const vector<string>& w, bool must_accept) {
  mon::note(describe(S, w));
  Reference ref(S); Outcome o = ref.run(w);
  if (must_accept && o.code == 1 && !ref.amb) mon::harness_error("generator made an inadmissible line: " + o.why + " " + describe(S, w));
  if (o.code != 0 || ref.amb) { mon::obs("not an accepted line"); return; }
  Parsed p = run_real(S, w);
  crash_check(S, w, p.c);
  if (p.c.code == 77 || p.c.signalled || p.c.code == 88) return;
  if (!p.accepted) { mon::fail("refused", describe(S, w) + mon::cat(" => exit ", p.c.code, " ", p.c.err.substr(0, 300))); return; }
  mon::obs("accepted");
  CHECK(p.prog == S.prog, "program-name", p.prog);
  uint64_t h = mon::hash(describe(S, w));
  for (size_t k = 0; k < S.args.size(); ++k) {
    if (!(p.vals[k].set == o.vals[k].set)) mon::fail("isSet", describe(S, w) + " => " + S.args[k].name + " got " + vals_text(S, p.vals) + " want " + vals_text(S, o.vals));
    if (!(p.vals[k].v == o.vals[k].v)) mon::fail(o.vals[k].set ? "value" : "default", describe(S, w) + " => " + S.args[k].name + " got " + vals_text(S, p.vals) + " want " + vals_text(S, o.vals));
    if (o.vals[k].set) mon::obs("values delivered", o.vals[k].v.size());
  }
  for (auto& x : w) { if (x.size() > 2 && x[0] == '-' && x[1] != '-') mon::obs("combined switches"); if (x == "--" || x == "--ignore_rest") mon::obs("ignore rest"); }
  if (!w.empty()) { mon::nontrivial(h); mon::sample(describe(S, w)); }
}
GROUP(constructed, 4000, 40000) {
  Gen g(R); g.spec(mon::thorough ? 9 : 7, true);
  judge(g.S, g.admissible(), true);
}
// lines assembled from the declared labels and odd words, kept when the reference admits them
GROUP(assembled, 6000, 60000) {
  Gen g(R); g.spec(4, true);
  for (int tries = 0; tries < 30; ++tries) {
    vector<string> w; int n = R.range(1, 6);
    for (int i = 0; i < n; ++i) {
      if (!g.S.args.empty() && R.chance(2, 3)) {
        const Decl& d = g.S.args[R.below(g.S.args.size())]; string l = is_unlabeled(d.kind) ? g.good(d, true) : g.label(d);
        if (takes_value(d.kind)) { if (g.S.delim == ' ') { w.push_back(l); l = g.good(d, true); } else l += string(1, g.S.delim) + g.good(d, true); }
        w.push_back(l);
      } else w.push_back(g.word(true));
    }
    Reference ref(g.S); if (ref.run(w).code != 0 || ref.amb) continue;
    judge(g.S, w, false); return;
  }
}
// hundreds of values, words of thousands of letters, dozens of arguments
REQUIRE_OBS("long lines", 90);
GROUP(long_lines, 300, 6000) { Gen g(R); g.great = true; g.spec(R.chance(1, 3) ? 60 : 6, true); vector<string> w = g.admissible(); if (w.size() > 127) mon::obs("long lines"); judge(g.S, w, true); }
