// C08: type traits and metaprogramming tools state the truth about every type; concept checks accept exactly the models.
#include "mon.hpp"
#include <ecl/type_traits.hpp>
#include <ecl/mpl.hpp>
#include <ecl/concepts.hpp>
#include <climits>
#include <cfloat>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
REQUIRE_OBS("types audited", 20); REQUIRE_OBS("models accepted by a concept", 15, 200); REQUIRE_OBS("impostors refused by a concept", 25, 400);
struct Klass {}; enum En { e1 }; union Un { int a; };
// the value as the library hands it out at run time, and as a constant expression
template <class T> static void limits(const char* t, T lo, T hi) {
  typedef ecl::numeric_limits<T> L; typedef std::numeric_limits<T> S; mon::note(t);
  int bits = L::bits, bytes = L::bytes; CHECK(bytes == (int)sizeof(T), "bytes", t, " ", bytes); CHECK(bits == (int)sizeof(T) * 8, "bits", t, " ", bits);
  T mn = L::minimum, mx = L::maximum; CHECK(mn == lo && mn == S::lowest(), "minimum", t, " ", mon::cat(+mn)); CHECK(mx == hi && mx == S::max(), "maximum", t, " ", mon::cat(+mx));
  CHECK(L::is_integer == S::is_integer && L::is_signed == S::is_signed && L::is_exact == S::is_exact && L::digits == S::digits && L::digits10 == S::digits10 && L::max() == S::max() && L::min() == S::min() && L::epsilon() == S::epsilon(), "standard-limits", t);
  CHECK(mn <= mx && (T)(mx - 1) <= mx, "order", t); double p = L::dummy_precision; CHECK(p >= 0 && p < 1e-3, "dummy-precision", t, " ", p); mon::obs("types audited");
}
template <class T> static void one(const char* t) { T o = ecl::numeric_limits<T>::one; CHECK(o == (T)1, "one", t, " ", +o); CHECK((std::is_same<typename ecl::numeric_limits<T>::Precision, float>::value), "precision-type", t); }
template <class T> static void kinds(const char* t, bool integral, bool sgn, bool unsgn, bool flt, bool byte, bool sbyte, bool ubyte) {
  bool v[7] = {ecl::is_integral<T>::value, ecl::is_signed<T>::value, ecl::is_unsigned<T>::value, ecl::is_float<T>::value, ecl::is_byte<T>::value, ecl::is_signed_byte<T>::value, ecl::is_unsigned_byte<T>::value}, w[7] = {integral, sgn, unsgn, flt, byte, sbyte, ubyte};
  bool o[7] = {ecl::is_integral<T>(), ecl::is_signed<T>(), ecl::is_unsigned<T>(), ecl::is_float<T>(), ecl::is_byte<T>(), ecl::is_signed_byte<T>(), ecl::is_unsigned_byte<T>()};
  const char* n[7] = {"is_integral", "is_signed", "is_unsigned", "is_float", "is_byte", "is_signed_byte", "is_unsigned_byte"};
  for (int i = 0; i < 7; ++i) { CHECK(v[i] == w[i], n[i], t, " gives ", v[i]); CHECK(o[i] == v[i], "object-agrees-with-value", n[i], " ", t); } mon::obs("types audited");
}
template <class T> static void not_fundamental(const char* t) { kinds<T>(t, false, false, false, false, false, false, false); }
// as a user selects overloads
template <class T> static int pick(typename ecl::enable_if<ecl::is_integral<T> >::type* = 0) { return 1; }
template <class T> static int pick(typename ecl::enable_if<ecl::is_float<T> >::type* = 0) { return 2; }
template <class T> static int pick(typename ecl::enable_if_c<!ecl::is_float<T>::value && !ecl::is_integral<T>::value>::type* = 0) { return 3; }
template <class C> static char has_type(typename C::type*); template <class C> static long has_type(...);
template <class T> static char has_unsigned(typename ecl::Unsigned<T>::type*); template <class T> static long has_unsigned(...);
template <class T> static void select(const char* t) {
  int want = ecl::is_integral<T>::value ? 1 : ecl::is_float<T>::value ? 2 : 3; CHECK(pick<T>() == want, "overload-selection", t, " took ", pick<T>());
  CHECK((std::is_same<typename ecl::enable_if<ecl::True, T>::type, T>::value) && (std::is_same<typename ecl::enable_if_c<true, T>::type, T>::value), "enable-if-type", t);
  CHECK(sizeof(has_type<ecl::enable_if<ecl::False, T> >(0)) == sizeof(long) && sizeof(has_type<ecl::enable_if_c<false, T> >(0)) == sizeof(long), "enable-if-false-has-type", t);
  CHECK((std::is_same<typename ecl::if_c<true, T, Klass*>::type, T>::value) && (std::is_same<typename ecl::if_c<false, T, Klass*>::type, Klass*>::value) && (std::is_same<typename ecl::if_c<false, Klass*, T>::type, T>::value) && (std::is_same<typename ecl::if_c<true, Klass*, T>::type, Klass*>::value) && (std::is_same<typename ecl::if_c<true, T, T>::type, T>::value), "if-c", t); mon::obs("types audited");
}
template <class T, class U> static void unsign(const char* t) { CHECK((std::is_same<typename ecl::Unsigned<T>::type, U>::value), "unsigned-of", t); CHECK(sizeof(typename ecl::Unsigned<T>::type) == sizeof(T), "unsigned-of-size", t); }
template <bool A, bool B> static void bools() {
  ecl::Bool<A> a; ecl::Bool<B> b; CHECK(a == A && (bool)a == A && ecl::Bool<A>::value == A && (std::is_same<typename ecl::Bool<A>::type, ecl::Bool<A> >::value) && (std::is_same<typename ecl::Bool<A>::value_type, bool>::value), "bool", A);
  CHECK((a && b) == (A && B) && (a || b) == (A || B) && (!a) == !A, "bool-composition", A, " ", B); CHECK((std::is_same<ecl::Bool<A>, ecl::Bool<B> >::value) == (A == B), "bool-identity", A, B);
  bool c = ecl::Bool<(ecl::Bool<A>::value && ecl::Bool<B>::value)>::value, d = ecl::Bool<(A || B)>(); CHECK(c == (A && B) && d == (A || B), "bool-of-expression", A, B); mon::obs("types audited");
}
#define ALLTYPES(M) M(char) M(signed char) M(unsigned char) M(short) M(unsigned short) M(int) M(unsigned int) M(long) M(unsigned long) M(long long) M(unsigned long long) M(float) M(double) M(long double) M(Klass) M(En) M(Un) M(int*) M(void*) M(std::string) M(const char*)
GROUP(fundamental, 1, 1) {
  limits<char>("char", CHAR_MIN, CHAR_MAX); limits<unsigned char>("unsigned char", 0, UCHAR_MAX); limits<short>("short", SHRT_MIN, SHRT_MAX); limits<unsigned short>("unsigned short", 0, USHRT_MAX); limits<int>("int", INT_MIN, INT_MAX); limits<unsigned>("unsigned", 0, UINT_MAX); limits<long>("long", LONG_MIN, LONG_MAX); limits<unsigned long>("unsigned long", 0, ULONG_MAX); limits<long long>("long long", LLONG_MIN, LLONG_MAX); limits<unsigned long long>("unsigned long long", 0, ULLONG_MAX);
  limits<float>("float", -FLT_MAX, FLT_MAX); limits<double>("double", -DBL_MAX, DBL_MAX); limits<long double>("long double", -LDBL_MAX, LDBL_MAX);
  one<char>("char"); one<unsigned char>("unsigned char"); one<short>("short"); one<unsigned short>("unsigned short"); one<int>("int"); one<unsigned>("unsigned"); one<long>("long"); one<unsigned long>("unsigned long"); one<long long>("long long"); one<unsigned long long>("unsigned long long");
  CHECK((std::is_same<ecl::numeric_limits<double>::Precision, double>::value) && (std::is_same<ecl::numeric_limits<long double>::Precision, long double>::value), "precision-type", "double");
  CHECK(ecl::numeric_limits<double>::dummy_precision >= DBL_EPSILON && ecl::numeric_limits<float>::dummy_precision >= FLT_EPSILON && ecl::numeric_limits<long double>::dummy_precision >= LDBL_EPSILON, "dummy-precision", "floating types");
  bool cs = std::numeric_limits<char>::is_signed;
  kinds<char>("char", 1, 1, 0, 0, 1, cs, !cs); kinds<unsigned char>("unsigned char", 1, 0, 1, 0, 1, 0, 1); kinds<short>("short", 1, 1, 0, 0, 0, 0, 0); kinds<unsigned short>("unsigned short", 1, 0, 1, 0, 0, 0, 0); kinds<int>("int", 1, 1, 0, 0, 0, 0, 0); kinds<unsigned>("unsigned", 1, 0, 1, 0, 0, 0, 0); kinds<long>("long", 1, 1, 0, 0, 0, 0, 0); kinds<unsigned long>("unsigned long", 1, 0, 1, 0, 0, 0, 0); kinds<long long>("long long", 1, 1, 0, 0, 0, 0, 0); kinds<unsigned long long>("unsigned long long", 1, 0, 1, 0, 0, 0, 0);
  kinds<float>("float", 0, 0, 0, 1, 0, 0, 0); kinds<double>("double", 0, 0, 0, 1, 0, 0, 0); kinds<long double>("long double", 0, 0, 0, 1, 0, 0, 0);
  CHECK(ecl::is_byte<signed char>::value && ecl::is_signed_byte<signed char>::value && !ecl::is_unsigned_byte<signed char>::value && !ecl::is_float<signed char>::value && !ecl::is_unsigned<signed char>::value, "signed-char", "");
  not_fundamental<Klass>("class"); not_fundamental<En>("enum"); not_fundamental<Un>("union"); not_fundamental<int*>("int*"); not_fundamental<char*>("char*"); not_fundamental<std::string>("string"); not_fundamental<std::vector<int> >("vector<int>"); not_fundamental<float*>("float*"); not_fundamental<int[3]>("int[3]"); not_fundamental<void>("void");
  unsign<char, unsigned char>("char"); unsign<short, unsigned short>("short"); unsign<int, unsigned>("int"); unsign<long, unsigned long>("long"); unsign<long long, unsigned long long>("long long"); unsign<unsigned char, unsigned char>("unsigned char"); unsign<unsigned short, unsigned short>("unsigned short"); unsign<unsigned, unsigned>("unsigned"); unsign<unsigned long, unsigned long>("unsigned long"); unsign<unsigned long long, unsigned long long>("unsigned long long");
  CHECK(sizeof(has_unsigned<float>(0)) == sizeof(long) && sizeof(has_unsigned<Klass>(0)) == sizeof(long) && sizeof(has_unsigned<int*>(0)) == sizeof(long) && sizeof(has_unsigned<int>(0)) == 1, "unsigned-of-nothing", "float or class");
#define S_(T) select<T>(#T);
  ALLTYPES(S_)
  bools<false, false>(); bools<false, true>(); bools<true, false>(); bools<true, true>(); CHECK((std::is_same<ecl::True, ecl::Bool<true> >::value) && (std::is_same<ecl::False, ecl::Bool<false> >::value), "true-false", "");
  CHECK((std::is_base_of<ecl::True, ecl::is_integral<int> >::value) && (std::is_base_of<ecl::False, ecl::is_integral<float> >::value), "trait-base", "");
  mon::nontrivial(1); mon::sample("every fundamental type");
}
// ---- concept checks: the compiler, run on the real concept headers with generated candidate types
struct Req { const char* good; std::vector<const char*> bad; }; // a member, and what may stand in its place to stop it modelling
struct Con { const char* name; const char* pre; std::vector<Req> reqs; };
static const std::vector<Con>& concepts() {
  static const std::vector<Con> C = [] {
    std::vector<Con> c; const char* V = "#include <vector>\n#include <string>\n";
    Req it{"typedef T* iterator;", {""}}, val{"typedef T value_type;", {""}}, b{"iterator begin() { return 0; }", {"", "void begin() {}", "iterator begin(int) { return 0; }"}}, e{"iterator end() { return 0; }", {"", "Nope end() { return Nope(); }"}}, n{"unsigned int size() const { return 0; }", {"", "Nope size() { return Nope(); }", "void size() {}"}}, rs{"void resize(unsigned int) {}", {"", "void resize() {}", "void resize(Nope) {}"}};
    c.push_back({"ContainerConcept", V, {it, b, e, n}}); c.push_back({"DynamicContainerConcept", V, {it, b, e, n, rs}});
    Req priv{"public:", {"private:"}};
    c.push_back({"NullaryFunctionConcept", V, {{"typedef void result_type;", {"", "int result_type;"}}, {"void operator()() {}", {"", "void operator()(int) {}"}}}});
    c.push_back({"StreamConcept", V, {{"M& operator<<(char) { return *this; }", {"", "M& operator<<(Nope) { return *this; }"}}, {"void flush() {}", {"", "void flush(int) {}"}}}});
    c.push_back({"BluePrintConcept", V, {{"typedef std::string base_type;", {"", "int base_type;"}}, {"std::string instantiate() { return std::string(); }", {"", "Nope instantiate() { return Nope(); }", "std::string instantiate(int) { return std::string(); }"}}, {"void apply(std::string&) {}", {"", "void apply(Nope&) {}", "void apply() {}"}}}});
    Req op{"bool open() { return true; }", {"", "Nope open() { return Nope(); }"}}, io{"bool isOpen() { return true; }", {"", "Nope isOpen() { return Nope(); }"}}, fl{"void flush() {}", {"", "void flush(int) {}"}};
    Req r1{"long read(char&) { return 0; }", {"", "Nope read(char&) { return Nope(); }"}}, r2{"long read(char*, unsigned long) { return 0; }", {"", "long read(char*) { return 0; }"}}, w1{"long write(char) { return 0; }", {"", "Nope write(char) { return Nope(); }"}}, w2{"long write(const char*, unsigned long) { return 0; }", {"", "Nope write(const char*, unsigned long) { return Nope(); }"}};
    c.push_back({"InputCharDeviceConcept", V, {op, r1, r2}}); c.push_back({"OutputCharDeviceConcept", V, {op, w1, w2, fl}}); c.push_back({"InputOutputCharDeviceConcept", V, {r1, r2, w1, w2, fl}});
    Req rb1{"template <class B> long read(B&) { return 0; }", {"", "long read(char&) { return 0; }", "long read(signed char&) { return 0; } long read(char&) { return 0; }", "long read(unsigned char&) { return 0; } long read(char&) { return 0; }"}}, rb2{"template <class B> long read(B*, unsigned long) { return 0; }", {"", "long read(char*, unsigned long) { return 0; }", "long read(unsigned char*, unsigned long) { return 0; } long read(char*, unsigned long) { return 0; }", "long read(signed char*, unsigned long) { return 0; } long read(char*, unsigned long) { return 0; }"}};
    Req wb1{"template <class B> long write(B) { return 0; }", {"", "Nope write(char) { return Nope(); }"}}, wb2{"template <class B> long write(const B*, unsigned long) { return 0; }", {"", "long write(const char*, unsigned long) { return 0; }", "long write(const unsigned char*, unsigned long) { return 0; } long write(const char*, unsigned long) { return 0; }", "long write(const signed char*, unsigned long) { return 0; } long write(const char*, unsigned long) { return 0; }"}};
    c.push_back({"InputByteDeviceConcept", V, {io, rb1, rb2}}); c.push_back({"OutputByteDeviceConcept", V, {io, wb1, wb2, fl}}); c.push_back({"InputOutputByteDeviceConcept", V, {io, rb1, rb2, wb1, wb2, fl}});
    return c;
  }();
  return C;
}
static int compile(const std::string& src, std::string& err) {
  std::string f = mon::cat(mon::scratch(), "/probe", mon::current_case, mon::current_group, ".cpp"), log = f + ".log"; { std::ofstream o(f.c_str()); o << src; }
  pid_t p = fork(); if (p == 0) {
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); std::string a[] = {"g++", "-std=c++14", "-fsyntax-only", "-w", "-I" VERIF_REPO_DIR "/ecl_concepts/include", "-I" VERIF_REPO_DIR "/ecl_type_traits/include", "-I" VERIF_REPO_DIR "/ecl_mpl/include", "-I" VERIF_HARNESS_DIR "/../shims", f};
    std::vector<char*> v; for (auto& s : a) v.push_back((char*)s.c_str()); v.push_back(0); unsetenv("LD_PRELOAD"); execvp("g++", v.data()); _exit(126); }
  int st = 0; waitpid(p, &st, 0); std::ifstream i(log.c_str()); std::ostringstream o; o << i.rdbuf(); err = o.str().substr(0, 500); unlink(f.c_str()); unlink(log.c_str());
  if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) mon::harness_error("the compiler did not run: " + err); return WEXITSTATUS(st);
}
static std::string candidate(const Con& c, const std::vector<std::string>& members, const std::string& t, bool use = true) {
  std::string s = "#include <ecl/concepts.hpp>\n"; s += c.pre; s += "struct Nope {};\ntypedef " + t + " T;\nclass M { public:\n"; for (auto& m : members) s += m + "\n"; s += "};\n";
  s += use ? std::string("void f() { ecl_compile_time_concept_check(ecl::") + c.name + "<M>); }\n" : std::string("void f() { M m; (void)m; }\n"); return s;
}
static void probe(const Con& c, const std::string& src, bool models, const std::string& what) {
  std::string err; mon::note(what); int rc = compile(src, err); bool ok = rc == 0;
  if (models) { CHECK(ok, "model-refused", what, ": ", err); mon::obs("models accepted by a concept"); } else { CHECK(!ok, "impostor-accepted", what); mon::obs("impostors refused by a concept"); }
  mon::nontrivial(mon::hash(src)); mon::sample(what);
}
static const char* element(mon::Rng& R) { static const char* t[] = {"int", "double", "std::string", "char", "float*"}; return t[R.below(5)]; }
GROUP(models, 22, 300) { // every requirement met, in any order, with members of no concern in between
  const Con& c = concepts()[mon::current_case % concepts().size()]; std::vector<std::string> m; for (auto& r : c.reqs) m.push_back(r.good);
  if (R.flip()) m.push_back("int unrelated; void other(int) {}"); if (R.chance(1, 3)) m.push_back("virtual ~M() {}");
  probe(c, candidate(c, m, element(R)), true, mon::cat(c.name, ": model ", mon::current_case)); }
GROUP(impostors, 64, 600) { // exactly one requirement missing or of the wrong shape
  const Con& c = concepts()[mon::current_case % concepts().size()]; size_t k = (mon::current_case / concepts().size()) % c.reqs.size(); std::vector<std::string> m; std::string bad;
  const Req& q = c.reqs[k]; bad = q.bad[mon::thorough ? R.below(q.bad.size()) : (mon::seed + mon::current_case / concepts().size() / c.reqs.size()) % q.bad.size()];
  for (size_t i = 0; i < c.reqs.size(); ++i) m.push_back(i == k ? bad : std::string(c.reqs[i].good));
  std::string src = candidate(c, m, "int"); 
  std::string alone = candidate(c, m, "int", false), err; bool sound = true; for (size_t i = 0; i < c.reqs.size(); ++i) (void)i;
  if (bad.empty() && std::string(q.good) == "typedef T* iterator;") sound = compile(alone, err) == 0; // only then is the missing typedef the concept's business
  if (sound) probe(c, src, false, mon::cat(c.name, ": without \"", q.good, "\"", bad.empty() ? "" : mon::cat(" but \"", bad, "\"")));
}
GROUP(byte_containers, 39, 120) { // element types against the byte container concepts
  static const char* types[] = {"char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "bool", "float", "double", "char*", "std::string"}; static const char* cons[] = {"ByteContainerConcept", "SignedByteContainerConcept", "UnsignedByteContainerConcept"};
  int t = mon::current_case % 13, k = (mon::current_case / 13) % 3; bool cs = std::numeric_limits<char>::is_signed; bool want = k == 0 ? t < 3 : k == 1 ? (t == 1 || (t == 0 && cs)) : (t == 2 || (t == 0 && !cs));
  Con c = {cons[k], "#include <vector>\n#include <string>\n", {}}; std::vector<std::string> m = {"typedef T value_type;", "typedef T* iterator;", "iterator begin() { return 0; }", "iterator end() { return 0; }", "unsigned int size() const { return 0; }"}; if (mon::current_case >= 39) m.push_back("typedef const T* const_iterator; void push_back(T) {}");
  probe(c, candidate(c, m, types[t]), want, mon::cat(cons[k], " of ", types[t])); }
