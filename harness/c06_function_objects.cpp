// C06: function objects call exactly what was bound, once, with exactly those arguments.
#include "mon.hpp"
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/blueprints.hpp>
#include <memory>
REQUIRE_OBS("calls", 20000);
// ---- the log of what was really called
struct Call { int fn; const void* self; long a, b; bool operator==(const Call& o) const { return fn == o.fn && self == o.self && a == o.a && b == o.b; } };
static std::vector<Call> calls; static long next_result;
static long log_(int fn, const void* self, long a = 0, long b = 0) { calls.push_back(Call{fn, self, a, b}); return next_result; }
static void v0() { log_(1, 0); } static long r0() { return log_(2, 0); } static void w0() { log_(3, 0); }
static void v1(int a) { log_(4, 0, a); } static long r1(int a) { return log_(5, 0, a); } static void c1(const int& a) { log_(6, &a, a); } static long cr1(const long& a) { return log_(7, &a, a); } static void m1(int& a) { log_(8, &a, a); ++a; } static long s1(std::string s) { return log_(9, 0, s.size(), s.empty() ? 0 : s[0]); }
static long& lref() { log_(10, 0); return next_result; } static double d1(double d) { log_(11, 0, (long)(d * 1000)); return d / 2; }
struct Obj {
  long state; Obj() : state(0) {}
  void v0() { log_(21, this); ++state; } long r0() { ++state; return log_(22, this); } void v1(int a) { log_(23, this, a); state += 1; } long r1(int a) { ++state; return log_(24, this, a); } void c1(const int& a) { log_(25, this, a, (long)(size_t)&a); } long s1(std::string s) { return log_(26, this, s.size()); }
  void m1(int& a) { log_(27, this, a); a += 2; } void v2(int a, long b) { log_(28, this, a, b); } long r2(int a, long b) { return log_(29, this, a, b); } void x2(int a, int b) { log_(30, this, a, b); } virtual void vv() { log_(31, this); } virtual long vr(int a) { return log_(32, this, a); } virtual ~Obj() {}
};
struct Child : Obj { int pad; void vv() { log_(41, this); } long vr(int a) { return log_(42, this, a); } };
struct Nullary { typedef long result_type; int id; mutable long n; Nullary(int i = 0) : id(i), n(0) {} long operator()() { ++n; return log_(50, 0, id, n); } };
struct NullaryV { typedef void result_type; int id; long n; NullaryV(int i = 0) : id(i), n(0) {} void operator()() { ++n; log_(51, 0, id, n); } };
struct Unary { typedef long result_type; int id; long n; Unary(int i = 0) : id(i), n(0) {} long operator()(int a) { ++n; return log_(52, 0, a * 1000 + id, n); } };
struct UnaryV { typedef void result_type; int id; long n; UnaryV(int i = 0) : id(i), n(0) {} void operator()(int a) { ++n; log_(53, 0, a * 1000 + id, n); } };

template <class F> static void expect(const char* what, Call want, F f) {
  calls.clear(); f(); mon::obs("calls");
  if (calls.size() != 1) mon::fail("call-count", mon::cat(what, " called ", calls.size(), " functions"));
  else CHECK(calls[0] == want, "call", what, " called fn ", calls[0].fn, " on ", calls[0].self, " with ", calls[0].a, ",", calls[0].b, " want fn ", want.fn, " on ", want.self, " with ", want.a, ",", want.b);
}
#define EXPECT_CALL(what, want, expr) expect(what, want, [&] { expr; })
#define EXPECT_RESULT(what, want, expr) expect(what, want, [&] { long got = (expr); if (got != next_result) mon::fail("result", mon::cat(what, " returned ", got, " want ", next_result)); })

GROUP(free_functions, 400, 8000) {
  using namespace ecl; int a = R.range(-1000, 1000), b = R.range(-1000, 1000); long la = R.integer<long>(); next_result = R.integer<long>(); std::string s(R.below(50), 'q');
  NullaryFreeFunction<void> f0(v0), f0b(w0); EXPECT_CALL("NullaryFreeFunction<void>", (Call{1, 0, 0, 0}), f0()); EXPECT_CALL("NullaryFreeFunction<void>", (Call{3, 0, 0, 0}), f0b());
  NullaryFreeFunction<long> g0(r0); EXPECT_RESULT("NullaryFreeFunction<long>", (Call{2, 0, 0, 0}), g0());
  NullaryFreeFunction<long&> gl(lref); expect("NullaryFreeFunction<long&>", Call{10, 0, 0, 0}, [&] { CHECK(&gl() == &next_result, "result-reference", ""); });
  UnaryFreeFunction<int, void> f1(v1); EXPECT_CALL("UnaryFreeFunction<int,void>", (Call{4, 0, a, 0}), f1(a));
  UnaryFreeFunction<int, long> g1(r1); EXPECT_RESULT("UnaryFreeFunction<int,long>", (Call{5, 0, a, 0}), g1(a));
  UnaryFreeFunction<const int&, void> k1(c1); EXPECT_CALL("UnaryFreeFunction<const int&,void>", (Call{6, &a, a, 0}), k1(a));
  UnaryFreeFunction<const long&, long> kr(cr1); EXPECT_RESULT("UnaryFreeFunction<const long&,long>", (Call{7, &la, la, 0}), kr(la));
  { int x = a; UnaryFreeFunction<int&, void> mm(m1); EXPECT_CALL("UnaryFreeFunction<int&>", (Call{8, &x, a, 0}), mm(x)); CHECK(x == a + 1, "argument-by-reference", x); BoundUnaryFreeFunction<int&, void> bm(m1, x); EXPECT_CALL("BoundUnaryFreeFunction<int&>", (Call{8, &x, a + 1, 0}), bm()); CHECK(x == a + 2, "argument-by-reference", x); x = b; EXPECT_CALL("BoundUnaryFreeFunction<int&> later", (Call{8, &x, b, 0}), bm()); }
  UnaryFreeFunction<std::string, long> fs(s1); EXPECT_RESULT("UnaryFreeFunction<string>", (Call{9, 0, (long)s.size(), s.empty() ? 0 : 'q'}), fs(s));
  { int x = a; BoundUnaryFreeFunction<int, void> b1(v1, x); BoundUnaryFreeFunction<int, long> br(r1, x); x = b; EXPECT_CALL("BoundUnaryFreeFunction<int,void>", (Call{4, 0, a, 0}), b1()); EXPECT_RESULT("BoundUnaryFreeFunction<int,long>", (Call{5, 0, a, 0}), br()); EXPECT_RESULT("BoundUnaryFreeFunction again", (Call{5, 0, a, 0}), br());
    BoundUnaryFreeFunction<int, long> cp(br); EXPECT_RESULT("copy of BoundUnaryFreeFunction", (Call{5, 0, a, 0}), cp()); BoundUnaryFreeFunction<int, long> other(r1, b); other = br; EXPECT_RESULT("assigned BoundUnaryFreeFunction", (Call{5, 0, a, 0}), other()); }
  { std::unique_ptr<BoundUnaryFreeFunction<std::string, long>> p; { std::string t = s; p.reset(new BoundUnaryFreeFunction<std::string, long>(s1, t)); t = "changed"; } EXPECT_RESULT("BoundUnaryFreeFunction<string>", (Call{9, 0, (long)s.size(), s.empty() ? 0 : 'q'}), (*p)()); }
  UnaryFreeFunction<double, double> fd(d1); calls.clear(); CHECK(fd(2.5) == 1.25 && calls.size() == 1 && calls[0].a == 2500, "call", "double");
  // generators
  auto q0 = generateFunctionObject(v0); EXPECT_CALL("generate(void())", (Call{1, 0, 0, 0}), q0()); auto q0r = generateFunctionObject(r0); EXPECT_RESULT("generate(long())", (Call{2, 0, 0, 0}), q0r());
  auto q1 = generateFunctionObject(v1); EXPECT_CALL("generate(void(int))", (Call{4, 0, a, 0}), q1(a)); auto q1r = generateFunctionObject(r1); EXPECT_RESULT("generate(long(int))", (Call{5, 0, a, 0}), q1r(a));
  { int x = a; auto q2 = generateFunctionObject(v1, x); const int y = b; auto q3 = generateFunctionObject(r1, y); auto q4 = generateFunctionObject(r1, 42); x = 77777; EXPECT_CALL("generate(void(int),int&)", (Call{4, 0, a, 0}), q2()); EXPECT_RESULT("generate(long(int),const int&)", (Call{5, 0, b, 0}), q3()); EXPECT_RESULT("generate(long(int),42)", (Call{5, 0, 42, 0}), q4()); auto q5 = generateFunctionObject(m1, x); EXPECT_CALL("generate(void(int&),int&)", (Call{8, &x, 77777, 0}), q5()); CHECK(x == 77778, "argument-by-reference", x); }
  // through the interfaces
  NullaryFunction<void>* i0 = &f0; EXPECT_CALL("via NullaryFunction", (Call{1, 0, 0, 0}), (*i0)()); NullaryFunction<long>* i1 = &q0r; EXPECT_RESULT("via NullaryFunction<long>", (Call{2, 0, 0, 0}), (*i1)()); UnaryFunction<int, long>* i2 = &g1; EXPECT_RESULT("via UnaryFunction", (Call{5, 0, b, 0}), (*i2)(b));
  mon::nontrivial(mon::mix(a, b)); mon::sample(mon::cat("free functions with ", a, " ", b));
}
GROUP(member_functions, 400, 8000) {
  using namespace ecl; int a = R.range(-1000, 1000), b = R.range(-1000, 1000); long la = R.integer<long>(); next_result = R.integer<long>(); Obj objs[3]; Child child; int k = R.below(4); Obj& o = k == 3 ? child : objs[k]; Obj& o2 = objs[(k + 1) % 3]; std::string s(R.below(50), 'q');
  NullaryMemberFunction<Obj, void> n0(&Obj::v0); EXPECT_CALL("NullaryMemberFunction<void>", (Call{21, &o, 0, 0}), n0(o)); EXPECT_CALL("NullaryMemberFunction<void> other", (Call{21, &o2, 0, 0}), n0(o2));
  NullaryMemberFunction<Obj, long> nr(&Obj::r0); EXPECT_RESULT("NullaryMemberFunction<long>", (Call{22, &o, 0, 0}), nr(o));
  UnaryMemberFunction<Obj, int, void> u0(&Obj::v1); EXPECT_CALL("UnaryMemberFunction<void>", (Call{23, &o, a, 0}), u0(o, a)); UnaryMemberFunction<Obj, int, long> ur(&Obj::r1); EXPECT_RESULT("UnaryMemberFunction<long>", (Call{24, &o2, b, 0}), ur(o2, b));
  UnaryMemberFunction<Obj, const int&, void> uc(&Obj::c1); EXPECT_CALL("UnaryMemberFunction<const int&>", (Call{25, &o, a, (long)(size_t)&a}), uc(o, a));
  BoundNullaryMemberFunction<Obj, void> b0(&Obj::v0, o); EXPECT_CALL("BoundNullaryMemberFunction<void>", (Call{21, &o, 0, 0}), b0()); BoundNullaryMemberFunction<Obj, long> br(&Obj::r0, o2); EXPECT_RESULT("BoundNullaryMemberFunction<long>", (Call{22, &o2, 0, 0}), br());
  BoundNullaryMemberFunction<Obj, void> bv(&Obj::vv, o); EXPECT_CALL("bound virtual", (Call{k == 3 ? 41 : 31, &o, 0, 0}), bv());
  PartiallyBoundUnaryMemberFunction<Obj, int, void> p0(&Obj::v1, o); EXPECT_CALL("PartiallyBoundUnaryMemberFunction<void>", (Call{23, &o, a, 0}), p0(a)); EXPECT_CALL("PartiallyBoundUnaryMemberFunction<void> again", (Call{23, &o, b, 0}), p0(b));
  PartiallyBoundUnaryMemberFunction<Obj, int, long> pr(&Obj::r1, o2); EXPECT_RESULT("PartiallyBoundUnaryMemberFunction<long>", (Call{24, &o2, a, 0}), pr(a));
  { int x = a; BoundUnaryMemberFunction<Obj, int, void> q0(&Obj::v1, o, x); BoundUnaryMemberFunction<Obj, int, long> qr(&Obj::r1, o, x); x = b; EXPECT_CALL("BoundUnaryMemberFunction<void>", (Call{23, &o, a, 0}), q0()); EXPECT_RESULT("BoundUnaryMemberFunction<long>", (Call{24, &o, a, 0}), qr()); BoundUnaryMemberFunction<Obj, int, long> cp(qr); EXPECT_RESULT("copy of BoundUnaryMemberFunction", (Call{24, &o, a, 0}), cp()); BoundUnaryMemberFunction<Obj, int&, void> qm(&Obj::m1, o, x); EXPECT_CALL("BoundUnaryMemberFunction<int&>", (Call{27, &o, b, 0}), qm()); CHECK(x == b + 2, "argument-by-reference", x); }
  { std::unique_ptr<BoundUnaryMemberFunction<Obj, std::string, long>> p; { std::string t = s; p.reset(new BoundUnaryMemberFunction<Obj, std::string, long>(&Obj::s1, o, t)); t = "changed"; } EXPECT_RESULT("BoundUnaryMemberFunction<string>", (Call{26, &o, (long)s.size(), 0}), (*p)()); }
  PartiallyBoundBinaryMemberFunction<Obj, int, long, void> t0(&Obj::v2, o); EXPECT_CALL("PartiallyBoundBinaryMemberFunction<void>", (Call{28, &o, a, la}), t0(a, la)); PartiallyBoundBinaryMemberFunction<Obj, int, long, long> tr(&Obj::r2, o2); EXPECT_RESULT("PartiallyBoundBinaryMemberFunction<long>", (Call{29, &o2, b, la}), tr(b, la)); PartiallyBoundBinaryMemberFunction<Obj, int, int, void> tx(&Obj::x2, o); EXPECT_CALL("PartiallyBoundBinaryMemberFunction<int,int>", (Call{30, &o, a, b}), tx(a, b));
  // generators
  auto g0 = generateFunctionObject(&Obj::v0); EXPECT_CALL("generate(member)", (Call{21, &o, 0, 0}), g0(o)); auto g1 = generateFunctionObject(&Obj::r0, o); EXPECT_RESULT("generate(member,instance)", (Call{22, &o, 0, 0}), g1()); auto g2 = generateFunctionObject(&Obj::v1); EXPECT_CALL("generate(unary member)", (Call{23, &o2, a, 0}), g2(o2, a)); auto g3 = generateFunctionObject(&Obj::r1, o); EXPECT_RESULT("generate(unary member,instance)", (Call{24, &o, b, 0}), g3(b));
  { int x = a; const int y = b; auto g4 = generateFunctionObject(&Obj::v1, o, x); auto g5 = generateFunctionObject(&Obj::r1, o2, y); auto g6 = generateFunctionObject(&Obj::vr, o, 9); x = 5; EXPECT_CALL("generate(unary member,instance,int&)", (Call{23, &o, a, 0}), g4()); EXPECT_RESULT("generate(unary member,instance,const int&)", (Call{24, &o2, b, 0}), g5()); EXPECT_RESULT("generate(virtual member,instance,9)", (Call{k == 3 ? 42 : 32, &o, 9, 0}), g6()); }
  NullaryFunction<void>* i0 = &b0; EXPECT_CALL("via NullaryFunction", (Call{21, &o, 0, 0}), (*i0)()); UnaryFunction<int, long>* i1 = &pr; EXPECT_RESULT("via UnaryFunction", (Call{24, &o2, a, 0}), (*i1)(a)); BinaryFunction<int, long, long>* i2 = &tr; EXPECT_RESULT("via BinaryFunction", (Call{29, &o2, a, la}), (*i2)(a, la)); BinaryFunction<Obj&, int, long>* i3 = &ur; EXPECT_RESULT("via BinaryFunction", (Call{24, &o, a, 0}), (*i3)(o, a));
  mon::nontrivial(mon::mix(mon::mix(a, b), k)); mon::sample(mon::cat("member functions on object ", k, " with ", a, " ", b));
}
struct Shape { double w, h; int tag; Shape() : w(0), h(0), tag(0) {} };
struct ShapePlan : ecl::BluePrint<ShapePlan> { typedef Shape base_type; double w, h; ShapePlan(double a = 0, double b = 0) : w(a), h(b) {} Shape instantiate() { Shape s; apply(s); return s; } void apply(Shape& s) const { s.w = w; s.h = h; s.tag++; } };
GROUP(functors, 300, 6000) {
  using namespace ecl; int id = R.range(0, 99), a = R.range(-50, 50); next_result = R.integer<long>(); long k = R.range(0, 4), base = calls.size(); (void)base;
  { Nullary f(id); for (int i = 0; i < k; ++i) f(); NullaryFunctionCopy<Nullary, long> c(f); EXPECT_RESULT("NullaryFunctionCopy", (Call{50, 0, id, k + 1}), c()); EXPECT_RESULT("NullaryFunctionCopy again", (Call{50, 0, id, k + 2}), c()); CHECK(f.n == k, "copy-acted-on-original", f.n); f(); EXPECT_RESULT("NullaryFunctionCopy after", (Call{50, 0, id, k + 3}), c());
    NullaryFunctionCopy<Nullary, long> d(c); EXPECT_RESULT("copied NullaryFunctionCopy", (Call{50, 0, id, k + 4}), d()); EXPECT_RESULT("original of the copy", (Call{50, 0, id, k + 4}), c()); }
  { NullaryV f(id); NullaryFunctionCopy<NullaryV, void> c(f); EXPECT_CALL("NullaryFunctionCopy<void>", (Call{51, 0, id, 1}), c()); CHECK(f.n == 0, "copy-acted-on-original", f.n); NullaryFunctionReference<NullaryV, void> r(ref(f)); EXPECT_CALL("NullaryFunctionReference<void>", (Call{51, 0, id, 1}), r()); EXPECT_CALL("NullaryFunctionReference<void> again", (Call{51, 0, id, 2}), r()); CHECK(f.n == 2, "reference-did-not-act-on-original", f.n); f.id = id + 1; NullaryFunctionReference<NullaryV, void> r2(r); EXPECT_CALL("copied NullaryFunctionReference", (Call{51, 0, id + 1, 3}), r2()); }
  { Nullary f(id); NullaryFunctionReference<Nullary, long> r(ref(f)); EXPECT_RESULT("NullaryFunctionReference", (Call{50, 0, id, 1}), r()); CHECK(f.n == 1, "reference-did-not-act-on-original", f.n); }
  { Unary f(id); UnaryFunctionCopy<Unary, int, long> c(f); EXPECT_RESULT("UnaryFunctionCopy", (Call{52, 0, a * 1000 + id, 1}), c(a)); CHECK(f.n == 0, "copy-acted-on-original", f.n); UnaryFunctionReference<Unary, int, long> r(ref(f)); EXPECT_RESULT("UnaryFunctionReference", (Call{52, 0, a * 1000 + id, 1}), r(a)); CHECK(f.n == 1, "reference-did-not-act-on-original", f.n); }
  { UnaryV f(id); UnaryFunctionCopy<UnaryV, int, void> c(f); EXPECT_CALL("UnaryFunctionCopy<void>", (Call{53, 0, a * 1000 + id, 1}), c(a)); CHECK(f.n == 0, "copy-acted-on-original", f.n); UnaryFunctionReference<ReferenceWrapper<UnaryV>, int, void> r(ref(f)); EXPECT_CALL("UnaryFunctionReference<void>", (Call{53, 0, a * 1000 + id, 1}), r(a)); EXPECT_CALL("UnaryFunctionReference<void>", (Call{53, 0, a * 1000 + id, 2}), r(a)); CHECK(f.n == 2, "reference-did-not-act-on-original", f.n); }
  { double w = R.uniform(-9, 9), h = R.uniform(-9, 9); ShapePlan p(w, h); BluePrint<ShapePlan>& bp = p; Shape s = bp.implementInstantiate<Shape>(); CHECK(s.w == w && s.h == h && s.tag == 1, "blueprint-instantiate", s.tag); Shape t; t.tag = 5; const BluePrint<ShapePlan>& cb = p; cb.implementApply(t); CHECK(t.w == w && t.h == h && t.tag == 6, "blueprint-apply", t.tag); mon::obs("calls", 2); }
  mon::nontrivial(mon::mix(id, a * 8 + k)); mon::sample(mon::cat("functors ", id, " ", a, " ", k));
}
