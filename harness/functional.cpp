// Comparers, functors, binders, visitors, casts and dispatch by type or tag.
#include "threads.h"
#include <stingraykit/collection/CollectionOpVariant.h>
#include <stingraykit/compare/CollectionComparer.h>
#include <stingraykit/compare/Comparable.h>
#include <stingraykit/compare/MemberListComparer.h>
#include <stingraykit/Creators.h>
#include <stingraykit/dynamic_caster.h>
#include <stingraykit/function/bind.h>
#include <stingraykit/function/functional.h>
#include <stingraykit/function/PackArguments.h>
#include <stingraykit/GenericEntityFactory.h>
#include <stingraykit/IVisitor.h>
#include <stingraykit/lazy.h>
#include <stingraykit/VariantMultidispatch.h>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
using namespace stingray;

static int sgn(int c) { return (c > 0) - (c < 0); }
static int cmp(long long a, long long b) { return (a > b) - (a < b); }

// ---- comparers agree with each other and with the order of the values
template < typename C_, typename L_, typename E_, typename G_, typename A_, typename B_ > static void Agree(const C_& c, const L_& l, const E_& e, const G_& g, const A_& a, const B_& b, int want)
{
	SX_ASSERT(sgn(c(a, b)) == want, "three-way comparison"); SX_ASSERT(l(a, b) == (want < 0), "less"); SX_ASSERT(e(a, b) == (want == 0), "equal"); SX_ASSERT(g(a, b) == (want > 0), "greater");
}
namespace
{
	struct OwnCmp { int v; explicit OwnCmp(int v_) : v(v_) { } int Compare(const OwnCmp& o) const { return v < o.v ? -7 : v > o.v ? 5 : 0; } int Compare(int o) const { return v < o ? -2 : v > o ? 3 : 0; } };
	struct OnlyLess { u8 v; bool operator < (const OnlyLess& o) const { return v < o.v; } };
	using comparers::Cmp; using comparers::Less; using comparers::Equals; using comparers::Greater;
}
SX_ENTRY(compare_values)
{
	const int a = sx_s32("a"), b = sx_s32("b"); Agree(Cmp(), Less(), Equals(), Greater(), a, b, cmp(a, b)); Agree(Cmp(), Less(), Equals(), Greater(), OwnCmp(a), OwnCmp(b), cmp(a, b)); Agree(Cmp(), Less(), Equals(), Greater(), OwnCmp(a), b, cmp(a, b));
	{ const OwnCmp x(a); Agree(Cmp(), Less(), Equals(), Greater(), x, x, 0); }
	typedef comparers::LessToCmp<Less> LC; typedef comparers::LessToEquals<Less> LE; Agree(LC(), comparers::CmpToLess<LC>(), LE(), comparers::CmpToGreater<LC>(), a, b, cmp(a, b)); Agree(Cmp(), comparers::CmpToLess<Cmp>(), comparers::CmpToEquals<Cmp>(), comparers::CmpToGreater<Cmp>(), OwnCmp(a), OwnCmp(b), cmp(a, b));
	typedef comparers::LessToCmp<Greater> GC; SX_ASSERT(sgn(GC()(a, b)) == -cmp(a, b), "a reversed order"); const OnlyLess x = { sx_u8("x") }, y = { sx_u8("y") }; SX_ASSERT(sgn(Cmp()(x, y)) == cmp(x.v, y.v) && Less()(x, y) == (x.v < y.v) && Greater()(x, y) == (x.v > y.v) && LE()(x, y) == (x.v == y.v), "comparison made of less"); sx_reach("values");
}
SX_ENTRY(compare_pointers)
{
	// null is less than anything, others compare by what they point to, owners and pointers by identity
	typedef shared_ptr<u8> P; const int ka = sx_choose("a", 3), kb = sx_choose("b", 3); const P one = make_shared_ptr<u8>(sx_u8("x")), two = make_shared_ptr<u8>(sx_u8("y")); const P a = ka == 0 ? P() : ka == 1 ? one : two, b = kb == 0 ? P() : kb == 1 ? one : two;
	const int want = !a || !b ? cmp(!!a, !!b) : cmp(*a, *b); Agree(Cmp(), Less(), Equals(), Greater(), a, b, want); { const shared_ptr<const u8> c = b; Agree(Cmp(), Less(), Equals(), Greater(), a, c, want); }
	SX_ASSERT(PointerEquals()(a, b) == (ka == kb) && (PointerCmp()(a, b) == 0) == (ka == kb) && PointerLess()(a, b) == PointerGreater()(b, a) && (PointerLess()(a, b) || PointerLess()(b, a)) == (ka != kb), "comparison of pointers"); SX_ASSERT(OwnerEquals()(a, b) == (ka == kb) && sgn(OwnerCmp()(a, b)) == -sgn(OwnerCmp()(b, a)) && OwnerLess()(a, b) == OwnerGreater()(b, a), "comparison of owners"); const weak_ptr<u8> w = a; SX_ASSERT(OwnerEquals()(w, b) == (ka == kb), "owner of a weak pointer"); sx_reach("pointers");
}
namespace
{
	struct Rec { u8 a; s16 b; shared_ptr<u8> p; s8 Neg() const { return -(s8)(a & 15); } };
	int recCmp(const Rec& x, const Rec& y) { if (int c = cmp(x.a >> 4, y.a >> 4)) return c; if (int c = cmp(y.a & 15, x.a & 15)) return c; if (int c = cmp(x.b, y.b)) return c; return !x.p || !y.p ? cmp(!!x.p, !!y.p) : cmp(*x.p, *y.p); }
	struct High : public comparers::CmpComparerBase<High> { int DoCompare(u8 l, u8 r) const { return cmp(l >> 4, r >> 4); } };
	Rec anyRec(const char* n) { Rec r = { sx_u8(n), (s16)sx_u16(n), shared_ptr<u8>() }; if (sx_choose("p", 2)) r.p = make_shared_ptr<u8>(sx_u8(n)); return r; }
}
SX_ENTRY(compare_members)
{
	const Rec x = anyRec("x"), y = anyRec("y"); const int w = recCmp(x, y);
	#define MEMBERS CustomMemberComparer(&Rec::a, High()), &Rec::Neg, &Rec::b, &Rec::p
	Agree(CompareMembersCmp(MEMBERS), CompareMembersLess(MEMBERS), CompareMembersEquals(MEMBERS), CompareMembersGreater(MEMBERS), x, y, w); Agree(CompareMembersCmp(&Rec::b), CompareMembersLess(&Rec::b), CompareMembersEquals(&Rec::b), CompareMembersGreater(&Rec::b), x, y, cmp(x.b, y.b));
	Agree(CompareMembersCmp(&Rec::b, &Rec::a), CompareMembersLess(&Rec::b, &Rec::a), CompareMembersEquals(&Rec::b, &Rec::a), CompareMembersGreater(&Rec::b, &Rec::a), make_shared_ptr<Rec>(x), make_shared_ptr<Rec>(y), cmp(x.b, y.b) ? cmp(x.b, y.b) : cmp(x.a, y.a)); sx_reach("members");
}
SX_ENTRY(compare_member_values)
{
	const Rec x = anyRec("x"); const s16 v = (s16)sx_u16("v"); const int w = cmp(x.b, v); const shared_ptr<Rec> sp = make_shared_ptr<Rec>(x); const unique_ptr<Rec> up(new Rec(x)); Rec m = x;
	SX_ASSERT(CompareMemberLess(&Rec::b)(x, v) == (w < 0) && CompareMemberLess(&Rec::b)(v, x) == (w > 0) && CompareMemberLess(&Rec::b)(sp, v) == (w < 0) && CompareMemberLess(&Rec::b)(v, &m) == (w > 0), "a member less than a value"); SX_ASSERT(CompareMemberGreater(&Rec::b)(x, v) == (w > 0) && CompareMemberGreater(&Rec::b)(v, x) == (w < 0) && CompareMemberGreater(&Rec::b)(up, v) == (w > 0), "a member greater than a value"); SX_ASSERT(CompareMemberEquals(&Rec::b)(x, v) == (w == 0) && CompareMemberEquals(&Rec::b)(v, sp) == (w == 0) && CompareMemberEquals(&Rec::Neg)(&x, (s8)v) == (x.Neg() == (s8)v), "a member equal to a value");
	SX_ASSERT(CompareMemberToValue<Less>(&Rec::b, v)(x) == (w < 0) && CompareMemberToValue<Greater>(&Rec::b, v)(sp) == (w > 0) && CompareMemberToValue<Equals>(&Rec::b, v)(&m) == (w == 0) && CompareMemberToValue<std::less_equal>(&Rec::b, v)(x) == (w <= 0) && CompareMemberToValue<std::not_equal_to>(&Rec::b, v)(up) == (w != 0), "a member and a value"); sx_reach("member values");
}
SX_ENTRY(compare_collections)
{
	std::vector<u8> a, b; const int na = sx_choose("na", 4), nb = sx_choose("nb", 4); for (int i = 0; i < na; ++i) a.push_back(sx_u8("a")); for (int i = 0; i < nb; ++i) b.push_back(sx_u8("b")); int w = 0; for (int i = 0; !w && i < na && i < nb; ++i) w = cmp(a[i], b[i]); if (!w) w = cmp(na, nb);
	Agree(CollectionCmp(), CollectionLess(), CollectionEquals(), CollectionGreater(), a, b, w); Agree(CollectionCmp(), CollectionLess(), CollectionEquals(), CollectionGreater(), ToRange(a), b, w); SX_ASSERT(CollectionCmp()(a, a) == 0 && !CollectionLess()(a, a), "a collection and itself"); { const shared_ptr<std::vector<u8> > p = make_shared_ptr<std::vector<u8> >(a), q; SX_ASSERT(CollectionCmp()(p, make_shared_ptr<std::vector<u8> >(b)) == CollectionCmp()(a, b) && CollectionCmp()(p, q) > 0 && CollectionCmp()(q, p) < 0 && CollectionCmp()(q, q) == 0, "shared collections"); } sx_reach("collections");
}
SX_ENTRY(compare_tuples)
{
	typedef Tuple<TypeList<u8, s16, u8> > T; const u8 a0 = sx_u8("a"), a2 = sx_u8("a"), b0 = sx_u8("b"), b2 = sx_u8("b"); const s16 a1 = (s16)sx_u16("a"), b1 = (s16)sx_u16("b"); const T a(a0, a1, a2), b(b0, b1, b2); const int w = cmp(a0, b0) ? cmp(a0, b0) : cmp(a1, b1) ? cmp(a1, b1) : cmp(a2, b2);
	Agree(TupleCmp<Cmp>(), TupleLess<Cmp>(), TupleEquals(), TupleGreater<Cmp>(), a, b, w); SX_ASSERT(TupleCmp<Cmp>()(Tuple<TypeList<> >(), Tuple<TypeList<> >()) == 0, "empty tuples"); sx_reach("tuples");
}
namespace
{
	struct Pad { virtual ~Pad() { } int pad; };
	struct CA : public Comparable<CA> { int v; int DoCompare(const CA& o) const override { return cmp(v, o.v); } };
	struct CB : public Pad, public Comparable<CB> { int v; int DoCompare(const CB& o) const override { return cmp(v & 7, o.v & 7); } };
	struct CC : public Pad, public IndifferentlyComparable<CC> { int v; };
}
SX_ENTRY(compare_objects)
{
	struct { CA a0; CB b0; CC c0; CA a1; CB b1; CC c1; } o; CA* const a_[2] = { &o.a0, &o.a1 }; CB* const b_[2] = { &o.b0, &o.b1 }; CC* const c_[2] = { &o.c0, &o.c1 }; for (int i = 0; i < 2; ++i) a_[i]->v = b_[i]->v = c_[i]->v = sx_s32("v"); const IComparable* all[6] = { a_[0], a_[1], b_[0], b_[1], c_[0], c_[1] }; const int i = sx_choose("i", 6), j = sx_choose("j", 6), k = sx_choose("k", 6); const int ij = sgn(all[i]->Compare(*all[j])), jk = sgn(all[j]->Compare(*all[k])), ik = sgn(all[i]->Compare(*all[k]));
	if (i / 2 == j / 2) { const int w = i == j ? 0 : i / 2 == 0 ? cmp(a_[i % 2]->v, a_[j % 2]->v) : i / 2 == 1 ? cmp(b_[i % 2]->v & 7, b_[j % 2]->v & 7) : 0; SX_ASSERT(ij == w, "objects of one class"); } else SX_ASSERT(ij != 0, "objects of different classes are equal");
	SX_ASSERT(sgn(all[j]->Compare(*all[i])) == -ij, "comparison the other way"); SX_ASSERT(sx_imp(sx_and(ij <= 0, jk <= 0), ik <= 0) && sx_imp(sx_and(ij < 0, jk <= 0), ik < 0), "order of three objects"); sx_reach("objects");
}

// ---- functions and binders
namespace
{
	int gcopies, glive; struct Tracked { u32 v; explicit Tracked(u32 v_) : v(v_) { ++glive; } Tracked(const Tracked& o) : v(o.v) { ++gcopies; ++glive; } Tracked(Tracked&& o) : v(o.v) { o.v = 0xDEAD; ++glive; } Tracked& operator = (const Tracked& o) { v = o.v; return *this; } ~Tracked() { --glive; } };
	u32 three(u8 a, u16 b, u32 c) { return ((u32)a << 24) ^ ((u32)b << 8) ^ c; }
	u32 twoOf(u32 a, u32 b) { return a * 3 + b; }
	void inc(u32& a, u32 by) { a += by; }
	u32 take(unique_ptr<u32> p) { return p ? *p : 0; }
	struct Obj { u32 v; Obj(u32 v_) : v(v_) { } u32 Get(u32 add) const { return v + add; } void Set(u32 n) { v = n; } u32 Sum(u32 a, u32 b) { return v + a * 5 + b; } };
	struct FObj : public function_info<u32 (u32)> { Tracked t; FObj(u32 v) : t(v) { } u32 operator () (u32 x) const { return t.v ^ x; } };
	struct Throwing : public function_info<u32 (u32)> { u32 operator () (u32 x) const { if (x & 1) throw std::runtime_error("odd"); return x / 2; } };
}
SX_ENTRY(bind_order)
{
	// every argument goes where its placeholder stands, others are kept since the binding
	const u8 a = sx_u8("a"); const u16 b = sx_u16("b"); const u32 c = sx_u32("c"), d = sx_u32("d"); SX_ASSERT(Bind(&three, _1, _2, _3)(a, b, c) == three(a, b, c) && Bind(&three, _3, _2, _1)(c, b, a) == three(a, b, c) && Bind(&three, _2, _3, _1)(c, a, b) == three(a, b, c), "order of arguments"); SX_ASSERT(Bind(&three, a, _1, c)(b) == three(a, b, c) && Bind(&three, a, b, c)() == three(a, b, c) && Bind(&three, _1, b, _2)(a, c) == three(a, b, c) && Bind(&three, _1, _1, _1)(a) == three(a, a, a) && Bind(&three, a, _2, c)(d, b) == three(a, b, c), "bound arguments");
	SX_ASSERT(Bind(&twoOf, Bind(&twoOf, _1, c), Bind(&twoOf, d, _2))(d, c) == twoOf(twoOf(d, c), twoOf(d, c)) && Bind(&twoOf, Bind(&twoOf, _2, _1), _1)(c, d) == twoOf(twoOf(d, c), c), "nested bindings"); u32 kept = c; const function<u32 (u32)> f = Bind(&twoOf, kept, _1); kept = ~kept; SX_ASSERT(f(d) == twoOf(c, d), "a bound value changes"); const function<u32 (u32)> g = f; SX_ASSERT(g(d) == f(d), "a copy of a function");
	{ u32 r = c; Bind(&inc, wrap_ref(r), _1)(d); SX_ASSERT(r == c + d, "a bound reference"); function<void (u32&)> h = Bind(&inc, _1, d); h(r); SX_ASSERT(r == c + d + d, "a reference passed on"); } sx_reach("bound");
}
SX_ENTRY(bind_objects)
{
	const u32 v = sx_u32("v"), x = sx_u32("x"), y = sx_u32("y"); Obj o(v); const shared_ptr<Obj> p = make_shared_ptr<Obj>(v); SX_ASSERT(Bind(&Obj::Get, &o, _1)(x) == v + x && Bind(&Obj::Get, p, x)() == v + x && Bind(&Obj::Get, _1, x)(p) == v + x && Bind(&Obj::Sum, _1, _2, y)(&o, x) == v + x * 5 + y && Bind(&Obj::Sum, wrap_ref(o), y, _1)(x) == v + y * 5 + x, "a method of an object"); Bind(&Obj::Set, p, _1)(x); SX_ASSERT(p->v == x && o.v == v, "a method called on another object");
	{ weak_ptr<Obj> w; { const function<u32 (u32)> f = Bind(&Obj::Get, make_shared_ptr<Obj>(v), _1); SX_ASSERT(f(x) == v + x, "a method of an owned object"); const shared_ptr<Obj> q = make_shared_ptr<Obj>(y); w = q; const function<u32 (u32)> g = Bind(&Obj::Get, q, _1); } SX_ASSERT(!w.lock(), "an object outlives the function that owned it"); }
	SX_ASSERT(SX_THROWS(Bind(&Obj::Get, shared_ptr<Obj>(), _1)(x)), "a method of null"); { unique_ptr<u32> u(new u32(x)); SX_ASSERT(Bind(&take, _1)(std::move(u)) == x && !u, "an argument that moves"); } { const function<u32 (unique_ptr<u32>)> f(&take); SX_ASSERT(f(unique_ptr<u32>(new u32(y))) == y && f(unique_ptr<u32>()) == 0, "a moved argument of a function"); } sx_reach("methods");
}
SX_ENTRY(functions)
{
	// a function keeps what it was made of until its last copy dies
	glive = 0; const u32 v = sx_u32("v"), w = sx_u32("w"), x = sx_u32("x"); { FObj o(v); function<u32 (u32)> f(o), g((FObj(w))); o.t.v = ~v; SX_ASSERT(f(x) == (v ^ x) && g(x) == (w ^ x), "result of a function"); gcopies = 0; for (int i = 0; i < 2; ++i) switch (sx_choose("op", 5)) { case 0: g = f; SX_ASSERT(g(x) == f(x), "an assigned function"); break; case 1: { function<u32 (u32)> h(std::move(g)); g = h; break; } case 2: std::swap(f, g); break; case 3: { function<u32 (u32)> h(f); f = g; g = std::move(h); break; } default: { const function_storage s(f); f = s.ToFunction<u32 (u32)>(); } } const u32 r = f(x), q = g(x); SX_ASSERT((r == (v ^ x) || r == (w ^ x)) && (q == (v ^ x) || q == (w ^ x)), "a function after moves"); SX_ASSERT(gcopies == 0, "copies of a function share what it was made of"); }
	SX_ASSERT(glive == 0, "what a function was made of is not destroyed once"); { const function<u32 (u32)> f((Throwing())); SX_ASSERT(SX_THROWS(f(x)) == ((x & 1) != 0), "an exception of a function"); const function<void (u32)> g((Throwing())); SX_ASSERT(SX_THROWS(g(x)) == ((x & 1) != 0), "a result ignored"); } const function<long long (u8)> c((FObj(v))); SX_ASSERT(c((u8)x) == (long long)(v ^ (u8)x), "conversion of arguments and results"); sx_reach("functions");
}
namespace
{
	struct OnTuple : public function_info<u32 (const Tuple<TypeList<u8, u16, u32> >&)> { u32 operator () (const Tuple<TypeList<u8, u16, u32> >& t) const { return three(t.Get<0>(), t.Get<1>(), t.Get<2>()); } };
	struct Odd : public function_info<bool (u32)> { bool operator () (u32 x) const { return x & 1; } };
	struct Plus : public function_info<s64 (s32, s32)> { s64 operator () (s32 a, s32 b) const { return (s64)a + b; } };
	struct Counted : public function_info<u32 ()> { int* n; u32 v; Counted(int* n_, u32 v_) : n(n_), v(v_) { } u32 operator () () const { ++*n; return v; } };
}
SX_ENTRY(functors)
{
	const u8 a = sx_u8("a"); const u16 b = sx_u16("b"); const u32 c = sx_u32("c"); const s32 s = sx_s32("s"), t = sx_s32("t"); SX_ASSERT(not_(Odd())(c) == !(c & 1) && not_(not_(Odd()))(c) == ((c & 1) != 0), "negation of a predicate"); SX_ASSERT(negate(Plus())(s, t) == -((s64)s + t), "negation of a result"); u32 r = 0; make_assigner(r)(c); SX_ASSERT(r == c, "assignment"); SX_ASSERT(make_identity(c)() == c && make_identity(u32(c))(1, "x") == c, "a constant"); NopFunctor()(1, "a"); SX_ASSERT(MakeInstance<Obj>()(c).v == c, "a made instance");
	SX_ASSERT(make_invoker(&three)(Tuple<TypeList<u8, u16, u32> >(a, b, c)) == three(a, b, c) && make_invoker(Plus())(std::make_pair(s, t)) == (s64)s + t && make_invoker(Plus())(KeyValuePair<s32, s32>(s, t)) == (s64)s + t, "arguments given together"); SX_ASSERT((PackArguments<u32 (u8, u16, u32)>(OnTuple())(a, b, c)) == three(a, b, c), "arguments packed together"); SX_ASSERT(FunctorInvoker::Invoke(&three, Tuple<TypeList<u8, u16, u32> >(a, b, c)) == three(a, b, c) && FunctorInvoker::InvokeArgs(&Obj::Get, Obj(c), 5) == c + 5, "invocation");
	int n = 0; const u32 z = sx_choose("use", 2) ? (u32)lazy(Counted(&n, c)) : (lazy(Counted(&n, c)), c); SX_ASSERT(z == c && n <= 1, "a lazy value"); sx_reach("functors");
}

// ---- casts, visitors and dispatch
namespace
{
	struct Base { virtual ~Base() { } }; struct Left : public virtual Base { u32 l; }; struct Right : public virtual Base { u32 r; }; struct Both : public Left, public Right { }; struct Alone : public Base { };
}
SX_ENTRY(casts)
{
	Both both; both.l = sx_u32("l"); both.r = sx_u32("r"); Left left; left.l = ~both.l; Alone alone; Base* all[4] = { &both, &left, &alone, NULL }; const int k = sx_choose("object", 4); Base* const p = all[k]; Left* const l = dynamic_caster(p); Right* const r = dynamic_caster(p); SX_ASSERT((l != NULL) == (k < 2) && (r != NULL) == (k == 0) && (!l || l->l == (k ? left.l : both.l)) && (!r || r->r == both.r) && DynamicCast<Alone*>(p) == (k == 2 ? &alone : NULL), "a cast of a pointer");
	if (p) { u32 v = 0; const bool t = SX_THROWS(v = DynamicCast<Right&>(*p).r), t2 = SX_THROWS([&]() { const Left& x = dynamic_caster(*p); v = x.l; }()); SX_ASSERT(t == (k != 0) && t2 == (k > 1), "a cast of a reference"); Base& up = DynamicCast<Base&>(both); SX_ASSERT(&up == &both, "a cast to the base"); }
	static Both gboth; const shared_ptr<Base> s = k == 0 ? shared_ptr<Base>(make_shared_ptr<Both>()) : k == 1 ? shared_ptr<Base>(make_shared_ptr<Left>()) : k == 2 ? shared_ptr<Base>(make_shared_ptr<Alone>()) : shared_ptr<Base>(); { const shared_ptr<Left> d = dynamic_caster(s); SX_ASSERT((bool)d == (k < 2) && (!d || d.use_count() == 2), "a cast of a shared pointer"); } { shared_ptr<Right> d; const bool t = SX_THROWS(d = STINGRAYKIT_CHECKED_DYNAMIC_CASTER(s)); SX_ASSERT(t == (k == 1 || k == 2) && (bool)d == (k == 0), "a checked cast"); } (void)gboth; sx_reach("casts");
}
namespace
{
	struct Animal : public virtual IVisitable<Animal> { u32 w; Animal(u32 w_) : w(w_) { } virtual ~Animal() { } }; struct Cat : public Animal, public Visitable<Animal, Cat> { Cat(u32 w) : Animal(w) { } }; struct Dog : public Animal, public Visitable<Animal, Dog> { u8 d; Dog(u32 w) : Animal(w), d(9) { } }; struct Eel : public Animal, public Visitable<Animal, Eel> { Eel(u32 w) : Animal(w) { } };
	struct Weigh : public Visitor<const Animal, TypeList<const Cat, const Dog>, u32> { u32 Visit(const Cat& c) const override { return c.w + 1; } u32 Visit(const Dog& d) const override { return d.w + d.d; } };
	struct WeighAny : public Visitor<const Animal, TypeList<const Cat>, u32> { u32 Visit(const Cat& c) const override { return c.w + 1; } u32 Visit(const Animal& a) const override { return a.w + 77; } };
	struct Feed : public Visitor<Animal, TypeList<Dog> > { void Visit(Dog& d) const override { d.w += 5; } void Visit(Animal& a) const override { a.w += 2; } };
	struct Keep : public Visitor<shared_ptr<Animal>, TypeList<shared_ptr<Eel> >, shared_ptr<Eel> > { shared_ptr<Eel> Visit(const shared_ptr<Eel>& e) const override { return e; } shared_ptr<Eel> Visit(const shared_ptr<Animal>&) const override { return null; } };
}
SX_ENTRY(visitors)
{
	const u32 w = sx_u32("w"); const int k = sx_choose("animal", 3); const shared_ptr<Animal> a = k == 0 ? shared_ptr<Animal>(make_shared_ptr<Cat>(w)) : k == 1 ? shared_ptr<Animal>(make_shared_ptr<Dog>(w)) : shared_ptr<Animal>(make_shared_ptr<Eel>(w)); const Animal& c = *a; u32 r = 0; const bool t = SX_THROWS(r = ApplyVisitor(Weigh(), c)); SX_ASSERT(t == (k == 2) && (t || r == (k ? w + 9 : w + 1)), "a visit of the class"); SX_ASSERT(ApplyVisitor(WeighAny(), c) == (k ? w + 77 : w + 1), "a visit of any class"); ApplyVisitor(Feed(), *a); SX_ASSERT(a->w == (k == 1 ? w + 5 : w + 2), "a visit that changes the object"); const shared_ptr<Eel> e = ApplyVisitor(Keep(), a); SX_ASSERT((bool)e == (k == 2) && (!e || (a.use_count() == 2 && e->w == w + 2)), "a visit with the pointer"); sx_reach("visited");
}
namespace
{
	typedef variant<TypeList<u8, s16, std::string> > Var;
	struct Two : public static_visitor<u32> { u32 operator () (u8 a, u8 b) const { return 1000 + a * 2 + b; } u32 operator () (u8 a, const std::string& s) const { return 2000 + a + s.size(); } u32 operator () (const std::string& s, u8 b) const { return 3000 + b * 7 + s.size(); } template < typename A_, typename B_ > u32 operator () (const A_&, const B_&) const { return 4000; } };
	struct Tag { STINGRAYKIT_ENUM_VALUES(One = 1, Two = 2, Four = 4, Seven = 7, Nine = 9); STINGRAYKIT_DECLARE_ENUM_CLASS(Tag); };
	struct OneT { static u32 Do(u32 x) { return x + 1; } }; struct TwoT { static u32 Do(u32 x) { return x ^ 2; } }; struct FourT { static u32 Do(u32 x) { return x * 4; } }; struct SevenT { static u32 Do(u32 x) { return x - 7; } };
	struct ByTag : public GenericInvoker<ByTag, Tag, u32, ThrowLeafFunc> { typedef TypeList<RegistryEntry<Tag::Four, FourT>, RegistryEntry<Tag::One, OneT>, RegistryEntry<Tag::Seven, SevenT>, RegistryEntry<Tag::Two, TwoT> > Registry; };
	struct ByTag0 : public GenericInvoker<ByTag0, Tag, u32, DefaultConstructorLeafFunc> { typedef TypeList<RegistryEntry<Tag::Seven, SevenT>, RegistryEntry<Tag::Two, TwoT>, RegistryEntry<Tag::One, OneT> > Registry; };
}
SX_ENTRY(dispatch)
{
	const u8 a = sx_u8("a"), b = sx_u8("b"); const u32 x = sx_u32("x"); Var v[2]; int k[2]; for (int i = 0; i < 2; ++i) { k[i] = sx_choose("kind", 3); if (k[i] == 0) v[i] = i ? b : a; else if (k[i] == 1) v[i] = (s16)5; else v[i] = std::string("abc"); } const u32 want = k[0] == 0 && k[1] == 0 ? 1000 + a * 2 + b : k[0] == 0 && k[1] == 2 ? 2000 + a + 3 : k[0] == 2 && k[1] == 0 ? 3000 + b * 7 + 3 : 4000; SX_ASSERT(Multidispatch(Two(), v[0], v[1]) == want && MakeMultidispatcher(Two())(v[0], v[1]) == want, "dispatch by the types of two variants");
	static const Tag::Enum tags[] = { Tag::One, Tag::Two, Tag::Four, Tag::Seven, Tag::Nine }; const int t = sx_choose("tag", 5); const u32 res[5] = { x + 1, x ^ 2, x * 4, x - 7, 0 }; u32 r = 0; const bool thrown = SX_THROWS(r = ByTag::Invoke(tags[t], x)); SX_ASSERT(thrown == (t == 4) && (thrown || r == res[t]), "dispatch by a tag"); SX_ASSERT(ByTag0::Invoke(tags[t], x) == (t == 2 || t == 4 ? 0 : res[t]), "dispatch by a tag with a default"); sx_reach("dispatched");
}
SX_ENTRY(operations)
{
	typedef CollectionOpVariant<u8> Op; const u8 a = sx_u8("a"), b = sx_u8("b"); const int k = sx_choose("k", 4), m = sx_choose("m", 4); struct Make { static Op make(int k, u8 a, u8 b) { return k == 0 ? Op::CreateAdded(a) : k == 1 ? Op::CreateRemoved(a) : k == 2 ? Op::CreateModified(a, b) : Op(); } }; const Op o = Make::make(k, a, b), p = Make::make(m, b, a);
	if (k == 3) SX_ASSERT(SX_THROWS(o.GetOp()), "an empty operation"); else SX_ASSERT(o.GetOp() == (k == 0 ? CollectionOp::Added : k == 1 ? CollectionOp::Removed : CollectionOp::Updated), "kind of an operation"); SX_ASSERT(SX_THROWS(o.AsAdded()) == (k != 0) && SX_THROWS(o.AsRemoved()) == (k != 1) && SX_THROWS(o.AsModified()) == (k != 2), "an operation taken for another"); if (k == 0) SX_ASSERT(o.AsAdded().Value == a, "value added"); if (k == 1) SX_ASSERT(o.AsRemoved().Value == a, "value removed"); if (k == 2) SX_ASSERT(o.AsModified().OldValue == a && o.AsModified().NewValue == b, "values modified"); SX_ASSERT((o == p) == (k == m && (k == 3 || a == b)), "comparison of operations"); sx_reach("operations");
}
namespace { struct IMade { virtual ~IMade() { } virtual u32 V() const = 0; }; struct Made : public IMade { u32 v; u8 w; Made(u32 v_, u8 w_) : v(v_), w(w_) { } u32 V() const override { return v + w; } }; struct Only : public IMade { u32 V() const override { return 3; } }; }
SX_ENTRY(creators)
{
	const u32 v = sx_u32("v"); const u8 w = sx_u8("w"); shared_ptr<ICreator<IMade> > c; { u32 x = v; c = MakeConstructorCreator<IMade, Made>(x, w); x = ~x; } const shared_ptr<IMade> a = c->Create(), b = c->Create(); SX_ASSERT(a->V() == v + w && b->V() == v + w && a != b, "objects created with kept arguments"); const SingleInstanceCreator<IMade, Only> s; SX_ASSERT(s.Create() == (SingleInstanceCreator<IMade, Only>().Create()), "a single instance"); const shared_ptr<ICreator<Made> > d = MakeConstructorCreator<Made, Made>(v, w); SX_ASSERT((MakeConvertingCreator<IMade>(d)->Create()->V()) == v + w, "a converted creator"); SX_ASSERT(SX_THROWS(MakeConvertingCreator<IMade>(shared_ptr<ICreator<Made> >())), "no creator"); sx_reach("created");
}
