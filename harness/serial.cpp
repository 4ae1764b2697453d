// Serialization: an object written to a stream of values and read back is the same; registered classes are created by name.
#include "valuetree.h"
#include <stingraykit/serialization/InjectionSerializer.h>
#include <stingraykit/serialization/Composite.h>
#include <stingraykit/serialization/IntegerDeserializer.h>
#include <stingraykit/serialization/SerializationHelper.h>
#include <stingraykit/serialization/StringProxySerialization.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/SortedSet.h>
#include <stingraykit/collection/MapDictionary.h>
#include <stingraykit/collection/MultiMapDictionary.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
#include <stingraykit/collection/TransactionalList.h>
#include <stingraykit/collection/TransactionalDictionary.h>
#include <stingraykit/collection/Range.h>
#include <stingraykit/factory/Factory.h>
#include <stingraykit/time/Time.h>
#include <stingraykit/any.h>
#include <stingraykit/Size.h>
#include <list>
#include <set>
using namespace stingray;
// reads what was written over another value
template <typename T> static void RoundTrip(const T& a, T b) { Load(Save(a), b); SX_ASSERT(a == b, "what was read back differs from what was written"); }
template <typename T> static void Named(const T& a, T b) { struct O { const T& t; void Serialize(ObjectOStream& ar) const { ar.Serialize("name", t); } } o = { a }; struct I { T& t; void Deserialize(ObjectIStream& ar) { ar.Deserialize("name", t); } } i = { b }; Load(Save(o), i); SX_ASSERT(a == b, "a member read back differs from what was written"); }
template <typename T> static void Both(const T& a, const T& b) { RoundTrip(a, b); Named(a, b); }
static std::string text(const char* n) { const size_t k = sx_choose("len", 3); std::string s; for (size_t i = 0; i < k; ++i) s.push_back((char)sx_u8(n)); return s; }
SX_ENTRY(numbers)
{
	switch (sx_choose("type", 11))
	{
	case 0: Both<s8>(sx_u8("v"), 1); break; case 1: Both<u8>(sx_u8("v"), 1); break; case 2: Both<s16>(sx_u16("v"), 1); break; case 3: Both<u16>(sx_u16("v"), 1); break;
	case 4: Both<s32>(sx_u32("v"), 1); break; case 5: Both<u32>(sx_u32("v"), 1); break; case 6: Both<s64>(sx_u64("v"), 1); break; case 7: Both<u64>(sx_u64("v"), 1); break;
	case 8: Both<bool>(sx_bool("v"), true); break; case 9: Both<char>(sx_u8("v"), 1); break; default: Both<std::string>(text("t"), "other"); break;
	}
	sx_reach("numbers");
}
template <typename T> static void Checked(s64 v, s64 lo, s64 hi) { SettingsValueSelfCountPtr p = Save(v); T t = 7; auto d = MakeIntegerDeserializer(t); const bool f = SX_THROWS(Load(p, d)); SX_ASSERT(f == (v < lo || v > hi), "a number out of range is accepted, or one in range refused"); if (!f) SX_ASSERT((s64)t == v, "a checked number differs"); }
SX_ENTRY(checked_numbers)
{
	const s64 v = sx_s64("v");
	switch (sx_choose("type", 7)) { case 0: Checked<u8>(v, 0, 255); break; case 1: Checked<s8>(v, -128, 127); break; case 2: Checked<u16>(v, 0, 65535); break; case 3: Checked<s16>(v, -32768, 32767); break; case 4: Checked<u32>(v, 0, 4294967295ll); break; case 5: Checked<s32>(v, -2147483647ll - 1, 2147483647ll); break; default: Checked<s64>(v, IntTraits<s64>::Min, IntTraits<s64>::Max); break; }
	sx_reach("checked");
}
template <typename C_> static C_ Seq(int n) { C_ c; for (int i = 0; i < n; ++i) c.push_back((typename C_::value_type)sx_u8("e")); return c; }
SX_ENTRY(containers)
{
	const int n = sx_choose("n", 4), o = sx_choose("old", 2);
	switch (sx_choose("type", 9))
	{
	case 0: Both(Seq<std::vector<u8> >(n), Seq<std::vector<u8> >(o)); break;
	case 1: Both(Seq<std::vector<int> >(n), Seq<std::vector<int> >(o)); break;
	case 2: Both(Seq<std::list<s64> >(n), Seq<std::list<s64> >(o)); break;
	case 3: { std::set<int> a, b; for (int i = 0; i < n; ++i) a.insert(i * 3); if (o) b.insert(1); Both(a, b); break; }
	case 4: { std::map<int, u8> a, b; for (int i = 0; i < n; ++i) a[i * 3] = sx_u8("v"); if (o) b[1] = 1; Both(a, b); break; }
	case 5: { std::map<std::string, u8> a, b; for (int i = 0; i < n; ++i) a[std::string(i, 'x')] = sx_u8("v"); if (o) b["y"] = 1; Both(a, b); break; }
	case 6: { std::vector<std::string> a, b(o, "old"); for (int i = 0; i < n; ++i) a.push_back(text("t")); Both(a, b); break; }
	case 7: { std::vector<std::vector<int> > a, b(o); for (int i = 0; i < n; ++i) a.push_back(Seq<std::vector<int> >(sx_choose("m", 3))); Both(a, b); break; }
	default: { std::pair<u16, std::string> a(sx_u16("f"), text("s")), b(1, "old"); Both(a, b); std::vector<bool> c, d(o, true); for (int i = 0; i < n; ++i) c.push_back(sx_choose("bit", 2)); Both(c, d); break; }
	}
	sx_reach("containers");
}
SX_ENTRY(optionals)
{
	typedef optional<u16> O; const O a = sx_choose("has", 2) ? O(sx_u16("v")) : O(), b = sx_choose("old", 2) ? O(7) : O();
	switch (sx_choose("kind", 4))
	{
	case 0: RoundTrip(a, b); break; case 1: Named(a, b); break;
	case 2: { std::vector<O> x, y(1, b); for (int i = sx_choose("n", 3); i > 0; --i) x.push_back(sx_choose("h", 2) ? O(sx_u16("w")) : O()); RoundTrip(x, y); break; }
	default: { typedef optional<std::vector<u8> > OV; OV x = sx_choose("h", 2) ? OV(Seq<std::vector<u8> >(sx_choose("n", 3))) : OV(), y = sx_choose("o", 2) ? OV(Seq<std::vector<u8> >(1)) : OV(); Both(x, y); break; }
	}
	sx_reach("optionals");
}
SX_ENTRY(variants)
{
	typedef variant<TypeList<EmptyType, u8, std::string, s64> > V; V v[2];
	for (int i = 0; i < 2; ++i) switch (sx_choose("kind", 4)) { case 0: break; case 1: v[i] = sx_u8("b"); break; case 2: v[i] = text("t"); break; default: v[i] = (s64)sx_s64("n"); }
	V b = v[1]; Load(Save(v[0]), b); SX_ASSERT(b.which() == v[0].which(), "a variant read back is of another kind"); if (b.contains<u8>()) SX_ASSERT(b.get<u8>() == v[0].get<u8>(), "variant"); if (b.contains<std::string>()) SX_ASSERT(b.get<std::string>() == v[0].get<std::string>(), "variant"); if (b.contains<s64>()) SX_ASSERT(b.get<s64>() == v[0].get<s64>(), "variant");
	sx_reach("variants");
}
struct WideTag;
namespace stingray { template <typename T> struct Serialization<WideTag, T, void> { template <typename S> static void SerializeAsValue(S& ar, const T& t) { ar.Serialize((s64)t + 1000); } template <typename S> static void DeserializeAsValue(S& ar, T& t) { s64 v; ar.Deserialize(v); t = (T)(v - 1000); } }; }
STINGRAYKIT_DECLARE_COMPOSITE(Point, STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(u16, X, x), STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(std::string, Name, n), STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<u8>, Opt, o), STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(optional<u8>, Wide, w, WideTag), STINGRAYKIT_DECLARE_COMPOSITE_MEMBER(u8, Must, m, WideTag));
static optional<u8> maybe(const char* n) { return sx_choose("has", 2) ? optional<u8>(sx_u8(n)) : optional<u8>(); }
static void SamePoint(const Point& a, const Point& b) { SX_ASSERT(a.GetX() == b.GetX() && a.GetName() == b.GetName() && a.GetOpt() == b.GetOpt() && a.GetWide() == b.GetWide() && a.GetMust() == b.GetMust(), "a composite read back differs from what was written"); }
SX_ENTRY(composites)
{
	const shared_ptr<Point> a = make_shared_ptr<Point>(sx_u16("x"), text("t"), maybe("o"), maybe("w"), sx_u8("m"));
	switch (sx_choose("kind", 3))
	{
	case 0: { Point b(1, "old", 3, 4, 5); Load(Save(*a), b); SamePoint(*a, b); break; } // over an older one
	case 1: { shared_ptr<Point> b; if (sx_choose("old", 2)) b = make_shared_ptr<Point>(1, "old", 3, 4, 5); const shared_ptr<Point> o = b; Load(Save(a), b); SX_ASSERT(b && b != o && b != a, "an object read back is not a new one"); SamePoint(*a, *b); if (o) SX_ASSERT(o->GetX() == 1 && o->GetName() == "old", "an older object was changed"); Load(Save(shared_ptr<Point>()), b); SX_ASSERT(!b, "a null object is read back as one"); break; }
	default: { std::vector<shared_ptr<Point> > v, w; v.push_back(a); v.push_back(null); v.push_back(a); Load(Save(v), w); SX_ASSERT(w.size() == 3 && w[0] && !w[1] && w[2], "objects of a list"); SamePoint(*a, *w[0]); SamePoint(*a, *w[2]); break; }
	}
	sx_reach("composites");
}
SX_ENTRY(missing)
{
	// members that were not written: required, optional and defaulted
	struct O { bool a, b; u8 v; void Serialize(ObjectOStream& ar) const { if (a) ar.Serialize("a", v); if (b) ar.Serialize("b", v); } } o = { sx_choose("a", 2) != 0, sx_choose("b", 2) != 0, sx_u8("v") };
	const SettingsValueSelfCountPtr s = Save(o);
	struct R { u8 a; void Deserialize(ObjectIStream& ar) { ar.Deserialize("a", a); } } r = { 9 }; std::string what; bool f = false; try { Load(s, r); } catch (const SettingsValueException& e) { f = true; what = e.what(); }
	SX_ASSERT(f == !o.a && r.a == (o.a ? o.v : 9), "a missing member"); if (f) SX_ASSERT(what.find("a(not found)") != std::string::npos, "the missing member is not named");
	struct D { u8 b; void Deserialize(ObjectIStream& ar) { ar.Deserialize("b", b, 42); } } d = { 9 }; Load(s, d); SX_ASSERT(d.b == (o.b ? o.v : 42), "a defaulted member");
	// another kind of value than expected
	std::string t = "old"; SX_ASSERT(SX_THROWS(Load(Save(o.v), t)) && t == "old", "a number is read as a text"); u8 n = 3; SX_ASSERT(SX_THROWS(Load(Save(std::string("x")), n)) && n == 3, "a text is read as a number"); bool b = true; SX_ASSERT(SX_THROWS(Load(Save((s64)o.v), b)) && b, "a number is read as a flag");
	std::vector<int> three(3, o.v); std::pair<int, int> p; SX_ASSERT(SX_THROWS(Load(Save(three), p)), "three elements are read as a pair");
	sx_reach("missing");
}
SX_ENTRY(binary_text)
{
	// binary data given as text: hex= and pairs of digits
	const size_t n = sx_choose("n", 5); std::string s = sx_choose("prefix", 2) ? "hex=" : "he="; const bool ok = s == "hex="; for (size_t i = 0; i < n; ++i) s.push_back((char)sx_u8("c"));
	bool good = ok && n % 2 == 0; std::vector<u8> w; auto dig = [](u8 c) -> int { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
	if (ok) for (size_t i = 0; i < n; ++i) if (dig(s[4 + i]) < 0) good = false;
	if (good) for (size_t i = 0; i < n; i += 2) w.push_back((u8)(dig(s[4 + i]) * 16 + dig(s[5 + i])));
	std::vector<u8> d; const bool f = SX_THROWS(Load(Save(s), d)); SX_ASSERT(f == !good, "bad hex digits are accepted, or good ones refused"); if (!f) SX_ASSERT(d == w, "bytes read from hex text"); sx_reach("hex");
}
template <typename L_> static void ListRun(L_ a, L_ b) { const int n = sx_choose("n", 4), o = sx_choose("old", 3); for (int i = 0; i < n; ++i) a->Add(sx_u8("e")); for (int i = 0; i < o; ++i) b->Add(i); Load(Save(*a), *b); SX_ASSERT(a->GetCount() == b->GetCount(), "number of elements read back"); for (int i = 0; i < n; ++i) SX_ASSERT(a->Get(i) == b->Get(i), "elements read back"); }
template <typename D_> static void DictRun(D_ a, D_ b) { const int n = sx_choose("n", 4), o = sx_choose("old", 3); for (int i = 0; i < n; ++i) a->Set(i * 2, sx_u8("e")); for (int i = 0; i < o; ++i) b->Set(i, 1); Load(Save(*a), *b); SX_ASSERT(a->GetCount() == b->GetCount(), "number of entries read back"); for (int i = 0; i < n; ++i) { u8 v = 0; SX_ASSERT(b->TryGet(i * 2, v), "an entry is lost"); SX_ASSERT(v == a->Get(i * 2), "entries read back"); } }
SX_ENTRY(collections)
{
	typedef u8 V;
	switch (sx_choose("type", 6))
	{
	case 0: ListRun(make_shared_ptr<ArrayList<V> >(), make_shared_ptr<ArrayList<V> >()); break;
	case 1: ListRun(make_shared_ptr<ArrayObservableList<V> >(), make_shared_ptr<ArrayObservableList<V> >()); break;
	case 2: DictRun(make_shared_ptr<MapDictionary<int, V> >(), make_shared_ptr<MapDictionary<int, V> >()); break;
	case 3: DictRun(make_shared_ptr<MapObservableDictionary<int, V> >(), make_shared_ptr<MapObservableDictionary<int, V> >()); break;
	case 4: { SortedSet<int> a, b; const int n = sx_choose("n", 4), o = sx_choose("old", 3); for (int i = 0; i < n; ++i) a.Add(i * 2); for (int i = 0; i < o; ++i) b.Add(i); Load(Save(a), b); SX_ASSERT(b.GetCount() == (size_t)n, "number of elements read back"); for (int i = 0; i < n; ++i) SX_ASSERT(b.Contains(i * 2), "elements read back"); break; }
	default: { MultiMapDictionary<int, V> a, b; const int n = sx_choose("n", 4); std::vector<u8> w[2], g[2]; for (int i = 0; i < n; ++i) { const int k = sx_choose("k", 2); const u8 v = sx_u8("e"); a.Add(k, v); w[k].push_back(v); } if (sx_choose("old", 2)) b.Add(0, 1); Load(Save(a), b); SX_ASSERT(b.GetCount() == (size_t)n, "number of entries read back"); for (auto e = b.GetEnumerator(); e->Valid(); e->Next()) g[e->Get().Key].push_back(e->Get().Value); SX_ASSERT(g[0] == w[0] && g[1] == w[1], "entries read back"); break; }
	}
	sx_reach("collections");
}
SX_ENTRY(transactional)
{
	const int n = sx_choose("n", 4), o = sx_choose("old", 3);
	if (sx_choose("list", 2)) { TransactionalList<u8, comparers::Equals> b; { auto t = b.StartTransaction(); for (int i = 0; i < o; ++i) t->Add(i); t->Commit(); } std::vector<u8> a; for (int i = 0; i < n; ++i) a.push_back(sx_u8("e")); TransactionalList<u8, comparers::Equals> w; { auto t = w.StartTransaction(); for (int i = 0; i < n; ++i) t->Add(a[i]); t->Commit(); } ITransactionalList<u8>& i = b; Load(Save(w), i); SX_ASSERT(b.GetCount() == (size_t)n, "number of elements read back"); for (int i = 0; i < n; ++i) SX_ASSERT(b.Get(i) == a[i], "elements read back"); }
	else { TransactionalDictionary<int, u8> b; { auto t = b.StartTransaction(); for (int i = 0; i < o; ++i) t->Set(i, i); t->Commit(); } std::map<int, u8> a; for (int i = 0; i < n; ++i) a[i * 2] = sx_u8("e"); TransactionalDictionary<int, u8> w; { auto t = w.StartTransaction(); for (int i = 0; i < n; ++i) t->Set(i * 2, a[i * 2]); t->Commit(); } ITransactionalDictionary<int, u8>& d = b; Load(Save(w), d); SX_ASSERT(b.GetCount() == (size_t)n, "number of entries read back"); for (int i = 0; i < n; ++i) { u8 v = 0; SX_ASSERT(b.TryGet(i * 2, v), "an entry is lost"); SX_ASSERT(v == a[i * 2], "entries read back"); } }
	sx_reach("transactional");
}
static bool SameTree(const SettingsValue& a, const SettingsValue& b)
{
	if (a.which() != b.which()) return false;
	if (a.contains<s64>()) return a.get<s64>() == b.get<s64>(); if (a.contains<bool>()) return a.get<bool>() == b.get<bool>(); if (a.contains<std::string>()) return a.get<std::string>() == b.get<std::string>(); if (a.contains<ConstByteArray>()) return a.get<ConstByteArray>() == b.get<ConstByteArray>();
	if (a.contains<SettingsValueList>()) { const SettingsValueList &x = a.get<SettingsValueList>(), &y = b.get<SettingsValueList>(); if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (!SameTree(*x[i], *y[i])) return false; }
	if (a.contains<SettingsValueMap>()) { const SettingsValueMap &x = a.get<SettingsValueMap>(), &y = b.get<SettingsValueMap>(); if (x.size() != y.size()) return false; for (SettingsValueMap::const_iterator i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) if (i->first != j->first || !SameTree(*i->second, *j->second)) return false; }
	return true;
}
static SettingsValueSelfCountPtr AnyTree(int depth)
{
	switch (sx_choose("node", depth ? 7 : 5))
	{
	case 0: return make_self_count_ptr<SettingsValue>(EmptyType()); case 1: return make_self_count_ptr<SettingsValue>(sx_bool("b")); case 2: return make_self_count_ptr<SettingsValue>((s64)sx_s64("n")); case 3: return make_self_count_ptr<SettingsValue>(std::string(1, (char)sx_u8("c")));
	case 4: { const std::vector<u8> v = Seq<std::vector<u8> >(2); return make_self_count_ptr<SettingsValue>(ConstByteArray(v.begin(), v.end())); }
	case 5: { SettingsValueList l; for (int i = sx_choose("n", 3); i > 0; --i) l.push_back(AnyTree(depth - 1)); return make_self_count_ptr<SettingsValue>(l); }
	default: { SettingsValueMap m; const int n = sx_choose("n", 3); if (n > 0) m["a"] = AnyTree(depth - 1); if (n > 1) m["b"] = AnyTree(depth - 1); return make_self_count_ptr<SettingsValue>(m); }
	}
}
SX_ENTRY(injection)
{
	const SettingsValueSelfCountPtr t = AnyTree(sx_tier() ? 2 : 1); const SettingsValueSelfCountPtr c = t->Clone(); SX_ASSERT(SameTree(*t, *c), "a clone differs");
	const InjectionSerializer i = sx_choose("stream", 2) ? InjectionSerializer(make_unique_ptr<ObjectIStream>(t.get(), (IObjectSerializator*)NULL)) : InjectionSerializer(t); SX_ASSERT(SameTree(*t, *Save(i)), "injected values differ"); sx_reach("injected");
}
struct Shape : public virtual IFactoryObject { virtual int Kind() const = 0; virtual void Serialize(ObjectOStream& ar) const = 0; virtual void Deserialize(ObjectIStream& ar) = 0; };
template <int K_> struct ShapeOf : public Shape { u16 v; shared_ptr<Shape> child; ShapeOf() : v(0) { } std::string GetClassName() const override { return "shape"; } int Kind() const override { return K_; } void Serialize(ObjectOStream& ar) const override { ar.Serialize("v", v).Serialize("child", child); } void Deserialize(ObjectIStream& ar) override { ar.Deserialize("v", v).Deserialize("child", child); } };
struct Other : public virtual IFactoryObject { std::string GetClassName() const override { return "other"; } };
SX_ENTRY(factory)
{
	const FactoryContextPtr base = make_shared_ptr<FactoryContext>(); const FactoryContextPtr own = make_shared_ptr<FactoryContext>(base);
	base->Register<ShapeOf<0> >("zero"); (sx_choose("where", 2) ? base : own)->Register<ShapeOf<1> >("one"); base->Register<Other>("other"); SX_ASSERT(SX_THROWS(base->Register<ShapeOf<2> >("zero")), "a name is registered twice");
	const bool shadow = sx_choose("shadow", 2) != 0; if (shadow) own->Register<ShapeOf<2> >("zero");
	unique_ptr<Shape> z = own->Create<Shape>("zero"), o = own->Create<Shape>("one"); SX_ASSERT(z->Kind() == (shadow ? 2 : 0) && o->Kind() == 1, "an object of another class is created"); SX_ASSERT(base->Create<Shape>("zero")->Kind() == 0, "the base context is changed");
	SX_ASSERT(SX_THROWS(own->Create<Shape>("none")), "an unknown name creates something"); const uint64_t h = sx_heap_live(); (void)h; SX_ASSERT(SX_THROWS(own->Create<Shape>("other")), "an object of the wrong interface is created");
	SX_ASSERT(own->GetClassName(typeid(ShapeOf<1>)) == "one" && own->GetClassName(typeid(ShapeOf<0>)) == "zero" && own->GetClassName(typeid(Other)) == "other", "name of a class"); SX_ASSERT(SX_THROWS(own->GetClassName(typeid(int))), "name of an unknown class");
	// polymorphic objects come back as what they were
	shared_ptr<ShapeOf<1> > a = make_shared_ptr<ShapeOf<1> >(); a->v = sx_u16("v"); if (sx_choose("child", 2)) { shared_ptr<ShapeOf<0> > c = make_shared_ptr<ShapeOf<0> >(); c->v = sx_u16("w"); a->child = c; }
	Tree s(base == own ? base : own); const shared_ptr<Shape> as = a; s.Serialize(as); shared_ptr<Shape> b; { const FactoryContextConstPtr ctx = shadow ? FactoryContextConstPtr(own) : FactoryContextConstPtr(own); ObjectIStream(s.Root.get(), NULL, ctx).Deserialize(b); }
	SX_ASSERT(b && b->Kind() == 1, "an object of another class is read back"); ShapeOf<1>& r = dynamic_cast<ShapeOf<1>&>(*b); SX_ASSERT(r.v == a->v && (bool)r.child == (bool)a->child, "an object read back differs"); if (r.child) { SX_ASSERT(r.child->Kind() == (shadow ? 2 : 0), "child of an object read back"); if (!shadow) SX_ASSERT(dynamic_cast<ShapeOf<0>&>(*r.child).v == dynamic_cast<ShapeOf<0>&>(*a->child).v, "child of an object read back differs"); }
	sx_reach("factory");
}
SX_ENTRY(helpers)
{
	const u8 x = sx_u8("x"), y = sx_u8("y"); const bool b = sx_choose("b", 2) != 0;
	{ struct O { u8 x, y; bool b; void Serialize(ObjectOStream& ar) const { ar.Serialize("x", x); if (b) ar.Serialize("y", y); } } o = { x, y, b }; std::map<std::string, u8> m; m["old"] = 1; Load(Save(o), m); SX_ASSERT(m.size() == (b ? 2u : 1u) && m["x"] == x && (!b || m["y"] == y), "named values read as a map"); }
	{ auto h = MakeSerializationHelper(std::make_pair(std::string("x"), x), std::make_pair(std::string("y"), optional<u8>(b ? optional<u8>(y) : optional<u8>()))); SerializationHelper<u8, optional<u8> > r(std::string("x"), std::string("y")); Load(Save(h), r); SX_ASSERT(r.GetValue<0>() == x && r.GetValue<1>() == (b ? optional<u8>(y) : optional<u8>()), "values of a helper"); }
	{ u8 r = 3; auto d = MakeStringProxyDeserializer(r); const SettingsValueSelfCountPtr s = Save(*MakeStringProxySerializer((u8)(x & 15))); SX_ASSERT(s->contains<std::string>(), "a number by way of text is written otherwise"); Load(s, d); SX_ASSERT(r == (x & 15), "a number by way of text"); }
	{ const std::vector<u8> v(2, x); const ConstByteArray a(v.begin(), v.end()); Tree t; t.Serialize(ConstByteData(a)); std::vector<u8> r; Load(t.Root, r); SX_ASSERT(r == v, "bytes of a view"); }
	{ u8 d[3] = { x, y, 5 }; Tree t; const std::vector<u16> w(d, d + 3); t.Serialize(ToRange(w)); std::vector<u16> r; Load(t.Root, r); SX_ASSERT(r.size() == 3 && r[0] == x && r[1] == y && r[2] == 5, "elements of a range"); }
	sx_reach("helpers");
}
typedef std::vector<u8> Octets;
struct Leaf : public virtual ISerializable, public virtual IFactoryObject { u16 v; Leaf() : v(0) { } void Serialize(ObjectOStream& ar) const override { ar.Serialize("v", v); } void Deserialize(ObjectIStream& ar) override { ar.Deserialize("v", v); } STINGRAYKIT_REGISTER_CLASS(Leaf); };
STINGRAYKIT_DECLARE_PTR(Leaf);
STINGRAYKIT_DECLARE_SERIALIZABLE_ANY_OBJECTHOLDER(Octets);
STINGRAYKIT_DEFINE_SERIALIZABLE_ANY_OBJECTHOLDER(Octets);
namespace stingray { void Factory::RegisterTypes(const FactoryContextPtr& c) { c->Register<Detail::any::ObjectHolder<Octets> >(Detail::any::ObjectHolder<Octets>().GetClassName()); c->Register<Detail::any::ObjectHolder<ISerializablePtr> >(Detail::any::ObjectHolder<ISerializablePtr>().GetClassName()); c->Register<Leaf>("Leaf"); } }
template <typename T> static void AnyOf(const T& v, any old) { const any a(v); SX_ASSERT(a.IsSerializable(), "a plain value cannot be written"); Load(Save(a), old); const T* p = any_cast<T>(&old); SX_ASSERT(p, "a value of any kind is read back as another kind"); SX_ASSERT(*p == v, "a value of any kind is read back as another value"); SX_ASSERT(any_cast<T>(a) == v, "writing changes the value"); any e(old); Load(Save(any()), e); SX_ASSERT(e.empty() && !any_cast<T>(&e) && any_cast<T>(old) == v, "an empty value is read back as something"); }
SX_ENTRY(anys)
{
	any old; switch (sx_choose("old", 4)) { case 0: break; case 1: old = (short)3; break; case 2: old = std::string("old text, long enough to be kept elsewhere"); break; default: old = Octets(3, 1); }
	const uint64_t h = sx_heap_live(); (void)h;
	switch (sx_choose("type", 15))
	{
	case 0: AnyOf(sx_bool("v"), old); break; case 1: AnyOf<char>(sx_u8("v"), old); break; case 2: AnyOf<unsigned char>(sx_u8("v"), old); break; case 3: AnyOf<short>(sx_u16("v"), old); break; case 4: AnyOf<unsigned short>(sx_u16("v"), old); break;
	case 5: AnyOf<int>(sx_u32("v"), old); break; case 6: AnyOf<unsigned>(sx_u32("v"), old); break; case 7: AnyOf<long>(sx_u64("v"), old); break; case 8: AnyOf<unsigned long>(sx_u64("v"), old); break; case 9: AnyOf<long long>(sx_u64("v"), old); break; case 10: AnyOf<unsigned long long>(sx_u64("v"), old); break;
	case 11: AnyOf(text("t"), old); break;
	case 12: { const Octets v = Seq<Octets>(sx_choose("n", 3)); AnyOf(v, old); break; }
	case 13: { const LeafPtr l = make_shared_ptr<Leaf>(); l->v = sx_u16("v"); const any a(static_cast<ISerializablePtr>(l)); SX_ASSERT(a.IsSerializable(), "an object cannot be written"); Tree t(Factory::Instance().GetRootContext()); t.Serialize(a); ObjectIStream(t.Root.get(), NULL, Factory::Instance().GetRootContext()).Deserialize(old); ISerializablePtr* p = any_cast<ISerializablePtr>(&old); SX_ASSERT(p && *p && *p != l, "an object is not read back as a new one"); SX_ASSERT(dynamic_cast<Leaf&>(**p).v == l->v, "an object read back differs"); break; }
	default: { struct Odd { int x; bool operator == (const Odd& o) const { return x == o.x; } } o = { 4 }; const any a(o); SX_ASSERT(!a.IsSerializable() && SX_THROWS(Save(a)), "an object that cannot be written is written"); SX_ASSERT(any_cast<Odd>(a) == o, "the object is lost"); SettingsValueMap m; m["type"] = make_self_count_ptr<SettingsValue>(std::string("no such kind")); SX_ASSERT(SX_THROWS(Load(make_self_count_ptr<SettingsValue>(m), old)), "an unknown kind is read"); { any c(old); old = (short)5; } SX_ASSERT(any_cast<short>(old) == 5, "a value that could not be read cannot be used again"); break; }
	}
	sx_reach("anys");
}
SX_ENTRY(cut_anys)
{
	// a value that is not there, or of another kind: refused, and the value stays usable
	any old; switch (sx_choose("old", 3)) { case 0: break; case 1: old = std::string("old text, long enough to be kept elsewhere"); break; default: old = Octets(3, 1); }
	any a; switch (sx_choose("type", 4)) { case 0: a = (int)sx_u32("v"); break; case 1: a = text("t"); break; case 2: a = Octets(2, sx_u8("b")); break; default: a = sx_bool("b"); }
	SettingsValueSelfCountPtr s = Save(a); SettingsValueMap& m = s->get<SettingsValueMap>(); std::vector<std::string> names; for (auto& e : m) names.push_back(e.first); const std::string n = names[sx_choose("member", (int)names.size())];
	if (sx_choose("how", 2)) m.erase(n); else m[n] = make_self_count_ptr<SettingsValue>(SettingsValueList());
	const bool f = SX_THROWS(Load(s, old)); SX_ASSERT(f || n == "obj", "a value without its kind, or of no kind, is read");
	{ any c(old), d; d = c; } old = std::string("new"); SX_ASSERT(any_cast<std::string>(old) == "new", "a value that could not be read cannot be used again"); sx_reach("cut");
}
SX_ENTRY(times)
{
	const s64 v = sx_s64("v");
	switch (sx_choose("kind", 7))
	{
	case 0: Both(Time(v), Time(5)); break;
	case 1: Both(TimeDuration::FromMicroseconds(v), TimeDuration(7)); break;
	case 2: { sx_assume_((v >= -9223372036854775ll) & (v <= 9223372036854775ll)); struct O { s64 ms; void Serialize(ObjectOStream& ar) const { ar.Serialize("ms", ms); } } o = { v }; TimeDuration d(7); Load(Save(o), d); SX_ASSERT(d.GetMicroseconds() == v * 1000, "a length of time written in milliseconds is read as another one"); break; }
	case 3: { const int m = (int)(sx_u16("m") % 1441) - 720; Both(TimeZone((s16)m), TimeZone(3)); break; }
	case 4: { const Size a((int)v, (int)(v >> 32)); Size b(1, 2); Load(Save(a), b); SX_ASSERT(b.Width == a.Width && b.Height == a.Height, "a size read back differs"); break; }
	case 5: { const SizeScale a((int)v, (int)(v >> 32)); SizeScale b(1, 2); Load(Save(a), b); SX_ASSERT(b.WidthScale == a.WidthScale && b.HeightScale == a.HeightScale, "a scale read back differs"); break; }
	default: { struct O { void Serialize(ObjectOStream& ar) const { ar.Serialize("x", 1); } } o; TimeDuration d(7); TimeZone z(3); Time t(5); SX_ASSERT(SX_THROWS(Load(Save(o), d)) && d == TimeDuration(7) && SX_THROWS(Load(Save(o), z)) && z == TimeZone(3) && SX_THROWS(Load(Save(o), t)) && t == Time(5), "a moment that is not there is read"); break; }
	}
	sx_reach("times");
}
template <typename S_> static void SetRun(S_ a, S_ b) { const int n = sx_choose("n", 4), o = sx_choose("old", 3); for (int i = 0; i < n; ++i) a->Add(i * 2); for (int i = 0; i < o; ++i) b->Add(i); Load(Save(*a), *b); SX_ASSERT(b->GetCount() == (size_t)n, "number of elements read back"); for (int i = 0; i < n; ++i) SX_ASSERT(b->Contains(i * 2), "elements read back"); }
struct SeesSet { typedef void RetType; std::set<int>* seen; void operator () (CollectionOp op, const int& v) const { if (op == CollectionOp::Removed) { SX_ASSERT(seen->erase(v), "the removal of a stranger is reported"); } else SX_ASSERT(seen->insert(v).second, "an element is reported twice"); } };
SX_ENTRY(observed_sets)
{
	auto a = make_shared_ptr<SortedObservableSet<int> >(), b = make_shared_ptr<SortedObservableSet<int> >(); std::set<int> seen; const SeesSet s = { &seen }; const Token tok = b->OnChanged().connect(function<void (CollectionOp, const int&)>(s));
	SetRun(a, b); SX_ASSERT(seen.size() == b->GetCount(), "observers see other elements than were read"); for (int i : seen) SX_ASSERT(b->Contains(i), "observers see other elements than were read"); sx_reach("sets");
}
struct Keeper : public virtual IObjectSerializator { mutable std::vector<ISerializablePtr> objs; mutable std::string names; PrimaryKeyType GetKey(const std::string& c, const ISerializablePtr& v) const override { names = c; objs.push_back(v); return (int)objs.size() + 100; } ISerializablePtr GetObject(const std::string& c, PrimaryKeyType k) const override { SX_ASSERT(c == names, "an object of another class is sought"); return k > 100 && (size_t)k <= objs.size() + 100 ? objs[k - 101] : ISerializablePtr(); } void ReleaseRef(const std::string&, PrimaryKeyType) const override { } };
struct Holder : public virtual ISerializable, public virtual IFactoryObject { LeafPtr a, b; u8 n; Holder() : n(0) { } std::string GetClassName() const override { return "Holder"; } void Serialize(ObjectOStream& ar) const override { ar.Serialize("a", a).Serialize("n", n).Serialize("b", b); } void Deserialize(ObjectIStream& ar) override { ar.Deserialize("a", a).Deserialize("n", n).Deserialize("b", b); } };
SX_ENTRY(kept_objects)
{
	// objects kept in a collection are written as keys, and found again by them; the one at the top is written itself
	const FactoryContextPtr ctx = make_shared_ptr<FactoryContext>(); ctx->Register<Leaf>("Leaf"); ctx->Register<Holder>("Holder"); Keeper k; const bool top = sx_choose("top", 2) != 0, second = sx_choose("second", 2) != 0;
	const shared_ptr<Holder> h = make_shared_ptr<Holder>(); h->n = sx_u8("n"); h->a = make_shared_ptr<Leaf>(); h->a->v = sx_u16("v"); if (second) { h->b = make_shared_ptr<Leaf>(); h->b->v = sx_u16("w"); }
	Tree t(ctx, &k, top); t.Serialize(h); SX_ASSERT(t.Done(), "written");
	if (!top) { SX_ASSERT(k.objs.size() == 1 && k.objs[0] == h, "an object is not written as its key"); shared_ptr<Holder> r; ObjectIStream(t.Root.get(), &k, ctx).Deserialize(r); SX_ASSERT(r == h, "another object is found by the key"); }
	else
	{
		SX_ASSERT(k.objs.size() == (second ? 2u : 1u) && k.objs[0] == h->a && (!second || k.objs[1] == h->b), "objects inside are not written as their keys");
		shared_ptr<Holder> r; ObjectIStream(t.Root.get(), &k, ctx).Deserialize(r); SX_ASSERT(r && r != h && r->n == h->n && r->a == h->a && r->b == h->b, "an object with others inside is read back otherwise");
		k.objs.clear(); shared_ptr<Holder> g; SX_ASSERT(SX_THROWS(ObjectIStream(t.Root.get(), &k, ctx).Deserialize(g)), "a key of nothing gives an object");
	}
	sx_reach("kept");
}
