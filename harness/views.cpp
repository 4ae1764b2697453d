// Byte views: owning arrays, non-owning data, owners, and slices of them.
#include "sx.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/BytesOwner.h>
#include <cstring>
using namespace stingray;
static const size_t N = 6;
static size_t Sz(const char* n) { return (size_t)sx_u64(n); }
// slice of plain data by (offset) or (offset, size)
SX_ENTRY(view_data)
{
	u8 b[N]; sx_bytes(b, N, "b"); const size_t n = sx_choose("n", N + 1);
	ConstByteData d(b, n);
	const size_t off = Sz("off"), size = Sz("size"); const bool two = sx_bool("two");
	const bool fits = two ? off <= n && size <= n - off : off <= n;
	const u8* p = nullptr; size_t got = 0; bool threw = false;
	try { ConstByteData s = two ? ConstByteData(d, off, size) : ConstByteData(d, off); p = s.data(); got = s.size(); } catch (const std::exception&) { threw = true; }
	SX_ASSERT(threw == !fits, "slice outside the data accepted, or a valid one refused");
	if (!threw) { SX_ASSERT(got == (two ? size : n - off), "slice has a wrong size"); SX_ASSERT(p == b + off, "slice starts at a wrong byte"); }
	sx_observe(threw); sx_observe(got);
}
// index and iterator access
SX_ENTRY(view_access)
{
	u8 b[N]; sx_bytes(b, N, "b"); const size_t n = sx_choose("n", N + 1);
	ConstByteData d(b, n); const size_t i = Sz("i");
	u8 v = 0; bool t = SX_THROWS(v = d[i]); SX_ASSERT(t == (i >= n), "index check of byte data"); if (!t) SX_ASSERT(v == b[i], "wrong byte");
	ByteArray a(b, n); t = SX_THROWS(v = a[i]); SX_ASSERT(t == (i >= n), "index check of byte array"); if (!t) SX_ASSERT(v == b[i], "wrong byte in the array");
	const int k = (int)sx_choose("k", N + 3) - 1; auto it = d.begin(); it += k;
	t = SX_THROWS(v = *it); SX_ASSERT(t == (k < 0 || k >= (int)n), "iterator outside the data dereferenced"); if (!t) SX_ASSERT(v == b[k], "wrong byte through iterator");
	SX_ASSERT((size_t)std::distance(d.begin(), d.end()) == n, "distance of iterators");
	size_t r = 0; for (auto q = d.rbegin(); q != d.rend(); ++q, ++r) SX_ASSERT(*q == b[n - 1 - r], "reverse iteration");
	SX_ASSERT(r == n, "reverse iteration length");
	sx_observe(n);
}
// two levels of array slices: a view is exactly the requested window of its parent, and never more
SX_ENTRY(view_array)
{
	u8 b[N]; sx_bytes(b, N, "b"); const size_t n = sx_choose("n", N + 1);
	ByteArray base(b, n);
	size_t lo = 0, len = n; ByteArray cur(base);
	bool dead = false;
	for (int lvl = 0; lvl < 2 && !dead; ++lvl)
	{
		const size_t off = Sz("off"); const bool two = sx_bool("two"), mv = lvl == 0 && two; const size_t size = two ? Sz("size") : 0;
		if (two) SX_ASSUME(size != ~(size_t)0); // the array's own "no limit" value
		const bool fits = off <= len && (!two || size <= len - off);
		bool threw = false; ByteArray from(cur); ByteArray next;
		try { next = two ? (mv ? ByteArray(std::move(from), off, size) : ByteArray(from, off, size)) : (mv ? ByteArray(std::move(from), off) : ByteArray(from, off)); } catch (const std::exception&) { threw = true; }
		SX_ASSERT(threw == !fits, "slice outside its parent accepted, or a valid one refused");
		if (threw) { dead = true; break; }
		const size_t coff = sx_conc(off);
		lo += coff; len = two ? sx_conc(size) : len - coff; cur = next;
		SX_ASSERT(cur.size() == len, "slice of an array has a wrong size");
		size_t i = 0; for (auto it = cur.begin(); it != cur.end(); ++it, ++i) SX_ASSERT(*it == b[lo + i], "slice shows wrong bytes");
		SX_ASSERT(i == len, "slice iteration length");
		ConstByteData d(cur); SX_ASSERT(d.size() == len && (len == 0 || d.data() == base.data() + lo), "data view of a slice");
		if (len) { cur[0] = (u8)(b[lo] + 1); SX_ASSERT(base[lo] == (u8)(b[lo] + 1), "slice does not share storage"); cur[0] = b[lo]; }
		if (lvl != 0) continue;
		const size_t o2 = Sz("o2"), s2 = Sz("s2"); bool t = SX_THROWS(ConstByteData(cur, o2, s2)); SX_ASSERT(t == !(o2 <= len && s2 <= len - o2), "data slice of an array view");
	}
	sx_observe(len); sx_observe(dead);
}
static int cmp(const u8* a, size_t n, const u8* b, size_t m) { for (size_t i = 0; i < n && i < m; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return n < m ? -1 : n > m; }
SX_ENTRY(view_compare)
{
	u8 a[3], b[3]; sx_bytes(a, 3, "a"); sx_bytes(b, 3, "b"); const size_t n = sx_choose("n", 4), m = sx_choose("m", 4);
	const int c = cmp(a, n, b, m);
	ConstByteData x(a, n), y(b, m); SX_ASSERT((x == y) == (c == 0) && (x != y) == (c != 0) && (x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "byte data comparison");
	ByteArray p(a, n), q(b, m); SX_ASSERT((p == q) == (c == 0) && (p < q) == (c < 0) && (p > q) == (c > 0) && (p <= q) == (c <= 0), "byte array comparison");
	sx_observe(c + 1);
}
// appending and growing an array keeps earlier bytes
SX_ENTRY(view_grow)
{
	u8 b[8]; sx_bytes(b, 8, "b"); ByteArray a; size_t len = 0; u8 model[32];
	for (int s = 0; s < 3; ++s)
		switch (sx_choose("op", 3))
		{
		case 0: { const size_t k = sx_choose("k", 4); a.append(b + s, b + s + k); memcpy(model + len, b + s, k); len += k; break; }
		case 1: { const size_t k = sx_choose("k", 6); a.RequireSize(k); if (k > len) { memset(model + len, 0, k - len); len = k; } break; }
		default: { ByteArray o(b, 2); a.append(o); memcpy(model + len, b, 2); len += 2; break; }
		}
	SX_ASSERT(a.size() == len, "array size"); for (size_t i = 0; i < len; ++i) SX_ASSERT(a[i] == model[i], "array contents changed while growing");
	sx_observe(len);
}
// conversions between kinds of arrays and views keep the window
SX_ENTRY(view_convert)
{
	u8 b[4]; sx_bytes(b, 4, "b"); const size_t off = sx_choose("off", 5), len = sx_choose("len", 5 - (u32)off); ByteArray a(b, 4); const bool lim = sx_bool("lim"); ByteArray s(lim ? ByteArray(a, off, len) : ByteArray(a, off)); const size_t n = lim ? len : 4 - off; ConstByteArray c;
	switch (sx_choose("how", 8))
	{
	case 0: c = ConstByteArray(s); break;
	case 1: c = ConstByteArray(std::move(s)); break;
	case 2: { ByteArray t(std::move(s)); c = t; break; }
	case 3: { ByteArray t; t = std::move(s); c = t; break; }
	case 4: { ByteArray t(2); t.swap(s); c = t; SX_ASSERT(s.size() == 2, "size after swap"); break; }
	case 5: { ConstByteArray t(s); c = std::move(t); break; }
	case 6: c = ConstByteArray(s.begin(), s.end()); break;
	default: { ConstByteArray t(s); c = ConstByteArray(t, 0); break; }
	}
	SX_ASSERT(c.size() == n && c.empty() == (n == 0), "size after a conversion"); for (size_t i = 0; i < n; ++i) SX_ASSERT(c[i] == b[off + i], "bytes after a conversion");
	SX_ASSERT(SX_THROWS(c[n]), "byte past the end of a converted slice"); ConstByteData d(c); SX_ASSERT(d.size() == n, "view of a converted slice"); sx_observe(n);
}
// growing through a slice: the slice shares the storage from its offset on
SX_ENTRY(view_grow_slice)
{
	u8 b[8]; sx_bytes(b, 8, "b"); const size_t n = sx_choose("n", 4), off = sx_choose("off", n + 1); ByteArray a(b, n), s(a, off); size_t len = n - off; u8 model[32]; memcpy(model, b + off, len);
	for (int i = 0; i < 2; ++i)
		switch (sx_choose("op", 4))
		{
		case 0: { const size_t k = sx_choose("k", 4); s.append(b, b + k); memcpy(model + len, b, k); len += k; break; }
		case 1: { const size_t k = sx_choose("k", 6); s.RequireSize(k); if (k > len) { memset(model + len, 0, k - len); len = k; } break; }
		case 2: { s.reserve(sx_choose("k", 20)); break; }
		default: { const u8 v = sx_u8("v"); if (len) { s[len - 1] = v; model[len - 1] = v; } break; }
		}
	SX_ASSERT(s.size() == len && a.size() == off + len, "size after growing through a slice"); for (size_t i = 0; i < len; ++i) SX_ASSERT(s[i] == model[i] && a[off + i] == model[i], "bytes after growing through a slice"); for (size_t i = 0; i < off; ++i) SX_ASSERT(a[i] == b[i], "bytes before the slice changed");
	ByteArray lim(a, 0, off); SX_ASSERT(SX_THROWS(lim.RequireSize(1)) && SX_THROWS(lim.append(b, b + 1)), "grew an array of limited size"); sx_observe(len);
}
// every way an owner can be made from another keeps the bytes alive, and only as long as needed
SX_ENTRY(owner_life)
{
	const u64 live = sx_heap_live();
	{
		const u8 v = sx_u8("v"); ConstBytesOwner view; size_t off = 0, len = 4;
		{
			BytesOwner o = BytesOwner::Create(4); for (size_t i = 0; i < 4; ++i) o[i] = (u8)(v + i); const u32 how = sx_choose("how", 10);
			if (how == 1 || how == 3) { off = sx_choose("off", 5); len = 4 - off; } if (how == 2 || how == 4) { off = sx_choose("off", 5); len = sx_choose("len", 5 - (u32)off); }
			switch (how)
			{
			case 0: view = ConstBytesOwner(o); break;
			case 1: view = ConstBytesOwner(o, off); break;
			case 2: view = ConstBytesOwner(o, off, len); break;
			case 3: view = ConstBytesOwner(std::move(o), off); break;
			case 4: view = ConstBytesOwner(std::move(o), off, len); break;
			case 5: view = ConstBytesOwner(std::move(o)); break;
			case 6: { BytesOwner p(o); o = BytesOwner(); view = p; break; }
			case 7: { BytesOwner p(std::move(o)); view = std::move(p); break; }
			case 8: { BytesOwner p(BytesOwner(o, 1), 1, 1); off = 2; len = 1; view = p; break; }
			default: view = ConstBytesOwner::Create(ConstByteData(o)); o[0] = (u8)(v + 1); break;
			}
		}
		SX_ASSERT(view.size() == len, "size of a view made from an owner"); for (size_t i = 0; i < len; ++i) SX_ASSERT(view[i] == (u8)(v + off + i), "bytes of a view made from an owner");
	}
	SX_ASSERT(sx_heap_live() == live, "storage of released owners is not freed"); sx_reach("owner_life");
}
SX_ENTRY(view_owner)
{
	const size_t n = sx_choose("n", 5), off = Sz("off"), size = Sz("size"); const u64 live = sx_heap_live();
	{
		BytesOwner view; const u8 v = sx_u8("v"); bool threw = false;
		{
			BytesOwner o = BytesOwner::Create(n); SX_ASSERT(o.size() == n, "owner size");
			for (size_t i = 0; i < n; ++i) o[i] = (u8)(v + i);
			try { view = BytesOwner(o, off, size); } catch (const std::exception&) { threw = true; }
		}
		SX_ASSERT(threw == !(off <= n && size <= n - off), "slice of an owner");
		if (!threw) { SX_ASSERT(view.size() == size, "slice size of an owner"); for (size_t i = 0; i < size; ++i) SX_ASSERT(view[i] == (u8)(v + off + i), "bytes of an owner's slice"); }
	}
	SX_ASSERT(sx_heap_live() == live, "storage of a released owner is not freed");
	sx_observe(n);
}
