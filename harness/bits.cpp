// Bit-field getters/setters and bit streams against a bit-by-bit specification.
#include "sx.h"
#include <stingraykit/BitsGetter.h>
#include <stingraykit/io/BitStream.h>
#include <stingraykit/collection/ByteData.h>
#include <string.h>
using namespace stingray;
typedef unsigned __int128 u128;

static const size_t N = 12;
// value of the Size bits starting at bit Off (MSB first), from the bytes
template <size_t Off, size_t Size> static u64 Field(const u8* b)
{
	u128 r = 0; const size_t first = Off / 8, last = (Off + Size + 7) / 8;
	for (size_t i = first; i < last; ++i) r = (r << 8) | b[i];
	r >>= (last * 8 - Off - Size);
	return (u64)(r & ((Size == 64) ? ~(u64)0 : (((u64)1 << (Size % 64)) - 1)));
}
template <size_t Size> static u64 Mask() { return Size == 64 ? ~(u64)0 : (((u64)1 << (Size % 64)) - 1); }
// little-endian meaning of a field whose MSB-first reading is v: its bytes, in order, are least significant first
template <size_t Size> static u64 Le(u64 v)
{
	u64 r = 0; size_t done = 0, sh = 0;
	while (done < Size) { size_t n = Size - done < 8 ? Size - done : 8; u64 byte = (v >> (Size - done - n)) & (((u64)1 << n) - 1); r |= (byte << (8 - n)) << sh; sh += 8; done += n; }
	return r;
}
template <size_t Off, size_t Size, typename T> static void GetCase(u8* b)
{
	ConstByteData d(b, N);
	const T be = BitsGetter(d).Get<Off, Size>();
	SX_ASSERT((u64)be == (u64)(T)Field<Off, Size>(b), "big-endian field read differs from the bits in the buffer");
	SX_ASSERT((u64)(T)UnsafeBitsGetter(Detail::UnsafeConstByteData(b)).template Get<Off, Size>() == (u64)be, "unchecked read differs from checked read");
	sx_observe(be);
}
template <size_t Off, size_t Size, typename T> static void GetLeCase(u8* b)
{
	ConstByteData d(b, N);
	const T le = LittleEndianBitsGetter(d).Get<Off, Size>();
	SX_ASSERT((u64)le == Le<Size>(Field<Off, Size>(b)), "little-endian field read differs from the bits in the buffer");
	sx_observe(le);
}
template <size_t Off, size_t Size, typename T> static void CheckSet(const u8* before, const u8* after, u64 expect)
{
	SX_ASSERT((Field<Off, Size>(after)) == expect, "written field holds a different value");
	u8 diff = 0; // bits outside the field are unchanged
	for (size_t i = 0; i < N; ++i)
	{
		u8 m = 0;
		for (size_t k = 0; k < 8; ++k) if (i * 8 + k < Off || i * 8 + k >= Off + Size) m |= (u8)(0x80 >> k);
		diff |= (u8)((before[i] ^ after[i]) & m);
	}
	SX_ASSERT(diff == 0, "writing a field changed bits outside it");
}
template <size_t Off, size_t Size, typename T> static void SetCase(const u8* b, T val)
{
	u8 w[N]; memcpy(w, b, N);
	BitsSetter(ByteData(w, N)).Set<Off, Size>(val);
	CheckSet<Off, Size, T>(b, w, (u64)val & Mask<Size>());
	u8 w2[N]; memcpy(w2, b, N);
	UnsafeBitsSetter(Detail::UnsafeByteData(w2)).Set<Off, Size>(val);
	SX_ASSERT(memcmp(w, w2, N) == 0, "unchecked write differs from checked write");
	sx_observe(w[Off / 8]); sx_observe(w[(Off + Size - 1) / 8]);
}
template <size_t Off, size_t Size, typename T> static void SetLeCase(const u8* b, T val)
{
	u8 w[N]; memcpy(w, b, N);
	// only values representable in the field: the getter's image
	SX_ASSUME(Le<Size>(Field<0, Size>(b)) == Le<Size>(Field<0, Size>(b)));
	LittleEndianBitsSetter(ByteData(w, N)).Set<Off, Size>(val);
	const u64 raw = Field<Off, Size>(w);
	CheckSet<Off, Size, T>(b, w, raw);
	u64 mask = Le<Size>(Mask<Size>());
	SX_ASSERT(Le<Size>(raw) == ((u64)val & mask), "little-endian write does not store the value its reader returns");
	const T back = LittleEndianBitsGetter(ConstByteData(w, N)).Get<Off, Size>();
	SX_ASSERT((u64)back == ((u64)val & mask), "little-endian write/read round trip changed the value");
	sx_observe(w[Off / 8]); sx_observe(w[(Off + Size - 1) / 8]);
}
template <size_t Off, typename T, size_t... S> static void GetSizes(u8* b) { int x[] = {(GetCase<Off, S, T>(b), 0)...}; (void)x; }
template <size_t Off, typename T, size_t... S> static void SetSizes(const u8* b, T v) { int x[] = {(SetCase<Off, S, T>(b, v), 0)...}; (void)x; }
template <size_t Off, typename T, size_t... S> static void GetLeSizes(u8* b) { int x[] = {(GetLeCase<Off, S, T>(b), 0)...}; (void)x; }
template <size_t Off, typename T, size_t... S> static void SetLeSizes(const u8* b, T v) { int x[] = {(SetLeCase<Off, S, T>(b, v), 0)...}; (void)x; }

template <size_t Off> static void AllGet(u8* b)
{
	GetSizes<Off, u8, 1, 3, 5, 8>(b);
	GetSizes<Off, u16, 9, 12, 15, 16>(b);
	GetSizes<Off, u32, 8, 17, 20, 24, 31, 32>(b);
	GetSizes<Off, u64, 33, 40, 41, 57, 63, 64>(b);
	GetSizes<Off, bool, 1>(b);
}
template <size_t Off> static void AllSet(const u8* b, u64 v)
{
	SetSizes<Off, u8, 1, 3, 5, 8>(b, (u8)v);
	SetSizes<Off, u16, 9, 12, 15, 16>(b, (u16)v);
	SetSizes<Off, u32, 8, 17, 20, 24, 31, 32>(b, (u32)v);
	SetSizes<Off, u64, 33, 40, 41, 57, 63, 64>(b, v);
	SetSizes<Off, s32, 13>(b, (s32)v);
}
template <size_t Off> static void AllLe(u8* b, u64 v)
{
	GetLeSizes<Off, u8, 8>(b); GetLeSizes<Off, u16, 8, 12, 16>(b); GetLeSizes<Off, u32, 16, 20, 24, 32>(b); GetLeSizes<Off, u64, 24, 32, 40, 48, 56, 64>(b);
	SetLeSizes<Off, u8, 8>(b, (u8)v); SetLeSizes<Off, u16, 8, 16>(b, (u16)v); SetLeSizes<Off, u32, 16, 24, 32>(b, (u32)v); SetLeSizes<Off, u64, 24, 32, 40, 48, 56, 64>(b, v);
}
SX_ENTRY(bits_get)
{
	u8 b[N]; sx_bytes(b, N, "b");
	switch (sx_choose("off", 9))
	{
	case 0: AllGet<0>(b); break; case 1: AllGet<1>(b); break; case 2: AllGet<2>(b); break; case 3: AllGet<3>(b); break; case 4: AllGet<4>(b); break; case 5: AllGet<5>(b); break;
	case 6: AllGet<6>(b); break; case 7: AllGet<7>(b); break; case 8: AllGet<11>(b); break;
	}
	sx_reach("get");
}
SX_ENTRY(bits_set)
{
	u8 b[N]; sx_bytes(b, N, "b"); u64 v = sx_u64("v");
	switch (sx_choose("off", 9))
	{
	case 0: AllSet<0>(b, v); break; case 1: AllSet<1>(b, v); break; case 2: AllSet<2>(b, v); break; case 3: AllSet<3>(b, v); break; case 4: AllSet<4>(b, v); break; case 5: AllSet<5>(b, v); break;
	case 6: AllSet<6>(b, v); break; case 7: AllSet<7>(b, v); break; case 8: AllSet<11>(b, v); break;
	}
	sx_reach("set");
}
SX_ENTRY(bits_le)
{
	u8 b[N]; sx_bytes(b, N, "b"); u64 v = sx_u64("v");
	switch (sx_choose("off", 5))
	{
	case 0: AllLe<0>(b, v); break; case 1: AllLe<8>(b, v); break; case 2: AllLe<3>(b, v); break; case 3: AllLe<7>(b, v); break; case 4: AllLe<12>(b, v); break;
	}
	sx_reach("le");
}
// reads and writes outside a buffer of symbolic length are refused and touch nothing
template <size_t Off, size_t Size> static void BoundsCase(u8* b, size_t n)
{
	u8 keep[8]; memcpy(keep, b, 8);
	const bool fits = Off + Size <= n * 8;
	u64 v = 0;
	const bool t1 = SX_THROWS(v = (u64)BitsGetter(ConstByteData(b, n)).Get<Off, Size>());
	SX_ASSERT(t1 == !fits, "out-of-range bit read not refused (or in-range read refused)");
	const bool t2 = SX_THROWS((BitsSetter(ByteData(b, n)).Set<Off, Size>((u64)~0ull)));
	SX_ASSERT(t2 == !fits, "out-of-range bit write not refused (or in-range write refused)");
	if (!fits) SX_ASSERT(memcmp(keep, b, 8) == 0, "refused write changed the buffer");
	const bool t3 = SX_THROWS(v = (u64)LittleEndianBitsGetter(ConstByteData(b, n)).Get<Off, Size>());
	SX_ASSERT(t3 == !fits, "out-of-range little-endian read not refused");
	sx_observe(fits);
}
SX_ENTRY(bits_bounds)
{
	u8 b[8]; sx_bytes(b, 8, "b"); size_t n = sx_choose("n", 9);
	switch (sx_choose("case", 8))
	{
	case 0: BoundsCase<0, 1>(b, n); BoundsCase<0, 8>(b, n); BoundsCase<7, 1>(b, n); break;
	case 1: BoundsCase<7, 2>(b, n); BoundsCase<8, 8>(b, n); break;
	case 2: BoundsCase<8, 16>(b, n); BoundsCase<9, 16>(b, n); break;
	case 3: BoundsCase<0, 32>(b, n); BoundsCase<1, 32>(b, n); break;
	case 4: BoundsCase<0, 64>(b, n); break;
	case 5: BoundsCase<13, 40>(b, n); BoundsCase<16, 40>(b, n); break;
	case 6: BoundsCase<63, 1>(b, n); BoundsCase<56, 8>(b, n); break;
	case 7: BoundsCase<24, 24>(b, n); BoundsCase<31, 9>(b, n); break;
	}
	// byte-data window with an offset: data beyond the window is not reachable
	size_t off = sx_choose("o", 4);
	bool t = SX_THROWS(ConstByteData(ConstByteData(b, n), off));
	SX_ASSERT(t == (off > n), "window start beyond the data must be refused");
	if (off <= n && n - off < 2) { u16 x = 0; SX_ASSERT(SX_THROWS(x = (u16)BitsGetter(ConstByteData(b, n), off).Get<0, 16>()), "read beyond the window"); }
	sx_reach("bounds");
}
// bit stream: a history of writes of symbolic values at arbitrary alignments reads back unchanged
template <int S> struct Wr { template <typename St> static void W(St& st, u64 v) { st.template Write<S>((u64)v); } template <typename St> static u64 R(St& st) { return st.template Read<S>(); } template <typename St> static u64 P(St& st) { return st.template Peek<S>(); } };
template <typename St> static int DoW(St& st, u32 k, u64 v)
{
	switch (k) { case 0: Wr<1>::W(st, v); return 1; case 1: Wr<3>::W(st, v); return 3; case 2: Wr<8>::W(st, v); return 8; case 3: Wr<13>::W(st, v); return 13; case 4: Wr<32>::W(st, v); return 32; default: Wr<64>::W(st, v); return 64; }
}
template <typename St> static u64 DoR(St& st, u32 k)
{
	switch (k) { case 0: { u64 p = Wr<1>::P(st); u64 r = Wr<1>::R(st); SX_ASSERT(p == r, "peek differs from read"); return r; } case 1: return Wr<3>::R(st); case 2: { u64 p = Wr<8>::P(st); u64 r = Wr<8>::R(st); SX_ASSERT(p == r, "peek differs from read"); return r; } case 3: return Wr<13>::R(st); case 4: return Wr<32>::R(st); default: return Wr<64>::R(st); }
}
static u64 MaskN(int n) { return n == 64 ? ~(u64)0 : (((u64)1 << n) - 1); }
SX_ENTRY(bitstream_rt)
{
	const int ops = sx_tier() ? 4 : 3;
	ByteArray ba; SeisedBitStream out(ba); u32 k[4]; u64 v[4]; int total = 0, w[4];
	u32 lead = sx_choose("lead", 8); // start alignment
	for (u32 i = 0; i < lead; ++i) out.Write<1>(1);
	total = lead;
	for (int i = 0; i < ops; ++i)
	{
		k[i] = sx_choose("k", 6); v[i] = sx_u64("v"); w[i] = DoW(out, k[i], v[i]); total += w[i];
		SX_ASSERT(out.GetBitPosition() == (size_t)total, "bit position does not advance by the width written");
	}
	SX_ASSERT(ba.size() == (size_t)(total + 7) / 8, "stream length is not the written length rounded up to bytes");
	ConstSeisedBitStream in(ba); in.Skip(lead);
	for (int i = 0; i < ops; ++i)
	{
		SX_ASSERT(in.CanRead(w[i]), "written bits not readable");
		u64 r = DoR(in, k[i]); SX_ASSERT(r == (v[i] & MaskN(w[i])), "bit stream returned a different value"); sx_observe(r);
	}
	SX_ASSERT(in.GetRemainingBitsCount() == ba.size() * 8 - total, "remaining bit count");
	if (total % 8 == 0) SX_ASSERT(in.AtEnd(), "stream fully read but not at end");
	size_t over = ba.size() * 8 - in.GetBitPosition();
	SX_ASSERT(!in.CanRead(over + 1) && in.CanRead(over), "CanRead does not follow the remaining bits");
	in.Seek(0); for (u32 i = 0; i < lead; ++i) { u8 one = in.Read<1>(); SX_ASSERT(one == 1, "leading bits changed by later writes"); }
	sx_reach("bitstream");
}
SX_ENTRY(bitstream_strings)
{
	ByteArray ba; SeisedBitStream out(ba); u32 lead = sx_choose("lead", 8); u8 lv = sx_u8("lv");
	for (u32 i = 0; i < lead; ++i) out.Write<1>((u8)(lv >> i) & 1);
	u32 n = sx_choose("n", 4); std::string s; for (u32 i = 0; i < n; ++i) { u8 c = sx_u8("c"); s.push_back((char)c); }
	u32 mode = sx_choose("mode", 3);
	if (mode == 0) out.WriteLengthPrefixedString<8>(s);
	else if (mode == 1) out.WriteLengthPrefixedArray<16>(ConstByteData((const u8*)s.data(), s.size()));
	else { for (u32 i = 0; i < n; ++i) SX_ASSUME(s[i] != 0); out.WriteNullTerminatedString(s); }
	out.Write<5>((u8)0x15);
	ConstSeisedBitStream in(ba);
	for (u32 i = 0; i < lead; ++i) { u8 bit = in.Read<1>(); SX_ASSERT(bit == (u8)((lv >> i) & 1), "leading bit changed"); }
	std::string r;
	if (mode == 0) r = in.ReadLengthPrefixedString<8>();
	else if (mode == 1) { ByteArray a = in.ReadLengthPrefixedArray<16>(); r.assign(a.begin(), a.end()); }
	else r = in.ReadNullTerminatedString();
	SX_ASSERT(r.size() == s.size(), "string length changed in the stream");
	for (u32 i = 0; i < n; ++i) { SX_ASSERT(r[i] == s[i], "string content changed in the stream"); sx_observe((u8)r[i]); }
	u8 tail = in.Read<5>(); SX_ASSERT(tail == 0x15, "data after the string is misplaced");
	sx_reach("strings");
}
// deferred writes, rollback and watcher
SX_ENTRY(bitstream_misc)
{
	ByteArray ba; SeisedBitStream out(ba); u32 lead = sx_choose("lead", 8); for (u32 i = 0; i < lead; ++i) out.Write<1>(0);
	u16 a = sx_u16("a"); u8 b = sx_u8("b"); u32 c = sx_u32("c");
	SeisedBitStream::Watcher w(out);
	SeisedBitStream::DeferredWriter<16> dw(out); out.Write<8>(b); dw.Write(a);
	SX_ASSERT(w.GetOffsetDelta() == 24, "watcher delta");
	ConstSeisedBitStream in(ba); in.Seek(lead);
	{ ConstSeisedBitStream::Rollback rb(in); u32 all = in.Read<24>(); SX_ASSERT(all == (((u32)a << 8) | b), "deferred write misplaced"); }
	SX_ASSERT(in.GetBitPosition() == lead, "rollback did not restore the position");
	u16 ra = in.Read<16>(); u8 rb2 = in.Read<8>(); SX_ASSERT(ra == a && rb2 == b, "values differ after rollback"); sx_observe(ra);
	LittleEndianBitStream le(ByteData(ba, 0, 2)); (void)le;
	ByteArray lb; SeisedLittleEndianBitStream lo(lb); lo.Write<32>(c); lo.Write<16>(a); lo.Write<8>(b);
	ConstSeisedLittleEndianBitStream li(lb); u32 rc = li.Read<32>(); u16 rla = li.Read<16>(); u8 rlb = li.Read<8>();
	SX_ASSERT(rc == c && rla == a && rlb == b, "little-endian stream round trip"); SX_ASSERT(lb[0] == (u8)c && lb[3] == (u8)(c >> 24) && lb[4] == (u8)a, "little-endian byte order");
	sx_observe(lb[1]); sx_reach("misc");
}
