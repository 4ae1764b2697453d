// Compression: what the decompressor yields is what went into the compressor.
#include "sx.h"
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/io/IDataSource.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/thread/DummyCancellationToken.h>
#include <stingraykit/compression/ppm/PpmDictionaryFactory.h>
#include <stingraykit/compression/ppm/PpmDictionary.h>
#include <string.h>
using namespace stingray;
struct Bits { u8 b[256]; size_t n; };
struct Put { Bits* s; void operator()(bool x) const { s->b[s->n++] = x; } };
// past the end of the stream the decoder sees whatever follows it
struct Get { const Bits* s; size_t* p; const u8* tail; bool operator()() const { const size_t i = (*p)++; return i < s->n ? s->b[i] : (tail[(i - s->n) / 8 % 8] >> (7 - (i - s->n) % 8)) & 1; } };
SX_ENTRY(coder)
{
	static const u32 Scales[8] = { 2, 256, 32768, 3, 7, 259, 1000, 65521 };
	const int n = 1 + sx_choose("n", sx_tier() ? 4 : 3); u32 lo[4], hi[4]; Bits s; s.n = 0; Put put = { &s }; ArithmeticCoder c; const u32 k = sx_choose("scale", 8), sc = Scales[k];
	static u8 tail[8]; if (n < 3 || sx_choose("tail", 2)) sx_bytes(tail, 4, "tail"); else memset(tail, 255, 8);
	for (int i = 0; i < n; ++i)
	{
		if (n == 1 && k < 3) { lo[i] = (u32)sx_range("lo", 0, sc - 1); hi[i] = (u32)sx_range("hi", 1, sc); SX_ASSUME(lo[i] < hi[i]); }
		else { const u32 L[6] = { 0, 1, sc / 2, sc / 2 + 1, sc - 2, sc - 1 }, W[3] = { 1, 2, sc }; lo[i] = std::min(sc - 1, L[sx_choose("lo", n < 3 ? 6 : 4)]); hi[i] = std::min(sc, lo[i] + W[sx_choose("width", i == 0 ? 3 : 2)]); }
		c.Encode(lo[i], hi[i], sc, put);
	}
	c.EndOfData(put); SX_ASSERT(s.n <= 96, "more bits than the symbols need");
	size_t p = 0; Get g = { &s, &p, tail }; ArithmeticDecoder d(g);
	for (int i = 0; i < n; ++i) { const u32 v = d.GetProbability(sc); SX_ASSERT(sx_and(v >= lo[i], v < hi[i]), "a decoded symbol differs from the encoded one"); d.SymbolDecoded(lo[i], hi[i], sc, g); }
	sx_observe(s.n); sx_reach("coded");
}
// consumes any number of bytes it is offered, possibly none
struct Sink { u8* d; size_t* n; bool free; size_t operator()(ConstByteData x) const { const size_t k = free ? sx_conc(sx_range("take", 0, x.size())) : x.size(); for (size_t i = 0; i < k; ++i) d[(*n)++] = x[i]; return k; } };
SX_ENTRY(bits_out)
{
	static u8 in[16], out[64]; sx_bytes(in, 8, "in"); BitsToBytesBuffer<2> b; size_t added = 0, got = 0;
	for (int i = 0; i < (sx_tier() ? 4 : 3); ++i)
	{
		SX_ASSERT(b.GetDataSizeBits() == added - got * 8 && b.GetFreeSizeBits() == 16 - (added - got * 8), "size of buffered bits");
		size_t k = sx_choose("k", 17); if (k > b.GetFreeSizeBits()) sx_end_path(); for (; k; --k, ++added) b.AddBit((in[added / 8] >> (7 - added % 8)) & 1);
		if (sx_choose("consume", 2)) { Sink s = { out, &got, true }; const size_t g0 = got; const bool r = b.ConsumeBytes(s); SX_ASSERT(r == (got != g0), "consumption is not reported as it was"); }
	}
	bool done = false; Sink s = { out, &got, true }; for (int i = 0; i < 4 && !done; ++i) { s.free = i < 2; done = b.EndOfData(s); }
	SX_ASSERT(done, "the bits left over are never handed over"); SX_ASSERT(got == (added + 7) / 8, "number of bytes differs from the bits added");
	u8 x = 0; for (size_t i = 0; i < got; ++i) { u8 w = in[i]; if (i * 8 + 8 > added) w &= (u8)(0xFF << (i * 8 + 8 - added)); x |= (u8)(out[i] ^ w); }
	SX_ASSERT(x == 0, "bytes differ from the bits added"); sx_observe(got); sx_reach("bits");
}
SX_ENTRY(bits_in)
{
	static u8 in[24]; sx_bytes(in, 16, "in"); BytesToBitsBuffer<2> b; size_t added = 0, got = 0; u8 x = 0;
	for (int i = 0; i < (sx_tier() ? 5 : 4); ++i)
	{
		SX_ASSERT(b.GetDataSizeBits() == added * 8 - got && b.GetFreeSizeBytes() == (16 - (added * 8 - got)) / 8, "size of buffered bits");
		if (sx_choose("op", 2)) { const size_t k = sx_choose("k", 4), f = b.GetFreeSizeBytes(); const size_t a = b.AddBytes(ConstByteData(in + added, k)); SX_ASSERT(a <= k && a <= f && (a != 0 || k == 0 || f == 0), "bytes accepted"); added += a; }
		else { size_t k = 1 + sx_choose("n", 16); if (k > added * 8 - got) sx_end_path(); for (; k; --k, ++got) x |= (u8)(b.GetBit() ^ ((in[got / 8] >> (7 - got % 8)) & 1)); }
	}
	SX_ASSERT(x == 0, "bits differ from the bytes added"); sx_observe(got); sx_reach("bits");
}
// a source of given bytes, in pieces, which goes on where its consumer stopped
struct Src : public virtual IDataSource
{
	const u8* d; size_t n, pos, piece;
	Src(const u8* d_, size_t n_, size_t p) : d(d_), n(n_), pos(0), piece(p) { }
	virtual void Read(IDataConsumer& c, const ICancellationToken& t)
	{
		while (pos < n) { const size_t k = std::min(piece, n - pos); const size_t r = c.Process(ConstByteData(d + pos, k), t); SX_ASSERT(r <= k, "consumed more than was offered"); pos += r; if (!r) return; }
		c.EndOfData(t);
	}
};
// takes what it is offered, refuses call number `refuse`, or takes one byte at a time
struct Dst : public virtual IDataConsumer
{
	u8 d[4096]; size_t n; int eod; int calls, refuse; size_t most;
	Dst(int r, size_t m) : n(0), eod(0), calls(0), refuse(r), most(m) { }
	virtual size_t Process(ConstByteData x, const ICancellationToken&) { SX_ASSERT(!eod, "data after the end"); if (calls++ == refuse) return 0; const size_t k = std::min(most, x.size()); SX_ASSERT(n + k <= sizeof d, "endless data"); memcpy(d + n, x.data(), k); n += k; return k; }
	virtual void EndOfData(const ICancellationToken&) { ++eod; }
};
static void Drain(IDataSource& s, Dst& d) { DummyCancellationToken t; for (int i = 0; i < 4 && !d.eod; ++i) s.Read(d, t); SX_ASSERT(d.eod == 1, "the end of data is not reported once"); }
template <typename Models_> static void Pack(const u8* train, size_t nt, const u8* data, size_t n, size_t low, size_t high, size_t fin, int refuse, int drefuse, size_t most, size_t piece)
{
	typedef PpmDictionaryFactory<PpmConfig<u8, u32>, Models_> Factory;
	ICompressionDictionaryPtr dict; { Factory f(low, high, fin); ICompressionDictionaryBuilderPtr b = f.CreateBuilder(); b->Process(ConstByteData(train, nt / 2)); b->Process(ConstByteData(train + nt / 2, nt - nt / 2)); dict = b->Finish(); }
	static u8 comp[4096]; size_t nc;
	{ Dst d(refuse, most); ICompressorPtr c = dict->Compress(make_shared_ptr<Src>(data, n, piece)); Drain(*c, d); nc = d.n; memcpy(comp, d.d, nc); }
	{ Dst d(drefuse, 4096); IDecompressorPtr c = dict->Decompress(make_shared_ptr<Src>(comp, nc, piece == 1 ? 4096 : 1)); Drain(*c, d); SX_ASSERT(d.n == n, "decompressed data have another length"); u8 x = 0; for (size_t i = 0; i < n; ++i) x |= (u8)(d.d[i] ^ data[i]); SX_ASSERT(x == 0, "decompressed data differ from the compressed ones"); }
	sx_observe(nc); sx_reach("packed");
}
typedef TypeList<PpmModelConfig<2, u8>, PpmModelConfig<1, u8>, PpmModelConfig<0, u8> > Three;
typedef TypeList<PpmModelConfig<1, u16>, PpmModelConfig<0, u16> > Two;
typedef TypeList<PpmModelConfig<0, u8> > One;
static size_t Fill(u8* d, const char* name, size_t lo, size_t hi, int letters) { static const u8 A[3] = { 0, 'a', 255 }; const size_t n = lo + sx_choose(name, hi - lo + 1); for (size_t i = 0; i < n; ++i) d[i] = A[sx_choose("c", letters)]; return n; }
SX_ENTRY(ppm)
{
	static u8 t[8], d[8]; const size_t nt = Fill(t, "train", 1, 3, 2), n = Fill(d, "data", 0, sx_tier() ? 3 : 2, 3); const size_t big = 1 << 20;
	switch (sx_choose("models", 3)) { case 0: Pack<Three>(t, nt, d, n, big, big, big, -1, -1, 4096, 2); break; case 1: Pack<Two>(t, nt, d, n, big, big, big, -1, -1, 4096, 1); break; default: Pack<One>(t, nt, d, n, big, big, big, -1, -1, 4096, 2); }
}
SX_ENTRY(ppm_refused)
{
	static const u8 t[6] = { 'a', 'b', 'a', 'c', 'a', 'b' }; static u8 d[8]; const size_t n = Fill(d, "data", 0, 2, 3); const size_t big = 1 << 20; const int r = (int)sx_choose("refuse", 4) - 1, dr = (int)sx_choose("drefuse", 4) - 1;
	Pack<Three>(t, 6, d, n, big, big, big, r, dr, sx_choose("most", 2) ? 1 : 4096, 1);
}
SX_ENTRY(ppm_compact)
{
	static u8 t[8], d[8]; const size_t nt = Fill(t, "train", 2, 4, 2), n = Fill(d, "data", 1, 2, 2); const size_t low = 120 + 80 * sx_choose("low", 4), fin = 30 + 20 * sx_choose("fin", 4);
	Pack<Three>(t, nt, d, n, low, low + 100, fin, -1, -1, 4096, 2);
}
// longer than the buffers of bits
SX_ENTRY(ppm_long)
{
	static u8 t[16], d[1200]; for (size_t i = 0; i < 16; ++i) t[i] = (u8)(i & 3); const size_t n = (sx_tier() ? 1100 : 950) + sx_choose("n", sx_tier() ? 8 : 1); u32 r = 1; for (size_t i = 0; i < n; ++i) { r = r * 1103515245 + 12345; d[i] = (u8)(r >> 16); }
	const size_t big = 1 << 20; Pack<Two>(t, 16, d, n, big, big, big, (int)sx_choose("refuse", 2) - 1, 500, 4096, 100);
}
// every byte, and symbols so frequent that their counts are scaled down
SX_ENTRY(ppm_scaled)
{
	static u8 t[640], d[4]; static const u16 K[5] = { 253, 255, 256, 300, 600 }; const size_t k = K[sx_choose("k", 5)], big = 1 << 20; memset(t, 'a', k); t[k / 2] = 'b'; t[k] = 'b'; size_t n; const bool any = sx_choose("any", 2) && (k < 256 || sx_tier());
	if (any) { d[0] = sx_u8("byte"); n = 1; } else n = Fill(d, "data", 0, 2, 2);
	if (any) { d[0] = (u8)sx_conc(d[0]); } else for (size_t i = 0; i < n; ++i) if (d[i] == 0) d[i] = 'b';
	switch (any ? 2 : sx_choose("models", 3)) { case 0: Pack<Three>(t, k + 1, d, n, big, big, big, -1, -1, 4096, 2); break; case 1: Pack<Two>(t, k + 1, d, n, big, big, big, -1, -1, 4096, 1); break; default: Pack<One>(t, k + 1, d, n, big, big, big, -1, -1, 4096, 2); }
}
