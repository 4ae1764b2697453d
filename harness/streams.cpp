// Byte streams, stream adaptors and data sources against a byte-array model.
#include "sx.h"
#include <stingraykit/io/MemoryByteStream.h>
#include <stingraykit/DataPipe.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/PipeDataSource.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteDataConsumer.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/DataSourceReader.h>
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/thread/CancellationToken.h>
#include <string.h>
using namespace stingray;
namespace {
struct Model { u8 d[32]; size_t n = 0, pos = 0; };
size_t sz(const char* n, size_t lo, size_t hi) { return lo + sx_choose(n, (u32)(hi - lo + 1)); }
void Same(const u8* a, const u8* b, size_t n, const char* msg) { u8 x = 0; for (size_t i = 0; i < n; ++i) x |= (u8)(a[i] ^ b[i]); SX_ASSERT(x == 0, msg); }
// a stream that moves at most `part` bytes per call
struct Dribble : public virtual IByteStream
{
	IByteStreamPtr s; size_t part; u64 reads = 0;
	Dribble(const IByteStreamPtr& s, size_t part) : s(s), part(part) { }
	u64 Read(ByteData d, const ICancellationToken& t) override { ++reads; return s->Read(ByteData(d, 0, std::min(d.size(), part)), t); }
	u64 Write(ConstByteData d, const ICancellationToken& t) override { return s->Write(ConstByteData(d, 0, std::min(d.size(), part)), t); }
	void Seek(s64 o, SeekMode m = SeekMode::Begin) override { s->Seek(o, m); }
	u64 Tell() const override { return s->Tell(); }
};
// all the bytes of a stream, without disturbing the position
struct Traits { size_t maxN; bool grows = false, past = false, eofThrows = false, writable = true, fullThrows = false, partial = false; };
void Ops(IByteStream& s, Model& m, int ops, const u8* nx, const Traits& t, const char* fixed = nullptr) // fixed: the operations (r, s, w) with fewer sizes
{
	DummyCancellationToken dt;
	for (int i = 0; i < ops; ++i)
	{
		SX_ASSERT(s.Tell() == m.pos, "position differs from what was read, written and seeked");
		const size_t left = m.pos < m.n ? m.n - m.pos : 0;
		switch (fixed ? (fixed[i] == 'r' ? 0u : fixed[i] == 's' ? 1u : 2u) : sx_choose("op", t.writable ? 3 : 2))
		{
		case 0: {
			u8 buf[8]; memset(buf, 0xA5, 8); const size_t n = fixed ? sz("n", 1, 3) : sz("n", t.eofThrows ? 1 : 0, 4); u64 got = 0; const bool th = SX_THROWS(got = s.Read(ByteData(buf, n), dt));
			if (t.eofThrows) SX_ASSERT(th == (left == 0), "reading at the end, and only there, is refused"); else SX_ASSERT(!th, "read failed");
			SX_ASSERT(got <= n && got <= left && (got > 0 || n == 0 || left == 0), "read size out of range"); if (!t.partial) SX_ASSERT(got == std::min(n, left), "short read");
			got = sx_conc(got); if (got) Same(buf, m.d + m.pos, got, "bytes read differ from the contents at the position"); u8 x = 0; for (size_t k = got; k < 8; ++k) x |= buf[k] ^ 0xA5; SX_ASSERT(x == 0, "read wrote outside the bytes it reported"); m.pos += got; break; }
		case 1: {
			const u32 mode = sx_choose("mode", 3); const s64 base = mode == 0 ? 0 : mode == 1 ? (s64)m.pos : (s64)m.n;
			const u32 to = sx_choose("to", (u32)m.n + (fixed ? 1 : 3)); s64 o = (s64)to - base; if (to == m.n + 1) o = sx_range("o", (s64)m.n + 1 - base, INT64_MAX - base); else if (to == m.n + 2) o = sx_range("o", INT64_MIN, -base - 1);
			const bool th = SX_THROWS(s.Seek(o, mode == 0 ? SeekMode::Begin : mode == 1 ? SeekMode::Current : SeekMode::End)); const bool in = to <= m.n;
			if (in) { SX_ASSERT(!th, "seek inside the stream refused"); m.pos = (size_t)(base + (s64)sx_conc(o)); }
			else if (th) { }
			else { SX_ASSERT(t.past && to == m.n + 1, "seek outside the stream accepted"); m.pos = (size_t)(base + (s64)sx_conc(o)); SX_ASSERT(m.pos < 16, "seek far outside the stream accepted"); }
			break; }
		default: {
			const size_t n = fixed ? sz("n", 1, 2) : sz("n", t.grows && t.eofThrows ? 1 : 0, 3); u64 got = 0; const bool th = SX_THROWS(got = s.Write(ConstByteData(nx, n), dt));
			if (m.pos > m.n) { SX_ASSERT(th, "write outside the stream"); break; }
			if (t.fullThrows && left == 0) { SX_ASSERT(th, "write at the end of the window"); break; }
			const size_t cap = t.grows ? t.maxN - m.pos : left; if (t.grows) SX_ASSUME(n <= cap);
			SX_ASSERT(!th, "write failed"); SX_ASSERT(got <= n && got <= cap && (got > 0 || n == 0 || cap == 0), "written size out of range"); if (!t.partial) SX_ASSERT(got == std::min(n, cap), "short write");
			got = sx_conc(got); for (size_t k = 0; k < got; ++k) m.d[m.pos + k] = nx[k]; m.pos += got; m.n = std::max(m.n, m.pos); nx += 3; break; }
		}
	}
	SX_ASSERT(s.Tell() == m.pos, "position after the last operation"); sx_observe(m.pos);
}
int K(int q, int t) { return sx_tier() ? t : q; }
}
SX_ENTRY(mem_stream)
{
	u8 src[32]; sx_bytes(src, 32, "b"); Model m; m.n = sx_choose("N", 4); memcpy(m.d, src, m.n); Traits t; t.maxN = 16; const u8* nx = src + 8;
	switch (sx_choose("kind", 4))
	{
	case 0: { ByteArrayByteStream s(ByteArray(ConstByteData(src, m.n))); t.grows = true; Ops(s, m, K(3, 4), nx, t); SX_ASSERT(s.GetData().size() == m.n, "size of the growing stream"); Same(s.GetData().data(), m.d, m.n, "contents of the growing stream"); break; }
	case 1: { u8 own[4]; memcpy(own, src, m.n); ByteDataByteStream s(ByteData(own, m.n)); Ops(s, m, K(3, 4), nx, t); Same(own, m.d, m.n, "contents of the fixed stream"); break; }
	case 2: { IByteStreamPtr s = CreateMemoryByteStream(ConstByteData(src, m.n)); t.writable = false; Ops(*s, m, K(3, 4), nx, t); SX_ASSERT(SX_THROWS(s->Write(ConstByteData(nx, 1))), "wrote to constant data"); SX_ASSERT(s->Tell() == m.pos, "refused write moved the position"); break; }
	default: { IByteStreamPtr s = CreateMemoryByteStream(ConstByteArray(ByteArray(ConstByteData(src, m.n)))); t.writable = false; Ops(*s, m, K(3, 4), nx, t); break; }
	}
	sx_reach("mem");
}
SX_ENTRY(mem_seek) // any size of the data: seeking does not look at them
{
	u8 b[1]; const size_t n = (size_t)sx_u64("n"); SX_ASSUME(n >= 1 && n <= ((size_t)1 << 62)); ConstByteDataByteStream s(ConstByteData(b, n));
	const s64 p = sx_s64("p"), o = sx_s64("o"); const bool okP = p >= 0 && p <= (s64)n; SX_ASSERT(SX_THROWS(s.Seek(p)) == !okP, "seek to a position"); const s64 at = okP ? p : 0; SX_ASSERT(s.Tell() == (u64)at, "position");
	SX_ASSUME(o <= ((s64)1 << 62) && o >= -((s64)1 << 62)); const bool end = sx_choose("end", 2); const s64 base = end ? (s64)n : at; const bool ok2 = base + o >= 0 && base + o <= (s64)n;
	SX_ASSERT(SX_THROWS(s.Seek(o, end ? SeekMode::End : SeekMode::Current)) == !ok2, "relative seek"); SX_ASSERT(s.Tell() == (u64)(ok2 ? base + o : at), "position after a relative seek"); sx_reach("seek");
}
SX_ENTRY(chunked_stream)
{
	typedef std::vector<u8> Chunk; u8 src[32]; sx_bytes(src, 32, "b"); Model m; shared_ptr<std::vector<Chunk> > c = make_shared_ptr<std::vector<Chunk> >();
	struct C : Chunk { };
	const size_t chunks = sx_choose("chunks", 3); for (size_t i = 0; i < chunks; ++i) { const size_t k = 1 + sx_choose("len", 2); c->push_back(Chunk(src + m.n, src + m.n + k)); m.n += k; }
	struct BC { };
	memcpy(m.d, src, m.n); const u8* nx = src + 8;
	// ChunkType is constructed from (pointer, size), as ByteArray is
	typedef std::vector<ByteArray> Arrays; shared_ptr<Arrays> a = make_shared_ptr<Arrays>(); for (auto& k : *c) a->push_back(ByteArray(ConstByteData(k.data(), k.size())));
	{
		struct Ctor : ByteArray { Ctor(const u8* p, size_t n) : ByteArray(ConstByteData(p, n)) { } };
		typedef std::vector<Ctor> Cont; shared_ptr<Cont> cc = make_shared_ptr<Cont>(); for (auto& k : *c) cc->push_back(Ctor(k.data(), k.size()));
		ChunkedMemoryByteStream<Ctor> s(cc); Traits t; t.maxN = 16; t.grows = true; t.eofThrows = true;
		if (m.n) Ops(s, m, K(3, 4), nx, t); else { DummyCancellationToken dt; SX_ASSERT(SX_THROWS(s.Seek(0)), "seek in an empty container"); s.Write(ConstByteData(nx, 2), dt); memcpy(m.d, nx, 2); m.n = m.pos = 2; Ops(s, m, K(2, 3), nx + 2, t); }
		size_t at = 0; for (auto& k : *cc) { SX_ASSERT(at + k.size() <= m.n, "too many bytes in the chunks"); Same(k.data(), m.d + at, k.size(), "bytes in the chunks"); at += k.size(); } SX_ASSERT(at == m.n, "number of bytes in the chunks");
	}
	sx_reach("chunked");
}
SX_ENTRY(buffered_stream)
{
	u8 src[32]; sx_bytes(src, 32, "b"); Model m; m.n = sx_choose("N", K(2, 4)) * 4 % 7 + 1; memcpy(m.d, src, m.n); static const u8 cfg[5][2] = {{2, 1}, {2, 2}, {4, 4}, {3, 1}, {1, 1}}; const u8* const k = cfg[sx_choose("cfg", K(3, 5))];
	shared_ptr<ByteArrayByteStream> base = make_shared_ptr<ByteArrayByteStream>(ByteArray(ConstByteData(src, m.n))); shared_ptr<Dribble> d = make_shared_ptr<Dribble>(base, sx_choose("part", 2) ? 1 : 16);
	BufferedStream s(d, k[0], k[1]); Traits t; t.maxN = 16; t.grows = true; t.past = true; t.partial = true; Ops(s, m, K(3, 4), src + 8, t);
	SX_ASSERT(base->GetData().size() == m.n, "size of the underlying stream"); Same(base->GetData().data(), m.d, m.n, "contents of the underlying stream"); sx_reach("buffered");
}
SX_ENTRY(buffered_seq) // longer histories of fixed shapes
{
	u8 src[32]; sx_bytes(src, 32, "b"); Model m; m.n = 6; memcpy(m.d, src, m.n); static const u8 cfg[3][2] = {{4, 1}, {4, 2}, {3, 3}}; const u8* const k = cfg[sx_choose("cfg", 3)]; static const char* const shapes[] = {"rsrw", "srwr", "rwsr", "wsrw", "rsrsr"};
	shared_ptr<ByteArrayByteStream> base = make_shared_ptr<ByteArrayByteStream>(ByteArray(ConstByteData(src, m.n))); shared_ptr<Dribble> d = make_shared_ptr<Dribble>(base, sx_choose("part", 2) ? 3 : 16); const char* const sh = shapes[sx_choose("shape", K(4, 5))];
	BufferedStream s(d, k[0], k[1]); Traits t; t.maxN = 16; t.grows = true; t.past = true; t.partial = true; Ops(s, m, (int)strlen(sh), src + 8, t, sh);
	SX_ASSERT(base->GetData().size() == m.n, "size of the underlying stream"); Same(base->GetData().data(), m.d, m.n, "contents of the underlying stream"); sx_reach("buffered_seq");
}
SX_ENTRY(offset_stream)
{
	u8 src[32]; sx_bytes(src, 32, "b"); const size_t off = sx_choose("off", 3); Model m; m.n = sx_choose("N", 4); const size_t all = off + m.n; memcpy(m.d, src + off, m.n);
	shared_ptr<ByteArrayByteStream> base = make_shared_ptr<ByteArrayByteStream>(ByteArray(ConstByteData(src, all))); IByteStreamPtr bp = base; if (sx_choose("part", 2)) bp = make_shared_ptr<Dribble>(base, 1);
	ByteStreamWithOffset s(bp, (s64)off); Traits t; t.maxN = 16; t.grows = true; t.partial = true; m.pos = sx_choose("at", m.n + 1); s.Seek((s64)m.pos); Ops(s, m, K(2, 3), src + 8, t);
	SX_ASSERT(base->GetData().size() == off + m.n, "size of the underlying stream"); Same(base->GetData().data(), src, off, "bytes before the offset"); Same(base->GetData().data() + off, m.d, m.n, "contents of the underlying stream");
	const s64 neg = sx_s64("neg"); SX_ASSUME(neg < 0); SX_ASSERT(SX_THROWS(ByteStreamWithOffset(bp, neg)), "negative offset"); sx_reach("offset");
}
SX_ENTRY(window_stream)
{
	u8 src[32]; sx_bytes(src, 32, "b"); const size_t off = sx_choose("off", 3), tail = sx_choose("tail", 2) * 2; Model m; m.n = 1 + sx_choose("N", 3); const size_t all = off + m.n + tail; memcpy(m.d, src + off, m.n);
	shared_ptr<ByteArrayByteStream> base = make_shared_ptr<ByteArrayByteStream>(ByteArray(ConstByteData(src, all))); IByteStreamPtr bp = base; if (sx_choose("part", 2)) bp = make_shared_ptr<Dribble>(base, 1);
	ByteStreamWithOffsetAndSize s(bp, (s64)off, (s64)m.n); Traits t; t.maxN = 16; t.fullThrows = true; t.partial = true;
	m.pos = sx_choose("at0", m.n + 1); s.Seek((s64)m.pos); if (sx_choose("disturb", 2)) base->Seek((s64)sx_choose("at", 2)); // another user of the underlying stream
	Ops(s, m, K(2, 3), src + 8, t);
	SX_ASSERT(base->GetData().size() == all, "size of the underlying stream"); Same(base->GetData().data(), src, off, "bytes before the window"); Same(base->GetData().data() + off, m.d, m.n, "bytes in the window"); Same(base->GetData().data() + off + m.n, src + off + m.n, tail, "bytes after the window"); sx_reach("window");
}
SX_ENTRY(read_helpers)
{
	u8 src[16]; sx_bytes(src, 16, "b"); const size_t n = sx_choose("N", 5), part = sx_choose("part", 3) + 1, at = sx_choose("at", n + 1); shared_ptr<ByteArrayByteStream> base = make_shared_ptr<ByteArrayByteStream>(ByteArray(ConstByteData(src, n))); Dribble s(base, part); s.Seek((s64)at);
	u8 buf[8]; memset(buf, 0, 8); DummyCancellationToken dt; const size_t left = n - at;
	switch (sx_choose("op", 5))
	{
	case 0: { const size_t k = sz("k", 0, 6); const size_t got = ReadAll(s, ByteData(buf, k), dt); SX_ASSERT(got == std::min(k, left), "ReadAll size"); Same(buf, src + at, sx_conc(got), "ReadAll bytes"); SX_ASSERT(s.Tell() == at + got, "position"); break; }
	case 1: { const size_t k = sz("k", 0, 6); const bool th = SX_THROWS(CheckedReadAll(s, ByteData(buf, k), dt)); SX_ASSERT(th == (k > left), "CheckedReadAll result"); if (!th) Same(buf, src + at, sx_conc(k), "CheckedReadAll bytes"); break; }
	case 2: { const size_t k = 1 + sx_choose("init", 6); ConstByteArray r = ReadToEnd(s, k, dt); SX_ASSERT(r.size() == left, "ReadToEnd size"); Same(r.data(), src + at, left, "ReadToEnd bytes"); SX_ASSERT(SX_THROWS(ReadToEnd(s, 0, dt)), "zero initial size"); break; }
	case 3: { const size_t k = sz("k", 0, 6); const size_t w = WriteAll(s, ConstByteData(src + 8, k), dt); SX_ASSERT(w == k && s.Tell() == at + k, "WriteAll size"); ConstByteArray r = base->GetData(); SX_ASSERT(r.size() == std::max(n, at + k), "size after WriteAll"); Same(r.data(), src, at, "bytes before"); Same(r.data() + at, src + 8, sx_conc(k), "written bytes"); for (size_t i = at + sx_conc(k); i < n; ++i) SX_ASSERT(r[i] == src[i], "bytes after"); break; }
	default: {
		u8 own[3]; const size_t cap = sx_choose("cap", 4); ByteDataByteStream f(ByteData(own, cap)); Dribble ds(make_shared_ptr<Dribble>(make_shared_ptr<ByteDataByteStream>(ByteData(own, cap)), 1), 2); const size_t k = sz("k", 0, 5);
		const bool th = SX_THROWS(CheckedWriteAll(ds, ConstByteData(src, k), dt)); SX_ASSERT(th == (k > cap), "CheckedWriteAll result"); Same(own, src, std::min((size_t)sx_conc(k), cap), "CheckedWriteAll bytes"); break; }
	}
	CancellationToken ct; ct.Cancel(); SX_ASSERT(SX_THROWS(CheckedReadAll(s, ByteData(buf, 1), ct)), "cancelled read reported as complete"); SX_ASSERT(SX_THROWS(ReadToEnd(s, 2, ct)), "cancelled read to the end reported as complete");
	sx_observe(left); sx_reach("helpers");
}
SX_ENTRY(read_line)
{
	u8 src[5]; sx_bytes(src, 5, "b"); const size_t n = sx_choose("N", 6); DummyCancellationToken dt; Dribble s(CreateMemoryByteStream(ConstByteData(src, n)), 1); size_t at = 0;
	for (int lines = 0; lines < 7; ++lines)
	{
		optional<std::string> l = ReadLine(s, dt);
		if (at == n) { SX_ASSERT(!l, "line after the end"); sx_reach("line"); return; }
		SX_ASSERT(!!l, "missing line"); size_t e = at; while (e < n && src[e] != '\n' && src[e] != '\r') ++e;
		SX_ASSERT(l->size() == e - at, "line length"); for (size_t i = 0; i < e - at; ++i) SX_ASSERT((u8)(*l)[i] == src[at + i], "line text");
		at = e; if (at < n) { const bool cr = src[at] == '\r'; ++at; if (cr && at < n && src[at] == '\n') ++at; } SX_ASSERT(s.Tell() == at, "position after the line");
	}
	sx_fail("more lines than bytes");
}
namespace {
struct Sink : public virtual IDataConsumer
{
	u8 got[32]; size_t n = 0; int eods = 0; size_t part, align = 0; bool aligned = true;
	explicit Sink(size_t part) : part(part) { }
	size_t Process(ConstByteData d, const ICancellationToken&) override { if (align && d.size() % align) aligned = false; const size_t k = std::min(d.size(), part); SX_ASSERT(n + k <= 32 && !eods, "delivered too much, or after the end"); for (size_t i = 0; i < k; ++i) got[n++] = d[i]; return k; }
	void EndOfData(const ICancellationToken&) override { ++eods; }
};
// delivers pieces of chosen sizes, again from the first byte that was not accepted
struct Pieces : public virtual IDataSource
{
	const u8* d; size_t n, at = 0, cut = 0, piece[8]; size_t pieces = 0, idx = 0;
	Pieces(const u8* d, size_t n, size_t max) : d(d), n(n) { size_t s = 0; while (s < n) { const size_t k = 1 + sx_choose("piece", std::min(max, n - s)); s += k; piece[pieces++] = s; } }
	void Read(IDataConsumer& c, const ICancellationToken& t) override
	{ while (idx < pieces && piece[idx] <= at) ++idx; if (idx == pieces) { c.EndOfData(t); return; } at += c.Process(ConstByteData(d + at, piece[idx] - at), t); SX_ASSERT(at <= piece[idx], "consumed more than offered"); }
};
struct ByteTube : public virtual IPipe
{
	const u8* d; size_t n, at = 0, part; bool gap = false; ByteTube(const u8* d, size_t n, size_t part) : d(d), n(n), part(part) { }
	u64 Read(ByteData o, const ICancellationToken&) override { if (at == n) throw PipeClosedException(); gap = !gap; if (gap && part == 2) return 0; const size_t k = std::min(std::min(part, o.size()), n - at); for (size_t i = 0; i < k; ++i) o[i] = d[at + i]; at += k; return k; }
	u64 Write(ConstByteData, const ICancellationToken&) override { return 0; }
	bool Peek(const ICancellationToken&) override { return at < n; }
};
struct Tap
{
	const u8* src; Sink& k; size_t seen = 0; bool same = true; int eods = 0; Tap(const u8* src, Sink& k) : src(src), k(k) { }
	void Data(ConstByteData d, const ICancellationToken&) { for (size_t i = 0; i < d.size(); ++i, ++seen) same = same & (d[i] == src[seen]); SX_ASSERT(seen == k.n, "intercepted data differ from the accepted data"); }
	void End(const ICancellationToken&) { ++eods; }
};
struct PSink : public virtual IPacketConsumer<EmptyType>
{
	u8 got[32]; size_t n = 0, packets = 0, sizes[16]; int eods = 0, refuse = 0;
	bool Process(const Packet<EmptyType>& p, const ICancellationToken&) override { if (refuse && refuse-- % 2) return false; SX_ASSERT(n + p.GetSize() <= 32 && !eods, "delivered too much, or after the end"); sizes[packets++] = p.GetSize(); for (size_t i = 0; i < p.GetSize(); ++i) got[n++] = p.GetData()[i]; return true; }
	void EndOfData() override { ++eods; }
};
struct PSource : public virtual IPacketSource<EmptyType>
{
	const u8* d; size_t n, at = 0, len = 0; PSource(const u8* d, size_t n) : d(d), n(n) { }
	void Read(IPacketConsumer<EmptyType>& c, const ICancellationToken& t) override { if (at == n) { c.EndOfData(); return; } if (!len) len = 1 + sx_choose("len", std::min<size_t>(3, n - at)); if (c.Process(Packet<EmptyType>(ConstByteData(d + at, len)), t)) { at += len; len = 0; } }
};
void Drain(IDataSource& s, Sink& k, int limit = 24) { DummyCancellationToken dt; while (!k.eods) { SX_ASSERT(limit-- > 0, "source does not finish"); s.Read(k, dt); } }
}
SX_ENTRY(aligner)
{
	u8 src[8]; sx_bytes(src, 8, "b"); const size_t n = sx_choose("N", K(7, 9)), al = 1 + sx_choose("al", 4); Sink k(1 + sx_choose("part", 2) * 15); DummyCancellationToken dt;
	{
		shared_ptr<Pieces> p = make_shared_ptr<Pieces>(src, n, 5); DataAligner a(p, al); k.align = k.part == 1 ? 0 : al; Drain(a, k, 40); SX_ASSERT(k.n == AlignDown(n, al), "delivered size is not the aligned part"); Same(k.got, src, k.n, "aligned data differ from the source"); SX_ASSERT(k.aligned && k.eods == 1, "delivery not aligned"); SX_ASSERT(p->at == n, "source not consumed");
	}
	{
		shared_ptr<ByteArrayDataSource> p = make_shared_ptr<ByteArrayDataSource>(ConstByteArray(ByteArray(ConstByteData(src, n)))); DataAligner a(p, al, false); Sink u(16); u.align = al; if (n >= al) a.Read(u, dt); SX_ASSERT(u.n == AlignDown(n, al) && u.aligned, "unbuffered alignment"); Same(u.got, src, u.n, "unbuffered data"); if (n >= al && n % al) { a.Read(u, dt); SX_ASSERT(u.n == AlignDown(n, al) && !u.eods, "rest of the data delivered without alignment"); }
	}
	sx_reach("aligner");
}
SX_ENTRY(take_skip)
{
	u8 src[8]; sx_bytes(src, 8, "b"); const size_t n = sx_choose("N", 6); Sink k(1 + sx_choose("part", 2) * 15); shared_ptr<Pieces> p = make_shared_ptr<Pieces>(src, n, 3); DummyCancellationToken dt;
	const u64 cnt = sx_choose("long", 2) ? (u64)sx_range("cnt", 9, INT64_MAX) : sx_choose("cnt", n + 2);
	if (sx_choose("take", 2))
	{
		const bool discard = sx_choose("discard", 2); const size_t want = cnt < n ? sx_conc(cnt) : n; DataTaker t(p, cnt, discard); t.Read(k, dt); SX_ASSERT(k.n == want, "number of bytes taken"); Same(k.got, src, want, "bytes taken"); SX_ASSERT(p->at == want, "taken bytes and the source position differ"); SX_ASSERT(k.eods == (cnt > n), "end of data reported iff the source ended first");
		TakingConsumer c(k, 0, discard); SX_ASSERT(c.Process(ConstByteData(src, 2), dt) == (discard ? 2u : 0u), "exhausted taker"); SX_ASSERT(k.n == want, "exhausted taker delivered data"); t.Read(k, dt); SX_ASSERT(k.n == want && k.eods == (cnt > n), "exhausted taker reads again");
	}
	else
	{
		const bool rest = sx_choose("rest", 2); const size_t skip = cnt < n ? sx_conc(cnt) : n;
		if (rest) { DataSkipper s(p, cnt, true); Drain(s, k); SX_ASSERT(k.n == n - skip, "number of bytes after the skipped ones"); Same(k.got, src + skip, n - skip, "bytes after the skipped ones"); SX_ASSERT(k.eods == 1 && p->at == n, "end of data"); }
		else { SkippingConsumer s(k, cnt); int limit = 12; while (s.GetLeftToSkip() && limit--) p->Read(s, dt); SX_ASSERT(p->at == skip && k.n == 0 && k.eods == (cnt > n), "skipping stops after the skipped bytes"); }
	}
	sx_reach("take_skip");
}
SX_ENTRY(sources)
{
	u8 src[8]; sx_bytes(src, 8, "b"); const size_t n = sx_choose("N", 6); Sink k(1 + sx_choose("part", 2) * 15); DummyCancellationToken dt;
	switch (sx_choose("kind", 8))
	{
	case 0: { ByteArrayDataSource s{ConstByteArray(ByteArray(ConstByteData(src, n)))}; Drain(s, k); SX_ASSERT(k.n == n, "array source size"); Same(k.got, src, n, "array source bytes"); break; }
	case 1: { ByteStreamDataSource s(make_shared_ptr<Dribble>(CreateMemoryByteStream(ConstByteData(src, n)), 1 + sx_choose("sp", 2)), 1 + sx_choose("buf", 3)); Drain(s, k); SX_ASSERT(k.n == n, "stream source size"); Same(k.got, src, n, "stream source bytes"); SX_ASSERT(s.Tell() == n, "stream source position"); if (n) { s.Seek(1); Sink k2(16); Drain(s, k2); SX_ASSERT(k2.n == n - 1, "stream source after seek"); Same(k2.got, src + 1, n - 1, "stream source bytes after seek"); } break; }
	case 2: { BufferedDataMediator m; size_t at = 0; while (at < n) { const size_t q = 1 + sx_choose("piece", n - at); SX_ASSERT(m.Process(ConstByteData(src + at, q), dt) == q, "mediator accepts everything"); at += q; if (sx_choose("read", 2)) { m.Read(k, dt); SX_ASSERT(k.n == at && !k.eods, "mediator delivers what it got"); } } m.EndOfData(dt); m.Read(k, dt); SX_ASSERT(k.n == n && k.eods == 1, "mediator end of data"); Same(k.got, src, n, "mediator bytes"); Sink k2(16); m.Read(k2, dt); SX_ASSERT(k2.n == 0 && !k2.eods, "mediator delivers twice"); break; }
	case 3: { shared_ptr<Pieces> p = make_shared_ptr<Pieces>(src, n, 3); ByteArray r = DataSourceReader(p).ReadToEnd(dt); SX_ASSERT(r.size() == n, "reader size"); Same(r.data(), src, n, "reader bytes"); break; }
	case 4: { u8 dst[8]; memset(dst, 0x5A, 8); const size_t cap = sx_choose("cap", 5); ByteDataConsumer c(ByteData(dst, cap)); Pieces p(src, n, 3); for (int i = 0; i < 8 && !c.IsEndOfData(); ++i) p.Read(c, dt); SX_ASSERT(p.at == n, "byte data consumer consumes everything"); const size_t e = std::min(n, cap); Same(dst, src, e, "byte data consumer bytes"); for (size_t i = e; i < 8; ++i) SX_ASSERT(dst[i] == 0x5A, "byte data consumer wrote outside its destination"); break; }
	case 5: { Tap t(src, k); InterceptingDataSource s(make_shared_ptr<Pieces>(src, n, 3), Bind(&Tap::Data, &t, _1, _2), Bind(&Tap::End, &t, _1)); Drain(s, k); SX_ASSERT(t.seen == n && t.same && t.eods == 1 && k.n == n, "interception"); Same(k.got, src, n, "intercepted source bytes"); break; }
	case 6: { const size_t buf = 1 + sx_choose("buf", 3); shared_ptr<ByteTube> p = make_shared_ptr<ByteTube>(src, n, 1 + sx_choose("sp", 3)); PipeDataSource s(p, buf); bool th = false; for (int i = 0; i < 16 && !k.eods && !th; ++i) { const size_t was = k.n; try { s.Read(k, dt); } catch (const NotImplementedException&) { th = true; SX_ASSERT(k.n == was + k.part && p->at - was > k.part, "partially taken data are reported"); } if (!th) SX_ASSERT(k.n == p->at, "what was read is delivered"); } SX_ASSERT(th || (k.n == n && k.eods == 1), "pipe source delivers everything, then the end"); Same(k.got, src, k.n, "pipe source bytes"); break; }
	default: { ReactiveDataSource s(make_shared_ptr<Pieces>(src, n, 3)); s.Read(k, dt); SX_ASSERT(k.n == n && k.eods == 1, "reactive source delivers everything"); Same(k.got, src, n, "reactive source bytes"); break; }
	}
	sx_observe(k.n); sx_reach("sources");
}
SX_ENTRY(packets)
{
	u8 src[8]; sx_bytes(src, 8, "b"); const size_t n = sx_choose("N", 7); DummyCancellationToken dt;
	if (sx_choose("dir", 2))
	{
		const size_t ps = 1 + sx_choose("ps", 3); PSink k; k.refuse = sx_choose("refuse", 3); ByteArrayDataSource s{ConstByteArray(ByteArray(ConstByteData(src, n)))}; DataPacketer p(s, ps);
		size_t reads = 0; bool th = false; while (!k.eods && !th) { SX_ASSERT(++reads < 16, "packeter does not finish"); th = SX_THROWS(p.Read(k, dt)); }
		SX_ASSERT(th == (n % ps != 0), "incomplete last packet"); SX_ASSERT(k.n == n / ps * ps && k.packets == n / ps, "packets"); for (size_t i = 0; i < k.packets; ++i) SX_ASSERT(k.sizes[i] == ps, "packet size"); Same(k.got, src, k.n, "packet bytes");
	}
	else
	{
		Sink k(1 + sx_choose("part", 2) * 15); PSource s(src, n); DataDepacketer d(s); Drain(d, k); SX_ASSERT(k.n == n && k.eods == 1, "depacketed size"); Same(k.got, src, n, "depacketed bytes");
	}
	sx_reach("packets");
}
// a buffered pipe and a pipe reader give the bytes of the pipe below, in order, and its end
SX_ENTRY(pipes)
{
	u8 src[8]; sx_bytes(src, 8, "b"); const size_t n = sx_choose("N", 6), kind = sx_choose("kind", 3); DummyCancellationToken dt; shared_ptr<ByteTube> t = make_shared_ptr<ByteTube>(src, n, 1 + 2 * sx_choose("sp", 2)); const bool buffered = sx_choose("buffered", 2); IPipePtr p = t; if (buffered) p = make_shared_ptr<BufferedPipe>(t, 1 + sx_choose("buf", 4));
	size_t at = 0; u8 got[8];
	if (kind == 0)
	{
		const size_t step = 1 + sx_choose("step", 3); while (at < n) { SX_ASSERT(p->Peek(dt), "there are more bytes"); u64 r = p->Read(ByteData(got + at, step), dt); SX_ASSERT(r >= 1 && r <= step && at + r <= n, "what was asked for"); at += r; SX_ASSERT(at <= t->at, "its bytes"); }
		Same(got, src, n, "bytes of the pipe"); SX_ASSERT(!p->Peek(dt), "no more"); for (int i = 0; i < 2; ++i) { bool closed = false; try { p->Read(ByteData(got, 1), dt); } catch (const PipeClosedException&) { closed = true; } SX_ASSERT(closed, "its end"); } sx_reach("reads");
	}
	else if (kind == 1)
	{
		PipeReader r(p); for (; at < n; ++at) SX_ASSERT(r.ReadByte(dt) == src[at], "next byte"); bool closed = false; try { r.ReadByte(dt); } catch (const PipeClosedException&) { closed = true; } SX_ASSERT(closed, "its end"); sx_reach("bytes");
	}
	else
	{
		PipeReader r(p);
		for (int i = 0; ; ++i)
		{
			SX_ASSERT(i <= (int)n, "lines"); bool closed = false, bad = false; std::string l; try { l = r.ReadLine(dt); } catch (const PipeClosedException&) { closed = true; } catch (const NotSupportedException&) { bad = true; }
			const size_t from = at; while (at < n && src[at] != '\n' && src[at] != '\r') ++at; const size_t len = at - from; if (at < n) { if (src[at] == '\r') { ++at; if (at < n && src[at] != '\n') { SX_ASSERT(bad, "a carriage return alone is not supported"); sx_reach("bad"); return; } if (at == n) { SX_ASSERT(closed == (len == 0), "the end after a carriage return"); if (closed) break; } } if (at < n) { ++at; SX_ASSERT(!closed && !bad, "a line"); } } else { SX_ASSERT(closed == (len == 0), "the end"); if (closed) break; }
			SX_ASSERT(!bad && !closed && l.size() == len, "length of the line"); Same((const u8*)l.data(), src + from, len, "text of the line"); sx_reach("line");
		}
		sx_reach("lines");
	}
}
// a pipe of stages: each stage gets what the one before it gives, at once and in order; at the end what each kept goes through the rest first
namespace {
struct Joins : public DataPipeStageBase<u8, u32> // two bytes into one number, a last one alone
{
	int have = 0; u8 first = 0; template < typename C > void Process(u8 b, const C& c) { if (have) { have = 0; c((u32)first << 8 | b); } else { have = 1; first = b; } }
	template < typename C, typename E > void EndOfData(const C& c, const E& e) { if (have) { have = 0; c((u32)first | 0x10000); } e(); } void Reset() { have = 0; }
};
struct Repeats : public DataPipeStageBase<u32, u32> // each number, and its complement; how many there were at the end
{
	u32 n = 0; template < typename C > void Process(u32 v, const C& c) { ++n; c(v); c(~v); } template < typename C, typename E > void EndOfData(const C& c, const E& e) { c(n); e(); } void Reset() { n = 0; }
};
struct Delays : public DataPipeStageBase<u32, u32> // each one step later
{
	bool have = false; u32 last = 0; template < typename C > void Process(u32 v, const C& c) { const bool h = have; const u32 l = last; have = true; last = v; if (h) c(l); } template < typename C, typename E > void EndOfData(const C& c, const E& e) { if (have) c(last); have = false; e(); } void Reset() { have = false; }
};
u32 dpo[32]; int dpn; struct DpOut : public function_info<void (u32)> { void operator () (u32 v) const { SX_ASSERT(dpn < 32, "too much"); dpo[dpn++] = v; } };
int dpe; struct DpEnd : public function_info<void ()> { void operator () () const { SX_ASSERT(dpe < 2, "ends"); dpo[dpn++] = 0xE0D; ++dpe; } };
template < typename Stages > void dataPipe(bool joins, bool repeats, bool delays)
{
	u8 src[6]; sx_bytes(src, 6, "b"); DataPipe<Stages> p; u32 want[32]; int wn = 0, skip = 0; dpn = dpe = 0; const int n = (int)sx_choose("n", 6); const int reset = (int)sx_choose("reset", n + 2) - 1;
	for (int i = 0; i <= n; ++i) { if (i == reset) { p.Reset(); skip = i; if (dpn && delays) sx_reach("forgotten"); dpn = 0; } if (i < n) p.Process(src[i], DpOut()); }
	if (sx_choose("own", 2)) { dpn = 0; p.EndOfData(); SX_ASSERT(dpn == 0, "nobody listens"); p.Process(src[0]); return; }
	p.EndOfData(DpOut(), DpEnd());
	u32 a[8]; int an = 0; for (int i = skip; i < n; i += 2) a[an++] = i + 1 < n ? (u32)src[i] << 8 | src[i + 1] : (u32)src[i] | 0x10000; for (int i = 0; i < an; ++i) { want[wn++] = a[i]; if (repeats) want[wn++] = ~a[i]; } if (repeats) want[wn++] = (u32)an; want[wn++] = 0xE0D;
	SX_ASSERT(dpn == wn && dpe == 1, "everything and the end"); for (int i = 0; i < wn; ++i) SX_ASSERT(dpo[i] == want[i], "in order");
}
}
SX_ENTRY(data_pipe)
{
	switch (sx_choose("stages", 4))
	{
	case 0: dataPipe<TypeList<Joins> >(true, false, false); break;
	case 1: dataPipe<TypeList<Joins, Repeats> >(true, true, false); break;
	case 2: dataPipe<TypeList<Joins, Delays, Repeats> >(true, true, true); break;
	default: dataPipe<TypeList<Joins, Repeats, Delays> >(true, true, true); break;
	}
	sx_reach("end");
}
