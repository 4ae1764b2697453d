// Circular, data, packet and paged buffers against a first-in first-out model.
#include "sx.h"
#include <stingraykit/io/MemoryCircularBuffer.h>
#include <stingraykit/io/BithreadCircularBuffer.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/thread/CancellationToken.h>
#include <string.h>
using namespace stingray;
struct Fifo { u8 d[64]; size_t h = 0, t = 0; size_t n() const { return t - h; } void push(const u8* p, size_t k) { for (size_t i = 0; i < k; ++i) d[t++] = p[i]; } u8 at(size_t i) const { return d[h + i]; } };
static u8 src[64];
static size_t sz(const char* n, size_t lo, size_t hi) { return (size_t)sx_range(n, (int64_t)lo, (int64_t)hi); }
static void Same(ConstByteData d, const Fifo& m, size_t from, const char* msg) { SX_ASSERT(from + d.size() <= m.n(), msg); u8 x = 0; for (size_t i = 0; i < d.size(); ++i) x |= (u8)(d[i] ^ m.at(from + i)); SX_ASSERT(x == 0, msg); }
template <bool Discard> static void Check(MemoryCircularBuffer<Discard>& b, const Fifo& m, size_t S)
{
	SX_ASSERT(b.GetSize() == m.n(), "stored size differs from what was pushed and not popped");
	SX_ASSERT(b.GetFreeSize() == S - m.n(), "free size is not the rest of the storage");
	SX_ASSERT(b.CanPush(S - m.n()) && !b.CanPush(S - m.n() + 1), "CanPush does not follow the free size");
	shared_ptr<std::vector<u8> > all = b.GetAllData();
	SX_ASSERT(all->size() == m.n(), "all data has a wrong size"); u8 x = 0; for (size_t i = 0; i < all->size(); ++i) x |= (u8)((*all)[i] ^ m.at(i)); SX_ASSERT(x == 0, "stored bytes differ from what was pushed");
}
// any reachable fill state (rotation r, fill k), then operations
template <bool Discard> static void Fill(MemoryCircularBuffer<Discard>& b, Fifo& m, size_t S)
{
	const size_t r = sx_choose("rot", S), k = sx_choose("fill", S + 1);
	if (r) { b.Push(ConstByteData(src, r)); b.Pop(r); }
	if (k) { b.Push(ConstByteData(src, k)); m.push(src, k); }
}
template <bool Discard> static void CircRun(int ops, size_t maxS)
{
	sx_bytes(src, 24, "b"); const size_t S = 1 + sx_choose("S", maxS); MemoryCircularBuffer<Discard> b(S); Fifo m; Fill(b, m, S); Check(b, m, S); const u8* nx = src + 8;
	for (int i = 0; i < ops; ++i)
	{
		switch (sx_choose("op", 4))
		{
		case 0: {
			const size_t n = sz("n", 0, S + 1); bool t = SX_THROWS(b.Push(ConstByteData(nx, n)));
			const bool fits = n <= S - m.n(); if (!Discard) SX_ASSERT(t == !fits, "push accepted beyond the free size, or refused within it"); const size_t c = sx_conc(n);
			if (!Discard) { if (!t) m.push(nx, c); }
			else { SX_ASSERT(!t, "discarding buffer refused data"); m.push(nx, c); if (m.n() > S) m.h = m.t - S; }
			nx += c; break; }
		case 1: {
			const size_t n = (size_t)sx_u64("n"); size_t got; { CircularDataReserverPtr p = b.Pop(n); got = sx_conc(p->GetData().size()); SX_ASSERT(got <= n && got <= m.n() && (n == 0 || m.n() == 0 || got > 0), "popped size out of range"); Same(p->GetData(), m, 0, "popped bytes differ from the oldest stored ones"); }
			m.h += got; break; }
		case 2: b.Clear(); m.h = m.t; break;
		default: { // data stay readable while they are held; pushing does not touch them
			const size_t n = sz("n", 1, S), k = sz("k", 0, S); size_t got;
			{
				CircularDataReserverPtr p = b.Pop(n); got = sx_conc(p->GetData().size()); SX_ASSERT(b.GetSize() == m.n(), "held data are not stored any more");
				if (got) SX_ASSERT(SX_THROWS(b.Pop(1)), "second pop while data are held");
				const bool fits = k <= S - m.n(); const bool t = SX_THROWS(b.Push(ConstByteData(nx, k)));
				if (got || !Discard) SX_ASSERT(t == !fits, "push while data are held");
				if (!t) { sx_conc(k); m.push(nx, k); if (m.n() > S) m.h = m.t - S; nx += k; }
				if (got) Same(p->GetData(), m, 0, "held bytes changed by a push");
				if (sx_choose("clr", 2)) { b.Clear(); m.t = m.h + got; if (got) Same(p->GetData(), m, 0, "held bytes changed by Clear"); }
			}
			m.h += got; break; }
		}
		Check(b, m, S);
	}
	sx_observe(m.n());
}
SX_ENTRY(circ_fifo) { CircRun<false>(sx_tier() ? 3 : 2, 3); sx_reach("fifo"); }
SX_ENTRY(circ_discard) { CircRun<true>(sx_tier() ? 3 : 2, 3); sx_reach("discard"); }
struct Life : public IToken { };
SX_ENTRY(circ_bithread)
{
	sx_bytes(src, 24, "b"); const size_t S = 1 + sx_choose("S", 4); const bool own = sx_choose("own", 2); u8 st[4]; unique_ptr<BithreadCircularBuffer> bp; if (own) bp.reset(new BithreadCircularBuffer(BytesOwner(ByteData(st, S), MakeToken<Life>()))); else bp.reset(new BithreadCircularBuffer(S)); BithreadCircularBuffer& b = *bp; Fifo m; const u8* nx = src + 8;
	{ const size_t r = sx_choose("rot", S); if (r) { b.Write().Push(r); b.Read().Pop(r); } }
	for (int i = 0; i < (sx_tier() ? 5 : 4); ++i)
	{
		SX_ASSERT(b.GetDataSize() == m.n() && b.GetFreeSize() == S - m.n() && b.GetTotalSize() == S, "sizes of the buffer");
		if (sx_choose("op", 2))
		{
			BithreadCircularBuffer::Writer w = b.Write(); SX_ASSERT(w.size() <= S - m.n() && (m.n() == S || w.size() > 0), "writer window out of range");
			u8* const w0 = w.data(); SX_ASSERT(w.begin() == w.GetData().begin() && w.end() == w.GetData().end() && w.GetData().data() == w0 && w.GetData().size() == w.size(), "one window");
			if (own && w.size()) SX_ASSERT(w0 >= st && w0 + w.size() <= st + S && w.IsBufferEnd() == (w0 + w.size() == st + S), "in the given storage"); { BithreadCircularBuffer::Writer c(w); c = w; SX_ASSERT(c.data() == w0 && c.size() == w.size() && c.IsBufferEnd() == w.IsBufferEnd(), "copied window"); }
			const size_t n = sz("n", 0, w.size()); w.Push(sx_conc(n)); memcpy(w0, nx, sx_conc(n)); m.push(nx, sx_conc(n)); nx += sx_conc(n); SX_ASSERT(w.size() == 0, "window still usable after push");
		}
		else
		{
			BithreadCircularBuffer::Reader r = b.Read(); SX_ASSERT(r.size() <= m.n() && (m.n() == 0 || r.size() > 0), "reader window out of range"); Same(r.GetData(), m, 0, "read bytes differ from the written ones");
			SX_ASSERT(r.begin() == r.GetData().begin() && r.end() == r.GetData().end() && r.data() == r.GetData().data(), "one window to read");
			if (own && r.size()) SX_ASSERT(r.data() >= st && r.data() + r.size() <= st + S && r.IsBufferEnd() == (r.data() + r.size() == st + S), "read from the given storage"); { BithreadCircularBuffer::Reader c(r); c = r; SX_ASSERT(c.data() == r.data() && c.size() == r.size() && c.IsBufferEnd() == r.IsBufferEnd(), "copied window to read"); }
			const size_t n = sz("n", 0, r.size()); r.Pop(n); m.h += sx_conc(n); SX_ASSERT(r.size() == 0, "window still usable after pop");
		}
	}
	if (sx_choose("later", 2))
	{
		// a window keeps what it was when the buffer changes, and so do its copies
		BithreadCircularBuffer::Reader r = b.Read(); const u8* const rd = r.data(); const size_t rs = r.size(); const bool re = r.IsBufferEnd(); BithreadCircularBuffer::Writer w = b.Write(); u8* const wd = w.data(); const size_t ws = w.size(); const bool we = w.IsBufferEnd();
		if (rs) { BithreadCircularBuffer::Reader t = b.Read(); t.Pop(1); ++m.h; } if (ws) { BithreadCircularBuffer::Writer t = b.Write(); memcpy(t.data(), nx, 1); m.push(nx++, 1); t.Push(1); }
		BithreadCircularBuffer::Reader rc(r), rb = b.Read(); rb = r; BithreadCircularBuffer::Writer wc(w), wb = b.Write(); wb = w;
		SX_ASSERT(r.data() == rd && r.size() == rs && rc.data() == rd && rc.size() == rs && rb.data() == rd && rb.size() == rs && rc.IsBufferEnd() == re && rb.IsBufferEnd() == re, "copied window to read");
		SX_ASSERT(w.data() == wd && w.size() == ws && wc.data() == wd && wc.size() == ws && wb.data() == wd && wb.size() == ws && wc.IsBufferEnd() == we && wb.IsBufferEnd() == we, "copied window");
	}
	const size_t over = (size_t)sx_u64("over"); SX_ASSUME(over > S); SX_ASSERT(SX_THROWS(b.Write().Push(over)), "push beyond the storage"); SX_ASSERT(SX_THROWS(b.Read().Pop(over)), "pop beyond the storage");
	BithreadCircularBuffer::Reader r1 = b.Read(); Same(r1.GetData(), m, 0, "bytes before the wrap"); const size_t a = r1.size(); r1.Pop(a); BithreadCircularBuffer::Reader r2 = b.Read(); Same(r2.GetData(), m, a, "bytes after the wrap"); SX_ASSERT(a + r2.size() == m.n(), "windows do not cover the stored data");
	b.Clear(); SX_ASSERT(b.GetDataSize() == 0 && b.Write().size() == S, "cleared buffer is empty");
	sx_observe(m.n()); sx_reach("bithread");
}
namespace {
struct Sink : public virtual IDataConsumer
{
	const Fifo* m; size_t take = 0, got = 0; int eods = 0, calls = 0; bool ok = true; size_t packet = 1;
	size_t Process(ConstByteData d, const ICancellationToken&) override { ++calls; SX_ASSERT(d.size() > 0 && d.size() % packet == 0, "delivered size is not a whole number of packets"); Same(d, *m, 0, "delivered bytes differ from the oldest stored ones"); got = std::min(take, d.size()); return got; }
	void EndOfData(const ICancellationToken&) override { ++eods; }
};
}
static void DataBuf(size_t S, size_t packet, bool discard, int ops)
{
	sx_bytes(src, 32, "b"); CancellationToken token; token.Cancel(); DummyCancellationToken dt;
	DataBuffer b(discard, S, DataBuffer::Parameters(packet)); Fifo m; const u8* nx = src + 8; bool eod = false, exc = false;
	{ const size_t r = sx_choose("rot", S / packet) * packet, k = sx_choose("fill", S / packet + 1) * packet; Fifo t; Sink s; s.m = &t; s.take = r; if (r) { b.Process(ConstByteData(src, r), dt); t.push(src, r); b.Read(s, dt); }
	  size_t done = 0; while (done < k) { size_t n = b.Process(ConstByteData(src + done, k - done), dt); SX_ASSERT(n > 0 && n <= k - done, "buffer with room accepted nothing"); done += n; } m.push(src, k); }
	for (int i = 0; i < ops; ++i)
	{
		SX_ASSERT(b.GetDataSize() == m.n() && b.GetFreeSize() == S - m.n(), "sizes of the data buffer"); SX_ASSERT(b.HasEndOfDataOrException() == (eod || exc), "end state");
		switch (sx_choose("op", 5))
		{
		case 0: {
			const size_t n = sz("n", 1, S / packet + 2) * packet; size_t got = 0; const bool t = SX_THROWS(got = b.Process(ConstByteData(nx, n), token));
			// a cancelled token may make the buffer refuse; otherwise it takes a prefix
			SX_ASSERT(t == (eod || exc), "data accepted after the end, or refused before it");
			if (!t) { SX_ASSERT(got <= n && got % packet == 0, "accepted more than given, or part of a packet"); if (m.n() == S) { SX_ASSERT(got == (discard ? n : 0), "full buffer"); } else { SX_ASSERT(got > 0 && got <= S - m.n(), "accepted beyond the free size, or nothing while there was room"); got = sx_conc(got); m.push(nx, got); nx += got; } }
			break; }
		case 1: {
			Sink s; s.m = &m; s.packet = packet; s.take = sz("take", 0, S / packet) * packet; const bool t = SX_THROWS(b.Read(s, token));
			if (m.n()) { SX_ASSERT(!t && s.calls == 1 && s.eods == 0, "stored data were not delivered first"); m.h += sx_conc(s.got); }
			else { SX_ASSERT(t == exc, "stored exception is not delivered after the data"); SX_ASSERT(s.calls == 0 && s.eods == (eod && !exc ? 1 : 0), "end of data is not delivered after the data"); }
			break; }
		case 2: { const bool t = SX_THROWS(b.EndOfData(token)); SX_ASSERT(t == exc, "end of data after an exception"); if (!t) eod = true; break; }
		case 3: { const bool t = SX_THROWS(b.SetException(std::runtime_error("x"), token)); SX_ASSERT(t == eod, "exception after end of data"); if (!t) exc = true; break; }
		default: b.Clear(); m.h = m.t; eod = exc = false; break;
		}
	}
	sx_observe(m.n());
}
SX_ENTRY(databuf) { switch (sx_choose("cfg", 3)) { case 0: DataBuf(2, 1, false, sx_tier() ? 4 : 3); break; case 1: DataBuf(3, 1, sx_choose("discard", 2), 2); break; default: DataBuf(4, 2, false, sx_tier() ? 3 : 2); break; } sx_reach("databuf"); }
// packets: whole, in order, with their own metadata; padding never shows
namespace {
struct PSink : public virtual IPacketConsumer<int>
{
	const u8* data = nullptr; size_t size = 0; int md = 0, calls = 0, eods = 0; bool accept = true; bool any = true;
	bool Process(const Packet<int>& p, const ICancellationToken&) override { ++calls; SX_ASSERT(any, "packet delivered from an empty buffer"); SX_ASSERT(p.GetSize() == size, "packet size changed"); SX_ASSERT(p.GetMetadata() == md, "packet metadata changed"); u8 x = 0; ConstByteData d = p.GetData(); for (size_t i = 0; i < size; ++i) x |= (u8)(d[i] ^ data[i]); SX_ASSERT(x == 0, "packet bytes changed"); return accept; }
	void EndOfData() override { ++eods; }
};
}
SX_ENTRY(packetbuf)
{
	sx_bytes(src, 40, "b"); CancellationToken token; token.Cancel(); const size_t S = 3 + sx_choose("S", 2); const bool discard = sx_choose("discard", 2);
	PacketBuffer<int> b(discard, S); struct { size_t off, size; int md; } q[16]; int h = 0, t = 0; size_t pos = 0, bytes = 0; bool eod = false; int md = sx_s32("md");
	for (int i = 0; i < (sx_tier() ? 6 : 5); ++i)
	{
		SX_ASSERT(b.GetDataSize() + b.GetFreeSize() == S && b.GetStorageSize() == S, "sizes of the packet buffer"); SX_ASSERT(b.GetDataSize() >= bytes, "stored packets are not counted");
		const u32 op = sx_choose("op", i == 0 ? 1 : i < 3 ? 3 : 4);
		if (op == 0)
		{
			const size_t n = sz("n", 1, S); bool r = false; SX_ASSERT(!SX_THROWS(r = b.Process(Packet<int>(ConstByteData(src + pos, n), md + i), token)), "packet refused with an exception");
			if (h == t) SX_ASSERT(r, "packet that fits an empty buffer was refused");
			if (n > S - bytes) SX_ASSERT(r == discard, "packet accepted beyond the free size");
			// a discarding buffer returns true either way: what it kept shows in the stored size
			const bool kept = discard ? b.GetDataSize() >= bytes + n && n <= S - bytes && true : r;
			if (r && kept) { q[t].off = pos; q[t].size = n; q[t].md = md + i; ++t; bytes += n; pos += n; }
		}
		else if (op == 1)
		{
			PSink s; s.any = h < t; if (s.any) { s.data = src + q[h].off; s.size = q[h].size; s.md = q[h].md; } s.accept = sx_choose("accept", 2);
			SX_ASSERT(!SX_THROWS(b.Read(s, token)), "read failed");
			if (s.any) { SX_ASSERT(s.calls == 1 && s.eods == 0, "stored packet was not delivered"); if (s.accept) { bytes -= q[h].size; ++h; } }
			else SX_ASSERT(s.calls == 0 && s.eods == (eod ? 1 : 0), "end of data after the last packet");
		}
		else if (op == 2) { b.EndOfData(); eod = true; }
		else { b.Clear(); h = t; bytes = 0; eod = false; SX_ASSERT(b.GetDataSize() == 0, "cleared buffer holds data"); }
	}
	sx_observe(bytes); sx_reach("packets");
}
// pages
namespace {
struct Pages : public PagedBuffer
{
	struct Page : public IPage
	{
		u8 d[4]; 
		size_t Read(u64 offset, IDataConsumer& c, const ICancellationToken& t) override { return c.Process(ConstByteData(d + offset, limit - offset), t); }
		size_t Write(u64 offset, ConstByteData data, const ICancellationToken&) override { SX_ASSERT(offset + data.size() <= 4, "write outside the page"); memcpy(d + offset, data.data(), data.size()); if (offset + data.size() > limit) limit = offset + data.size(); return data.size(); }
		size_t limit = 0;
	};
	int pages = 0;
	Pages(u64 ps, size_t cs) : PagedBuffer("x", ps, cs) { }
	IPagePtr CreatePage(size_t) override { ++pages; return make_shared_ptr<Page>(); }
};
struct PgSink : public virtual IDataConsumer
{
	const u8* m; size_t avail, take, got = 0, given = 0; int calls = 0;
	size_t Process(ConstByteData d, const ICancellationToken&) override { ++calls; given = d.size(); SX_ASSERT(d.size() <= avail, "read past the pushed data"); u8 x = 0; for (size_t i = 0; i < d.size(); ++i) x |= (u8)(d[i] ^ m[i]); SX_ASSERT(x == 0, "bytes read differ from the bytes pushed at this offset"); got = std::min(take, d.size()); return got; }
	void EndOfData(const ICancellationToken&) override { SX_FAIL(); }
	static void SX_FAIL() { sx_fail("paged buffer reports end of data"); }
};
}
SX_ENTRY(paged)
{
	sx_bytes(src, 40, "b"); CancellationToken cancelled; cancelled.Cancel(); DummyCancellationToken dt;
	const u64 ps = 2 + 2 * sx_choose("page", 2); const size_t cs = 1; Pages b(ps, cs); u64 total = 0, start = 0, cur = 0;
	for (int i = 0; i < (sx_tier() ? 5 : 4); ++i)
	{
		SX_ASSERT(b.GetStorageSize() == total - start, "storage size is not what was pushed and not popped");
		const u32 op = sx_choose("op", i == 0 ? 1 : 4);
		if (op == 0) { const size_t n = sz("n", 0, 5); SX_ASSERT(!SX_THROWS(b.Push(ConstByteData(src + total, sx_conc(n)), dt)), "push failed"); total += sx_conc(n); }
		else if (op == 1) { const u64 n = sx_u64("pop"); const bool t = SX_THROWS(b.Pop(n)); SX_ASSERT(t == (n > total - start), "pop beyond the stored data"); if (!t) { start += sx_conc(n); if (cur < start) cur = start; } }
		else if (op == 2) { const u64 o = sx_u64("seek"); const bool t = SX_THROWS(b.Seek(o)); SX_ASSERT(t == (o > total - start), "seek beyond the stored data"); if (!t) cur = start + sx_conc(o); }
		else { PgSink s; s.m = src + cur; s.avail = total - cur; s.take = sx_choose("take", 3) * 2; if (cur < total) { SX_ASSERT(!SX_THROWS(b.Read(s, dt)) && s.calls == 1, "unread data were not delivered"); cur += sx_conc(s.got); } else { SX_ASSERT(!SX_THROWS(b.Read(s, cancelled)) && s.calls == 0, "read with nothing unread"); } }
	}
	PgSink s; s.m = src + cur; s.avail = total - cur; s.take = 9; while (cur < total) { s.calls = 0; b.Read(s, dt); SX_ASSERT(s.calls == 1 && s.got > 0, "rest of the data is not delivered"); cur += s.got; s.m = src + cur; s.avail = total - cur; }
	sx_observe(total - start); sx_reach("paged");
}
