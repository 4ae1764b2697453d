// X07: bytes handed over between threads.
#include "threads.h"
#include <stingraykit/io/AsyncByteStream.h>
#include <stingraykit/io/BithreadPipe.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/DataBuffer.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/PacketBuffer.h>
#include <stingraykit/io/PagedBuffer.h>
#include <stingraykit/io/PipeReader.h>
#include <stingraykit/io/SynchronizedPipe.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/thread/TimedCancellationToken.h>
#include <stingraykit/io/IntermediateDataBuffer.h>

using namespace stingray;

namespace
{
	TimeDuration us(s64 v) { return TimeDuration::FromMicroseconds(v); }
	DummyCancellationToken dt; u8 src[24]; CancellationToken *gtok, *gstop; Mutex gm; u32 glimit;
	void start() { sx_atomic(1); { Thr w = go(+[] { }); } sx_atomic(1); sx_bytes(src, sizeof(src), "b"); glimit = sx_u32("limit"); sx_atomic(0); }
	bool same(const u8* a, const u8* b, size_t n) { u8 x = 0; for (size_t i = 0; i < n; ++i) x |= (u8)(a[i] ^ b[i]); return x == 0; }
	void lockPoint() { MutexLock l(gm); }
	void cancelIt() { gtok->Cancel(); }
}

// a pipe between two threads hands over every byte once and in order; a write returns when all its bytes are read
static BithreadPipe* gpipe; static size_t gsize[2], gtaken; static bool gwrote[2]; static int gfailed;
static void pipeWriter() { size_t pos = 0; for (int i = 0; i < 2; ++i) { u8* tmp = new u8[gsize[i]]; memcpy(tmp, src + pos, gsize[i]); SX_ASSERT(gpipe->Write(ConstByteData(tmp, gsize[i]), dt) == gsize[i], "all written"); memset(tmp, 0, gsize[i]); delete[] tmp; pos += gsize[i]; SX_ASSERT(gtaken >= pos - 3 || gtaken + 3 >= pos, "after it is read"); gwrote[i] = true; } }
SX_ENTRY(pipe_threads)
{
	start(); BithreadPipe p; gpipe = &p; for (int i = 0; i < 2; ++i) { gsize[i] = 1 + sx_choose("size", 3); gwrote[i] = false; } gtaken = 0; const size_t all = gsize[0] + gsize[1], step = 1 + sx_choose("step", 3);
	Thr w = go(&pipeWriter); u8 got[8];
	while (gtaken < all)
	{
		if (gtaken < gsize[0]) SX_ASSERT(!gwrote[0], "a write returns when it is read"); if (gtaken >= gsize[0]) SX_ASSERT(!gwrote[1], "a write returns when it is read"); if (p.Peek()) sx_reach("peek");
		const size_t n = p.Read(ByteData(got + gtaken, step), dt); SX_ASSERT(n >= 1 && n <= step && n <= (gtaken < gsize[0] ? gsize[0] : all) - gtaken, "what was asked for"); gtaken += n;
	}
	join(w); SX_ASSERT(same(got, src, all) && gwrote[0] && gwrote[1], "every byte, in order"); SX_ASSERT(!p.Peek(), "nothing is left"); SX_ASSERT(SX_THROWS(p.Read(ByteData(got, 1), TimedCancellationToken(us(0)))), "no more"); sx_reach("end");
}

// a cancelled write leaves nothing behind, a cancelled read takes nothing
static void timedWriter() { u8* tmp = new u8[3]; memcpy(tmp, src, 3); try { gpipe->Write(ConstByteData(tmp, 3), *gtok); gwrote[0] = true; } catch (const OperationCancelledException&) { gfailed = 1; } memset(tmp, 0xAA, 3); delete[] tmp; gpipe->Write(ConstByteData(src + 3, 2), dt); gstop->Cancel(); }
static void plainWriter() { gpipe->Write(ConstByteData(src, 3), dt); }
SX_ENTRY(pipe_cancel)
{
	start(); BithreadPipe p; gpipe = &p; CancellationToken t; gtok = &t; gfailed = 0; gwrote[0] = false; u8 got[8]; size_t n = 0; const unsigned step = 1 + sx_choose("step", 2);
	if (sx_choose("side", 2))
	{
		CancellationToken stop; gstop = &stop; Thr w = go(&timedWriter), c = go(&cancelIt); try { while (n < 8) n += p.Read(ByteData(got + n, std::min<size_t>(step, 8 - n)), stop); } catch (const OperationCancelledException&) { } join(w); join(c);
		if (gfailed) { SX_ASSERT(n >= 2 && n <= 5 && same(got, src, n - 2) && same(got + n - 2, src + 3, 2), "a part of the cancelled write, then the next one"); sx_reach("cancelled"); } else { SX_ASSERT(n == 5 && same(got, src, 5) && gwrote[0], "everything"); sx_reach("written"); }
	}
	else
	{
		Thr w = go(&plainWriter), c = go(&cancelIt); while (n < 3) try { n += p.Read(ByteData(got + n, step), t); } catch (const OperationCancelledException&) { SX_ASSERT(!t, "cancelled"); ++gfailed; n += p.Read(ByteData(got + n, step), dt); } join(w); join(c); SX_ASSERT(n == 3 && same(got, src, 3), "nothing is lost"); if (gfailed) sx_reach("read_cancelled");
	}
	sx_reach("end");
}

// writes of several threads to a synchronized pipe come out whole
struct RecPipe : public virtual IPipe
{
	u8 d[16]; int who[16]; size_t n = 0, part; int busy = 0, calls = 0, failAt = 99;
	u64 Read(ByteData, const ICancellationToken&) override { return 0; }
	u64 Write(ConstByteData data, const ICancellationToken&) override { SX_ASSERT(++busy == 1, "one at a time"); lockPoint(); const size_t k = std::min(part, data.size()); memcpy(d + n, data.data(), k); for (size_t i = 0; i < k; ++i) who[n + i] = (int)(data.data() + i - src); n += k; --busy; if (++calls == failAt) throw std::runtime_error("pipe"); return k; }
	bool Peek(const ICancellationToken&) override { return false; }
};
static SynchronizedPipe* gsp; static int gout[2];
template < int I > static void spWriter() { try { gsp->Write(ConstByteData(src + 3 * I, 3), *gtok); gout[I] = 1; } catch (const OperationCancelledException&) { gout[I] = 2; } catch (const std::runtime_error&) { gout[I] = 3; } }
SX_ENTRY(pipe_shared)
{
	start(); sx_atomic(1); CancellationToken t; gtok = &t; shared_ptr<RecPipe> r = make_shared_ptr<RecPipe>(); r->part = 1 + 2 * sx_choose("part", 2); const unsigned k = sx_choose("kind", 3); if (k == 1) r->failAt = 1; SynchronizedPipe p(r); gsp = &p; gout[0] = gout[1] = 0; sx_atomic(0);
	{ Thr a = go(&spWriter<0>), b = go(&spWriter<1>); if (k == 2) cancelIt(); join(a); join(b); }
	if (k == 0) SX_ASSERT(gout[0] == 1 && gout[1] == 1 && r->n == 6, "both written");
	if (k == 1) SX_ASSERT(gout[0] + gout[1] == 4, "one fails, the other one goes on");
	size_t pos = 0; bool used[2] = { false, false };
	while (pos < r->n) { const int j = r->who[pos] / 3; SX_ASSERT(r->who[pos] == 3 * j && !used[j], "from its beginning, once"); used[j] = true; size_t m = 0; while (m < 3 && pos + m < r->n && r->who[pos + m] == 3 * j + (int)m) ++m; SX_ASSERT(same(r->d + pos, src + 3 * j, m) && (gout[j] == 1 ? m == 3 : gout[j] == 3 ? m == r->part : true), "whole writes one after another"); pos += m; }
	for (int j = 0; j < 2; ++j) if (gout[j] == 1) SX_ASSERT(used[j], "written"); if (gout[0] == 2 || gout[1] == 2) sx_reach("cancelled");
	u8 x = 1; r->failAt = 99; const size_t was = r->n; SX_ASSERT(p.Write(ConstByteData(&x, 1), dt) == 1 && r->n == was + 1, "still usable"); sx_reach("end");
}

// a data buffer between threads: everything accepted comes out once and in order, then the end or the error
struct Sink : public virtual IDataConsumer
{
	u8 d[16]; size_t n = 0, take; int eods = 0; const char* what = nullptr;
	size_t Process(ConstByteData data, const ICancellationToken&) override { const size_t k = std::min(take, data.size()); SX_ASSERT(data.size() && n + k <= 16, "data"); memcpy(d + n, data.data(), k); lockPoint(); SX_ASSERT(same(d + n, data.data(), k), "data stay while they are read"); n += k; return k; }
	void EndOfData(const ICancellationToken&) override { ++eods; }
};
static DataBuffer* gdb; static size_t gtotal; static unsigned gend;
static void dbWriter() { ConsumeAll(*gdb, ConstByteData(src, gtotal), dt); if (gend == 1) gdb->SetException(std::runtime_error("source"), dt); else gdb->EndOfData(dt); }
template < int I > static void dbWriters() { ConsumeAll(*gdb, ConstByteData(src + 3 * I, 3), dt); if (I == 1) lockPoint(); }
SX_ENTRY(buffer_threads)
{
	start(); sx_atomic(1); const size_t S = 2 + sx_choose("size", 2), packet = S == 2 ? 1 : 1; DataBuffer b(false, S, DataBuffer::Parameters(packet)); gdb = &b; gend = sx_choose("end", 2); gtotal = 3 + sx_choose("more", 2); Sink s; s.take = 1 + sx_choose("take", 2); sx_atomic(0);
	{ Thr w = go(&dbWriter); bool thrown = false; for (int i = 0; i < 30 && !s.eods && !thrown; ++i) { try { b.Read(s, dt); } catch (const std::exception& ex) { thrown = true; } SX_ASSERT(b.GetDataSize() <= S, "within its size"); } SX_ASSERT(s.eods == (gend == 0) && thrown == (gend == 1), "the end comes after the data"); join(w); }
	SX_ASSERT(s.n == gtotal && same(s.d, src, gtotal) && b.GetDataSize() == 0 && b.HasEndOfDataOrException(), "every byte, in order"); b.Clear(); SX_ASSERT(!b.HasEndOfDataOrException() && b.Process(ConstByteData(src, 1), dt) == 1, "usable again"); sx_reach("end");
}
SX_ENTRY(buffer_writers)
{
	start(); sx_atomic(1); DataBuffer b(false, 2 + sx_choose("size", 2)); gdb = &b; Sink s; s.take = 2; sx_atomic(0); Thr x = go(&dbWriters<0>), y = go(&dbWriters<1>); for (int i = 0; i < 40 && s.n < 6; ++i) b.Read(s, dt); join(x); join(y); SX_ASSERT(s.n == 6, "everything");
	// each writer's bytes in its own order: some interleaving of the two
	bool can[4][4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) can[i][j] = (i == 0 && j == 0) || (i && sx_and(can[i - 1][j], s.d[i + j - 1] == src[i - 1])) || (j && sx_and(can[i][j - 1], s.d[i + j - 1] == src[3 + j - 1])); SX_ASSERT(can[3][3], "each in its order"); sx_reach("end");
}
static void dbClose() { if (gend == 0) gdb->EndOfData(dt); else if (gend == 1) gdb->SetException(std::runtime_error("x"), dt); else if (gend == 2) ConsumeAll(*gdb, ConstByteData(src, 2), dt); else gtok->Cancel(); }
SX_ENTRY(buffer_wait)
{
	start(); sx_atomic(1); DataBuffer b(false, 3); gdb = &b; CancellationToken t; gtok = &t; gend = sx_choose("end", 4); Sink s; s.take = 3; if (sx_choose("one", 2) && gend != 2) b.Process(ConstByteData(src + 5, 1), dt); sx_atomic(0);
	Thr w = go(&dbClose); if (sx_choose("read", 2) && gend != 2) { while (!s.eods) { bool ex = false; try { b.Read(s, t); } catch (const std::exception&) { ex = true; } if (ex) { SX_ASSERT(gend == 1, "its error"); break; } if (gend == 3 && !t) break; } } else { b.WaitForData(2, t); if (gend < 2) SX_ASSERT(b.HasEndOfDataOrException(), "until the end"); if (gend == 2) SX_ASSERT(b.GetDataSize() == 2, "until there is enough"); if (gend == 3) SX_ASSERT(!t, "until cancelled"); } join(w); sx_reach("end");
}

// pages written by two threads and read by a third: every push in one piece, every byte once, while old pages are dropped
namespace
{
	struct Pages : public PagedBuffer
	{
		struct Page : public IPage
		{
			Mutex m; u8 d[4]; size_t limit = 0;
			size_t Read(u64 offset, IDataConsumer& c, const ICancellationToken& t) override { u8 x[4]; size_t n; { MutexLock l(m); SX_ASSERT(offset <= limit, "inside the page"); n = limit - offset; memcpy(x, d + offset, n); } return n ? c.Process(ConstByteData(x, n), t) : 0; }
			size_t Write(u64 offset, ConstByteData data, const ICancellationToken&) override { MutexLock l(m); SX_ASSERT(offset == limit && offset + data.size() <= 4, "at the end of the page"); memcpy(d + offset, data.data(), data.size()); limit += data.size(); return data.size(); }
		};
		Pages() : PagedBuffer("x", 4, 1) { }
		IPagePtr CreatePage(size_t) override { return make_shared_ptr<Page>(); }
	};
	Pages* gpg; size_t gpush[3]; u8 gshared; unsigned gpop;
}
static void pgPopper() { gpg->Pop(4); }
template < int I > static void pgWriter() { gpg->Push(ConstByteData(src + 7 * I, gpush[I]), dt); }
SX_ENTRY(paged_threads)
{
	start(); sx_atomic(1); Pages b; gpg = &b; const int W = 1 + sx_choose("writers", 3); size_t all; const unsigned pop = W == 3 ? 0 : sx_choose("pop", W == 2 ? 2 : 3); const size_t first = pop == 2 ? 4 : W > 1 ? 3 * sx_choose("some", 2) : sx_choose("stored", 4); gpush[0] = W == 3 ? 3 : 1 + sx_choose("p0", 3) * 2; gpush[1] = W > 1 ? 2 : 0; gpush[2] = W > 2 ? 1 : 0; Sink s; s.take = W > 1 || sx_choose("take", 2) ? 8 : 1;
	if (first) b.Push(ConstByteData(src + 20, first), dt); all = first + gpush[0] + gpush[1] + gpush[2]; if (pop == 2) while (s.n < 4) b.Read(s, dt); sx_atomic(0);
	{ Thr x = go(&pgWriter<0>), y, w; if (W > 1) y = go(&pgWriter<1>); if (W > 2) w = go(&pgWriter<2>); Thr z; if (pop == 2) z = go(&pgPopper); size_t gone = pop == 2 ? 4 : 0; for (int i = 0; i < 40 && s.n < all; ++i) { b.Read(s, dt); SX_ASSERT(s.n <= all, "nothing twice"); if (pop == 1 && s.n > gone) { b.Pop(s.n - gone); gone = s.n; } } join(x); if (W > 1) join(y); if (W > 2) join(w); if (pop == 2) join(z); SX_ASSERT(b.GetStorageSize() == all - gone, "stored"); }
	SX_ASSERT(s.n == all && same(s.d, src + 20, first), "everything"); int any = 0; static const u8 orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (int o = 0; o < 6; ++o) { const u8* r = s.d + first; int ok = 1; for (int k = 0; k < 3; ++k) { const int i = orders[o][k]; ok = sx_and(ok, same(r, src + 7 * i, gpush[i])); r += gpush[i]; } any = sx_or(any, ok); }
	SX_ASSERT(any, "every push in one piece"); sx_reach("end");
}

// a buffer filled by its own thread: what its source gave comes out once and in order, then the end or the error; it can be dropped at any time
struct Feed : public virtual IDataSource
{
	size_t at = 0, total, piece; bool err; int ended = 0;
	void Read(IDataConsumer& c, const ICancellationToken& t) override { lockPoint(); if (at == total) { SX_ASSERT(!ended++, "not read after its end"); if (err) throw std::runtime_error("source"); c.EndOfData(t); return; } const size_t k = std::min(piece, total - at), done = c.Process(ConstByteData(src + at, k), t); SX_ASSERT(done <= k, "no more than offered"); at += done; }
};
SX_ENTRY(buffer_worker)
{
	start(); sx_atomic(1); const size_t S = 2 + sx_choose("size", 2); shared_ptr<Feed> f = make_shared_ptr<Feed>(); f->total = sx_choose("total", 5); f->piece = 1 + sx_choose("piece", 3); f->err = sx_choose("err", 2); const size_t stop = sx_choose("stop", 3); Sink s; s.take = 1 + 15 * sx_choose("take", 2); shared_ptr<DataBuffer> b = make_shared_ptr<DataBuffer>(false, S); sx_atomic(0);
	{
		IntermediateDataBuffer w("w", f, b); bool thrown = false; for (int i = 0; i < 30 && !s.eods && !thrown && !(stop && s.n >= stop - 1); ++i) { try { w.Read(s, dt); } catch (const std::exception&) { thrown = true; } }
		if (s.eods || thrown) { SX_ASSERT(thrown == f->err && s.eods == !f->err, "the end or the error of the source"); SX_ASSERT(s.n == f->total, "after all its bytes"); sx_reach("ended"); } else { SX_ASSERT(stop, "the source ends"); sx_reach("dropped"); }
	}
	SX_ASSERT(s.n <= f->total && same(s.d, src, s.n) && s.n <= f->at && f->at <= s.n + S, "its bytes, in order"); SX_ASSERT(s.n + b->GetDataSize() == f->at, "what is not read yet is in the buffer"); sx_reach("end");
}

// packets between threads: whole, once, in order, with their metadata
struct PSink : public virtual IPacketConsumer<int>
{
	size_t n = 0, pos = 0; const size_t* sizes; int eods = 0; int refuse = 0;
	bool Process(const Packet<int>& p, const ICancellationToken&) override { SX_ASSERT(n < 4 && p.GetSize() == sizes[n] && p.GetMetadata() == (int)n, "the next packet"); if (refuse && n == 1) { --refuse; return false; } ConstByteData d = p.GetData(); SX_ASSERT(same(d.data(), src + pos, d.size()), "its bytes"); lockPoint(); SX_ASSERT(same(d.data(), src + pos, d.size()), "they stay while it is read"); pos += d.size(); ++n; return true; }
	void EndOfData() override { ++eods; }
};
static PacketBuffer<int>* gpb; static size_t gsizes[4];
static void pkWriter() { size_t pos = 0; for (int i = 0; i < 3; ++i) { const Packet<int> p(ConstByteData(src + pos, gsizes[i]), i); for (int k = 0; !gpb->Process(p, dt); ++k) SX_ASSERT(k < 20, "it finds room"); pos += gsizes[i]; } gpb->EndOfData(); }
SX_ENTRY(packet_threads)
{
	start(); sx_atomic(1); PacketBuffer<int> b(false, 3 + sx_choose("size", 2)); gpb = &b; for (int i = 0; i < 3; ++i) gsizes[i] = 1 + sx_choose("n", 3); PSink s; s.sizes = gsizes; s.refuse = sx_choose("refuse", 2); sx_atomic(0);
	{ Thr w = go(&pkWriter); for (int i = 0; i < 30 && !s.eods; ++i) b.Read(s, dt); join(w); } SX_ASSERT(s.n == 3 && s.eods == 1 && b.GetDataSize() <= 3, "every packet"); sx_reach("end");
}

// an asynchronous stream writes behind: after Sync and at its end the stream below holds what was written
struct Store : public virtual ISyncableByteStream
{
	u8 d[16]; size_t len = 0, pos = 0; unsigned part = 99; int syncs = 0, fail = 99, writes = 0, busy = 0;
	u64 Read(ByteData, const ICancellationToken&) override { return 0; }
	u64 Write(ConstByteData data, const ICancellationToken&) override { SX_ASSERT(++busy == 1, "one at a time"); lockPoint(); if (++writes >= fail) { --busy; throw std::runtime_error("disk"); } const size_t k = std::min<size_t>(part, data.size()); SX_ASSERT(pos + k <= 16, "inside"); memcpy(d + pos, data.data(), k); pos += k; if (pos > len) len = pos; --busy; return k; }
	void Seek(s64 o, SeekMode m) override { pos = m == SeekMode::End ? len + o : o; }
	u64 Tell() const override { return pos; }
	void Sync() override { ++syncs; }
};
struct Model { u8 d[16]; bool w[16]; size_t len, pos; };
static void holds(const Store& s, const Model& m) { u8 x = 0; for (int i = 0; i < 16; ++i) if (m.w[i]) x |= (u8)(m.d[i] ^ s.d[i]); SX_ASSERT(x == 0, "what was written last is there"); SX_ASSERT(s.len == m.len, "its length"); }
static void asyncRun(int ops, bool freeze)
{
	shared_ptr<Store> st = make_shared_ptr<Store>(); Model m; memset(m.w, 0, sizeof(m.w)); for (int i = 0; i < 2; ++i) { st->d[i] = m.d[i] = src[20 + i]; m.w[i] = true; } st->len = m.len = 2; m.pos = st->pos = sx_choose("at", 2); st->part = sx_choose("part", 2) ? 1 : 99; size_t nx = 0;
	const unsigned cfg = sx_choose("cfg", freeze ? 4 : 3); AsyncByteStream::Config c; c.SubStreamsHint(1).MergeablePagesHint(1).PageSize(1); const auto make = [&](unsigned k) { AsyncByteStream::Config x(c); return k == 0 ? x.BufferSize(2) : k == 1 ? x.BufferSize(4).PageSize(2) : x.BufferSize(k == 2 ? 8 : 12).MergeablePagesHint(2).PageSize(2); };
	{
		sx_atomic(1); AsyncByteStream a("a", st, make(cfg)); sx_atomic(0); unique_ptr<MutexLock> l; if (freeze) l.reset(new MutexLock(gm));
		for (int i = 0; i < ops; ++i)
		{
			SX_ASSERT(a.Tell() == m.pos, "position"); const unsigned op = i + 1 == ops || freeze ? 0 : sx_choose("op", 3);
			if (op == 0) { const int o = i ? (int)sx_choose("seek", freeze ? 5 : 4) - 1 : -1; if (o >= 0) { const size_t to = o == 3 ? 3 : o * 2 + (o == 2); m.pos = to; a.Seek(to); } const size_t n = 1 + sx_choose("n", 2); u8 tmp[3]; memcpy(tmp, src + nx, n); const u64 w = a.Write(ConstByteData(tmp, n), dt); SX_ASSERT(w <= n, "a part of it"); memset(tmp, 0, 3); for (u64 k = 0; k < w; ++k) { m.d[m.pos] = src[nx + k]; m.w[m.pos++] = true; } nx += w; if (w && m.pos > m.len) m.len = m.pos; if (i == 0) SX_ASSERT(w > 0, "it has room"); }
			else if (op == 1) { if (sx_choose("end", 2)) { a.Seek(-1, SeekMode::End); m.pos = m.len - 1; } else { a.Seek(1, SeekMode::Current); ++m.pos; } }
			else a.Reconfigure(make(sx_choose("new", 2)));
		}
		l.reset(); if (sx_choose("wait", 2)) { sx_quiesce(); u8 x = 9; const size_t p = m.pos; if (a.Write(ConstByteData(&x, 1), dt)) { m.d[p] = 9; m.w[p] = true; if (p + 1 > m.len) m.len = p + 1; } }
	}
	holds(*st, m); sx_reach("end");
}
SX_ENTRY(async_stream) { start(); asyncRun(sx_tier() ? 3 : 2, false); }
SX_ENTRY(async_merge) { start(); asyncRun(sx_tier() ? 3 : 4, true); } // the thread stands still while the writes are queued
SX_ENTRY(async_sync)
{
	start(); sx_atomic(1); { AsyncByteStream w("w", make_shared_ptr<Store>()); w.Sync(); } shared_ptr<Store> st = make_shared_ptr<Store>(); AsyncByteStream::Config c; c.SubStreamsHint(1).MergeablePagesHint(1).PageSize(1).BufferSize(4); const unsigned k = sx_choose("kind", 3); st->part = 1 + sx_choose("part", 2); if (k == 1) c.EnableNonBlockingSync(); if (k == 2) st->fail = 1 + sx_choose("fail", 2);
	{
		AsyncByteStream a("a", st, c); sx_atomic(0); bool t = false; size_t done = 0; try { done = a.Write(ConstByteData(src, 3), dt); a.Sync(); if (k == 0) { SX_ASSERT(st->len == done && same(st->d, src, done) && st->syncs == 1, "synced"); } else if (k == 1) { sx_quiesce(); SX_ASSERT(st->len == done && st->syncs == 1, "soon synced"); } done += a.Write(ConstByteData(src + done, 1), dt); a.Sync(); if (k == 0) SX_ASSERT(st->len == done && same(st->d, src, done) && st->syncs == 2, "synced"); } catch (const std::exception&) { t = true; }
		if (t) { SX_ASSERT(k == 2, "failed"); SX_ASSERT(SX_THROWS(a.Write(ConstByteData(src, 1), dt)) && SX_THROWS(a.Sync()) && SX_THROWS(a.Tell()), "stays failed"); sx_reach("failed"); }
		else { SX_ASSERT(k != 2 || st->writes < st->fail, "an error is reported by Sync"); sx_reach("synced"); }
	}
	if (k != 2) SX_ASSERT(st->syncs == 2, "synced"); sx_reach("end");
}
