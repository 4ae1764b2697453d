// Threads for harnesses: started and joined without preemption in library code that is not under test, bodies must not throw.
#pragma once
#include <sx.h>
#include <stingraykit/thread/Thread.h>
#include <stingraykit/unique_ptr.h>
namespace
{
	typedef stingray::unique_ptr<stingray::Thread> Thr;
	typedef void (*Body)(const stingray::ICancellationToken&);
	typedef void (*Body0)();
	struct RunBody : public stingray::function_info<void (const stingray::ICancellationToken&)>
	{
		Body f; Body0 f0;
		explicit RunBody(Body f_) : f(f_), f0(nullptr) { }
		explicit RunBody(Body0 f_) : f(nullptr), f0(f_) { }
		void operator () (const stingray::ICancellationToken& t) const { sx_atomic(0); try { if (f) f(t); else f0(); } catch (const std::exception&) { sx_fail("an exception left the thread's function"); } sx_atomic(1); }
	};
	template < typename B > Thr go(B f) { sx_atomic(1); Thr t(new stingray::Thread("t", RunBody(f))); sx_atomic(0); return t; }
	// waits for the threads to finish by themselves, then destroys them
	void join(Thr& a) { sx_atomic(1); a.reset(); sx_atomic(0); }
}
