#include "engine.h"
#include <sys/resource.h>
int instrument(const std::string&, const std::string&, const std::string&, const std::string&);
int selfTest(uint64_t, int); void listBuiltins();
int main(int argc, char** argv) {
	std::string instOut, instPat, instKeys;
	Engine* e = new Engine(); g_eng = e; Options& o = e->opt;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--selftest") { int n = atoi(nx().c_str()); return selfTest(atoi(nx().c_str()), n); }
		if (a == "--list-builtins") { listBuiltins(); return 0; }
		if (a == "--tier") { o.tier = atoi(nx().c_str()); continue; }
		if (a == "--instrument") { instOut = nx(); continue; } if (a == "--points") { instPat = nx(); continue; } if (a == "--keys") { instKeys = nx(); continue; }
		if (a == "--entry") o.entry = nx(); else if (a == "--out") o.out = nx(); else if (a == "--time") o.timeLimit = atof(nx().c_str()); else if (a == "--steps") o.maxSteps = strtoull(nx().c_str(), 0, 10);
		else if (a == "--slots") o.slots = nx(); else if (a == "--sample") o.sample = atoi(nx().c_str()); else if (a == "-v") o.verbose = true; else if (a == "--maxviol") o.maxViol = atoi(nx().c_str()); else if (a == "--preempt") o.preemptBound = atoi(nx().c_str());
		else if (a == "--timeouts") o.timeouts = atoi(nx().c_str()); else if (a == "--race") o.race = true; else if (a == "--mem") o.memLimitMB = atoi(nx().c_str()); else if (a == "--trace-calls") o.traceCalls = true; else if (a == "--solver-ms") g_solverMs = atoi(nx().c_str()); else if (a == "--leak") o.leak = true;
		else o.bc = a;
	}
	if (!instOut.empty()) return instrument(o.bc, instOut, instPat, instKeys);
	rlimit rl{1ull << 30, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
	e->run();
}
