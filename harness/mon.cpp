#include "common.hpp"
#include <csignal>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
#include <thread>
Report R;
std::string G(double v) { char b[40]; snprintf(b, sizeof b, "%.9g", v); return b; }

#include "m_search.hpp"
#include "m_phase.hpp"
#include "m_solver.hpp"
#include "m_step.hpp"
#include "m_twin.hpp"
#include "m_long.hpp"
#include "m_bench.hpp"

// tell the driver in which case the program died
static void OnSignal(int sig)
{
	char b[64]; int n = 0; long v = R.cur; char d[24]; int k = 0;
	if (v < 0) v = 0;
	do { d[k++] = (char)('0' + v % 10); v /= 10; } while (v);
	b[n++] = '\n'; b[n++] = 'K'; b[n++] = ' '; while (k) b[n++] = d[--k]; b[n++] = '\n';
	if (write(1, b, n) < 0) {}
	_exit(128 + sig);
}

int main(int argc, char** argv)
{
	// mon MODE SEED FIRST COUNT [threads]
	if (argc < 5) return 3;
	const std::string mode = argv[1];
	const std::uint64_t seed = strtoull(argv[2], nullptr, 10);
	const long first = atol(argv[3]), count = atol(argv[4]);
	int threads = argc > 5 ? atoi(argv[5]) : 2;
	SetThreads(threads);
	using F = void (*)(Rng&);
	static const std::map<std::string, F> modes = {
		{"grid", &ModeGrid}, {"search", &ModeSearch}, {"n0", &ModeN0}, {"density", &ModeDensity}, {"explicit", &ModeExplicit},
		{"explicitphys", &ModeExplicitPhys}, {"assembly", &ModeAssembly}, {"implicit", &ModeImplicit}, {"solver", &ModeSolver}, {"solverstep", &ModeSolverStep},
		{"step", &ModeStep}, {"fresh", &ModeFresh}, {"momentum", &ModeMomentum}, {"dt", &ModeDt}, {"walls", &ModeWalls}, {"types", &ModeTypes}, {"disabled", &ModeDisabledTwin},
		{"frames", &ModeFrames}, {"groups", &ModeGroups}, {"portions", &ModePortions}, {"several", &ModeSeveral}, {"after", &ModeAfter}, {"threads", &ModeThreads}, {"threadsbig", &ModeThreadsBig}, {"race", &ModeRace}, {"repulse", &ModeRepulse}, {"push", &ModePush}, {"invert", &ModeInvert},
		{"tank", &ModeTank}, {"dam", &ModeDam}, {"volume", &ModeVolume}, {"drop", &ModeDrop}, {"still", &ModeStill}, {"fail", &ModeFail}, {"hostile", &ModeHostile}, {"dump", &ModeDump},
	};
	// counters that only rise when the oracle compared something that is not trivially true
	static const std::map<std::string, std::vector<const char*>> nontrivial = {
		{"grid", {"pairs", "overflows"}}, {"search", {"pairs"}}, {"n0", {"envs"}}, {"density", {"densities"}}, {"explicit", {"interactions"}},
		{"explicitphys", {"dissipated", "uniform"}}, {"assembly", {"entries"}}, {"implicit", {"interactions", "fast"}}, {"solver", {"solved", "refused"}}, {"solverstep", {"solved", "refused"}},
		{"step", {"displacements"}}, {"fresh", {"compared_steps"}}, {"momentum", {"steps"}}, {"dt", {"steps"}}, {"walls", {"walls"}}, {"types", {"disabled_checked", "left_the_area"}}, {"disabled", {"compared_steps"}},
		{"frames", {"compared_steps"}}, {"groups", {"compared_steps"}}, {"portions", {"compared_steps"}}, {"several", {"compared_steps"}}, {"after", {"compared_steps"}}, {"threads", {"compared_steps"}}, {"threadsbig", {"compared_steps"}}, {"race", {"steps"}}, {"repulse", {"pushed", "unpushed"}}, {"push", {"pushed"}}, {"invert", {"inverted", "singular"}},
		{"tank", {"steps"}}, {"dam", {"steps"}}, {"volume", {"steps"}}, {"drop", {"steps"}}, {"still", {"steps"}}, {"fail", {"failing_runs"}}, {"hostile", {"histories"}}, {"dump", {"cases"}},
	};
	const auto it = modes.find(mode);
	if (it == modes.end()) return 3;
	const auto& keys = nontrivial.at(mode);
#ifndef SANITIZED
	for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTERM}) std::signal(sig, &OnSignal);
#endif
	for (long k = first; k < first + count; k++)
	{
		R.cur = k; R.ctx.clear();
		Rng r(seed * 1000003ull + (std::uint64_t)k * 7919ull + 17);
		it->second(r);
		R.S("cases");
		R.Case(keys);
	}
	R.End();
	return 0;
}
