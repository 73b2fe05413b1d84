// Library-driven run of the same input the program gets: every state after every step, as raw doubles.
// stdin: eps interval l0 minStep courant g rho nu re surf c min[D] max[D] ; n ; rows: type x[D] u[D] p n ; tEnd maxSteps
// stdout: records  kind(1 state, 0 error) t live [n * (2D+3) doubles], or for an error: 0 t messageLength messageBytes(as doubles)
#include "cfg.hpp"
#include "Computer.hpp"
#include <cstdio>
#include <memory>
#include <vector>
#ifdef DIM3
enum { D = 3 };
#else
enum { D = 2 };
#endif
static double rd() { double v; if (scanf("%lf", &v) != 1) { fprintf(stderr, "bad input\n"); exit(4); } return v; }
static std::vector<double> out;
static void flush() { fwrite(out.data(), sizeof(double), out.size(), stdout); out.clear(); }
int main()
{
	const double eps = rd(), interval = rd(), l0 = rd(); const std::size_t minStep = (std::size_t)rd();
	const double courant = rd(), g = rd(), rho = rd(), nu = rd(), re = rd(), surf = rd(), c = rd();
	double mn[3], mx[3]; for (int d = 0; d < D; d++) mn[d] = rd(); for (int d = 0; d < D; d++) mx[d] = rd();
	(void)eps; (void)surf; (void)c;
	auto env = OpenMps::Environment(interval / (double)minStep, courant, g, rho, nu,
#ifndef MPS_SPP
		surf,
#endif
		re,
#ifdef PRESSURE_EXPLICIT
		c,
#endif
		l0,
#ifdef DIM3
		mn[0], mn[1], mn[2], mx[0], mx[1], mx[2]
#else
		mn[0], mn[1], mx[0], mx[1]
#endif
	);
	const std::size_t n = (std::size_t)rd();
	std::vector<OpenMps::Particle> ps; std::vector<OpenMps::Vector> x0;
	for (std::size_t i = 0; i < n; i++)
	{
		OpenMps::Particle p(static_cast<OpenMps::Particle::Type>((int)rd()));
		for (int d = 0; d < D; d++) p.X()[d] = rd();
		for (int d = 0; d < D; d++) p.U()[d] = rd();
		p.P() = rd(); p.N() = rd();
		x0.push_back(p.X()); ps.push_back(std::move(p));
	}
	const double tEnd = rd(); const long maxSteps = (long)rd();
	const auto wall = [&x0](auto i, auto, auto) { return x0[i]; };
	const auto pre = [](auto, auto) {};
	auto comp = OpenMps::CreateComputer(
#ifndef PRESSURE_EXPLICIT
		eps,
#endif
		env, wall, pre);
	comp.AddParticles(std::move(ps));
	const auto dump = [&]
	{
		double live = 0;
		for (const auto& p : comp.Particles()) live += p.TYPE() != OpenMps::Particle::Type::Disabled;
		out.push_back(1); out.push_back(comp.GetEnvironment().T()); out.push_back(live);
		for (const auto& p : comp.Particles())
		{
			out.push_back((double)static_cast<int>(p.TYPE()));
			for (int d = 0; d < D; d++) out.push_back(p.X()[d]);
			for (int d = 0; d < D; d++) out.push_back(p.U()[d]);
			out.push_back(p.P()); out.push_back(p.N());
		}
		flush();
	};
	dump();
	bool beyond = false;
	for (long k = 0; k < maxSteps; k++)
	{
		if (beyond) break;
		beyond = comp.GetEnvironment().T() >= tEnd * (1 + 1e-9);
		try { comp.ForwardTime(); }
		catch (const std::exception& e)
		{
			const std::string m = e.what();
			out.push_back(0); out.push_back(comp.GetEnvironment().T()); out.push_back((double)m.size());
			for (unsigned char ch : m) out.push_back(ch);
			flush();
			return 0;
		}
		dump();
	}
	return 0;
}
