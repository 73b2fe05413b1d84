#pragma once
#include "sim.hpp"
#include "report.hpp"
#include <chrono>
#include <cstring>

using ref::L; using ref::V; using ref::Model; using ref::Field; using gen::Rng; using gen::Options;

struct St
{
	std::vector<V> x, u; std::vector<int> ty; std::vector<L> p, n;
	explicit St(const std::vector<P>& s)
	{
		const auto m = s.size();
		x.resize(m); u.resize(m); ty.resize(m); p.resize(m); n.resize(m);
		for (std::size_t i = 0; i < m; i++) { for (int d = 0; d < D; d++) { x[i][d] = s[i].x[d]; u[i][d] = s[i].u[d]; } ty[i] = s[i].type; p[i] = s[i].p; n[i] = s[i].n; }
	}
};

inline double Rel(double cond) { return 1e-12 + 1e-13 * cond; }
inline bool Close(L obs, L exp, L tol) { return std::fabs(obs - exp) <= tol; } // false for NaN
inline bool SameBits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }

inline L Vmax(const St& s) { L m = 0; for (auto& v : s.u) m = std::max(m, ref::norm(v)); return m; }
inline L Xmax(const St& s) { L m = 0; for (std::size_t i = 0; i < s.x.size(); i++) if (s.ty[i] != DISABLED) for (int d = 0; d < D; d++) m = std::max(m, std::fabs(s.x[i][d])); return m; }

inline Model MakeModel(const Scene& s, Sim& sim)
{
#ifdef MPS_HL
	return Model(s.e, (L)sim.Env().N0());
#else
	return Model(s.e, (L)sim.Env().N0(), (L)sim.Env().Lambda());
#endif
}

// "too crowded for the search": can some search-length cell hold more than the guaranteed number?
inline bool Crowded(const std::vector<P>& s, const EnvP& e)
{
	const double NL = e.NL();
	const std::size_t cap = (std::size_t)std::floor(std::pow(std::ceil(NL / e.l0) + 1, D) + 0.5);
	for (auto& a : s)
	{
		if (a.type == DISABLED) continue;
		std::size_t c = 0;
		for (auto& b : s)
		{
			if (b.type == DISABLED) continue;
			bool in = true;
			for (int d = 0; d < D; d++) in = in && std::fabs(a.x[d] - b.x[d]) <= NL * (1 + 1e-9);
			c += in;
		}
		if (c > cap) return true;
	}
	return false;
}

inline double DistP(const P& a, const P& b) { double s = 0; for (int d = 0; d < D; d++) s += (a.x[d] - b.x[d]) * (a.x[d] - b.x[d]); return std::sqrt(s); }
inline bool Inside(const P& p, const EnvP& e) { for (int d = 0; d < D; d++) if (!(p.x[d] >= e.mn[d] && p.x[d] <= e.mx[d])) return false; return true; }
inline bool Outside(const P& p, const EnvP& e) // certainly refused
{
	for (int d = 0; d < D; d++) if (!(p.x[d] >= e.mn[d] - 1e-9 * e.NL()) || p.x[d] > e.mx[d] + 3.0000001 * e.NL()) return true;
	return false;
}

inline double StepSize(const Scene& s, Rng& r)
{
	double u = 0; for (auto& p : s.ps) { double q = 0; for (int d = 0; d < D; d++) q += p.u[d] * p.u[d]; if (p.type != DISABLED) u = std::max(u, q); }
	u = std::sqrt(u);
	double dt = s.e.MaxDt();
	if (u > 0) dt = std::min(dt, s.e.MaxDx() / u);
	if (!(dt < 1e300) || !(dt > 0)) dt = s.Tref * 0.05;
	return dt * (r.p(0.4) ? 1.0 : r.in(0.05, 1.0));
}

enum class Out { Ok, Solver, Crowd, Other };
template<typename F> Out Try(F f)
{
	try { f(); return Out::Ok; }
	catch (const OpenMps::Grid::Exception&) { return Out::Crowd; }
	catch (const std::runtime_error&) { return Out::Solver; }
	catch (...) { return Out::Other; }
}

std::string G(double v);
