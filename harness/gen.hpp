// Random scenes (deterministic from a 64-bit seed).
#pragma once
#include "ref.hpp"
#include <sstream>

namespace gen
{
using namespace ref;

struct Rng
{
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
	std::uint64_t next()
	{
		s += 0x9E3779B97F4A7C15ull;
		std::uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	double u() { return (double)(next() >> 11) * 0x1.0p-53; }
	double in(double a, double b) { return a + (b - a) * u(); }
	int i(int a, int b) { return a + (int)(next() % (std::uint64_t)(b - a + 1)); } // inclusive
	bool p(double q) { return u() < q; }
	double lg(double a, double b) { return std::exp(in(std::log(a), std::log(b))); }
	template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int)l.size() - 1)); }
};

struct MotionP
{
	int kind = 0;       // 0 static, 1 oscillation, 2 index dependent shear, 3 constant drift, 4 depends on the step size
	double amp[3] = {0, 0, 0}, omega = 0;
	std::vector<std::array<double, 3>> base; // by particle index
	// deterministic double arithmetic: the oracle and the program call the same function
	void operator()(std::size_t i, double t, double dt, double* x) const
	{
		for (int d = 0; d < D; d++)
		{
			double b = i < base.size() ? base[i][d] : 0.0;
			switch (kind)
			{
			case 1: b += amp[d] * std::sin(omega * t); break;
			case 2: b += amp[d] * std::sin(omega * t) * (double)((i % 7) + 1) / 7; break;
			case 3: b += amp[d] * omega * t; break;
			case 4: b += amp[d] * omega * dt; break;
			default: break;
			}
			x[d] = b;
		}
	}
};

struct Scene
{
	EnvP e;
	double eps = 1e-10;
	std::vector<P> ps;
	MotionP mo;
	double Uref = 1, Tref = 1, t0 = 0; // t0: time the computation has reached before the first step looked at
	std::string tag;
	void setBase()
	{
		mo.base.resize(ps.size());
		for (std::size_t i = 0; i < ps.size(); i++) mo.base[i] = {ps[i].x[0], ps[i].x[1], ps[i].x[2]};
	}
	std::size_t count(int t) const { std::size_t c = 0; for (auto& p : ps) c += p.type == t; return c; }
};

struct Options
{
	bool fluidOnly = false, noDisabled = false, moving = true, zeroG = false, exits = false, safe = false;
	int maxN = 120;
	int kind = -1;
	double jitter = -1;
	bool ordinaryOffset = false;
	double late = 0.12; // share of scenes that start late
	std::size_t padMax = 6000;
	double pad = 0.012; // share of scenes blown up by disabled particles between the others (large numbers of particles, distant indices)
};

// insert disabled particles at random places of the list until it holds at least n particles
inline void Pad(Scene& s, Rng& r, std::size_t n)
{
	if (s.ps.size() >= n) return;
	std::vector<P> v; v.reserve(n);
	std::size_t extra = n - s.ps.size(), left = s.ps.size();
	const int how = r.i(0, 2); // spread evenly, all in front, two clumps
	std::size_t clump = how == 2 && left > 0 ? (std::size_t)r.i(0, (int)left) : 0;
	for (std::size_t k = 0; k < s.ps.size() || extra > 0;)
	{
		const bool fill = extra > 0 && (left == 0 || (how == 0 ? r.u() * (double)(extra + left) < (double)extra : how == 1 ? k == 0 : k == clump));
		if (fill)
		{
			P p; p.type = 3;
			for (int d = 0; d < D; d++) { p.x[d] = r.in(s.e.mn[d], s.e.mx[d]); p.u[d] = r.p(0.1) ? s.Uref * r.in(-30, 30) : 0; }
			v.push_back(p); extra--;
		}
		else { v.push_back(s.ps[k++]); left--; }
	}
	s.ps.swap(v); s.setBase(); s.tag += "+disabled";
}

inline void addP(Scene& s, int type, const double* x)
{
	P p; p.type = type; for (int d = 0; d < D; d++) p.x[d] = x[d];
	s.ps.push_back(p);
}

inline Scene Make(Rng& r, const Options& o)
{
	Scene s;
	auto& e = s.e;
	e.l0 = r.p(0.5) ? r.pick<double>({0.01, 0.1, 1.0, 0.008}) : r.lg(1e-3, 10);
	const double remax = D == 3 ? 2.6 : 4.1;
	e.re = r.p(0.4) ? r.pick<double>({2.4, 2.1, 1.9}) : r.in(1.55, r.p(0.6) ? 3.2 > remax ? remax : 3.2 : remax);
	if (r.p(0.1) && D == 2) e.re = r.pick<double>({3.1, 3.0, 2.0, 4.1});
	e.courant = r.p(0.5) ? r.pick<double>({0.1, 0.2, 0.05}) : r.in(0.02, 0.35);
	e.rho = r.p(0.5) ? 1000 : r.lg(0.5, 2e4);
	const double g = (o.zeroG || r.p(0.2)) ? 0 : (r.p(0.6) ? 9.8 : r.lg(0.1, 100));
	e.g = g;
	const double l0 = e.l0;
	// velocity scale: some multiple of the gravity wave speed
	s.Uref = g > 0 ? std::sqrt(g * l0) * r.lg(0.03, 5) : r.lg(0.01, 10);
	s.Tref = l0 / s.Uref;
	if (g > 0) s.Tref = std::min(s.Tref, std::sqrt(l0 / g));
	// viscosity: stable for the steps used
	e.nu = r.p(0.25) ? 0 : (r.p(0.5) ? 1e-6 : r.lg(1e-5, 0.05) * l0 * l0 / s.Tref);
	if (e.nu > 0.2 * l0 * l0 / s.Tref) e.nu = 1e-3 * l0 * l0 / s.Tref;
	e.maxDt = s.Tref * r.lg(0.02, 1);
	e.c = EXPL ? std::max(s.Uref, std::sqrt(g * l0)) * r.in(5, 20) : 10;
	e.surf = r.p(0.5) ? 0.95 : r.in(0.8, 0.99);
	s.eps = r.p(0.4) ? 1e-10 : std::pow(10.0, r.in(-12, -4));

	double off[3] = {0, 0, 0};
	if (r.p(0.7)) for (int d = 0; d < D; d++) off[d] = l0 * (o.ordinaryOffset || r.p(0.7) ? r.in(-15, 15) : r.in(-300, 300));

	int kind = o.kind >= 0 ? o.kind : r.i(0, 8);
	if (o.fluidOnly && (kind == 1 || kind == 4)) kind = r.pick<int>({0, 2, 3});
	double jit = o.jitter >= 0 ? o.jitter : (r.p(0.3) ? 0.02 : r.in(0.005, 0.2));
	double sp = r.p(0.6) ? 1.0 : r.in(0.88, 1.08);
	const int maxN = o.maxN;
	auto lattice = [&](int nx, int ny, int nz, const double* org, auto typeOf)
	{
		for (int i = 0; i < nx; i++) for (int j = 0; j < (D == 3 ? ny : 1); j++) for (int k = 0; k < nz; k++)
		{
			const int t = typeOf(i, j, k);
			if (t < 0) continue;
			double x[3]; int c[3] = {i, D == 3 ? j : k, k};
			const double jj = (t == FLUID || kind == 4) ? jit : jit * 0.2;
			for (int d = 0; d < D; d++) x[d] = org[d] + l0 * (sp * c[d] + jj * r.in(-1, 1));
			addP(s, t, x);
		}
	};
	auto dims = [&](int budget, int& nx, int& ny, int& nz)
	{
		if (D == 2) { nx = r.i(1, std::max(1, (int)std::sqrt(budget * 2.0))); nz = std::max(1, std::min(r.i(1, 40), budget / nx)); ny = 1; }
		else { const int c = std::max(1, (int)std::cbrt((double)budget)); nx = r.i(1, c + 1); ny = r.i(1, c + 1); nz = std::max(1, std::min(r.i(1, 2 * c), budget / (nx * ny))); }
	};
	int nx, ny, nz;
	switch (kind)
	{
	default:
	case 0: dims(maxN, nx, ny, nz); lattice(nx, ny, nz, off, [](int, int, int) { return (int)FLUID; }); s.tag = "blob"; break;
	case 1:
	{
		// tank: floor and two side walls, nd dummy layers, water inside
		int ft = r.i(1, 3); // dummy layers
		int wx, wz, wy = 1;
		if (D == 2) { wx = r.i(2, std::max(2, (int)std::sqrt(maxN * 0.5))); wz = r.i(2, std::max(2, (int)std::sqrt(maxN * 0.5))); }
		else { ft = 1; wx = r.i(2, 3); wy = r.i(2, 3); wz = r.i(2, 3); }
		const int fillx = r.p(0.5) ? wx : r.i(1, wx), fillz = r.i(1, wz);
		const int b = 1 + ft;
		lattice(wx + 2 * b, wy + 2 * b, wz + b, off, [&](int i, int j, int k)
		{
			const int a = i - b, c = k - b, q = D == 3 ? j - b : 0;
			auto depth = [](int v, int n) { return v < 0 ? -v : (v >= n ? v - n + 1 : 0); };
			int dd = std::max(depth(a, wx), c < 0 ? -c : 0);
			if (D == 3) dd = std::max(dd, depth(q, wy));
			if (dd == 0) return (a < fillx && c < fillz) ? (int)FLUID : -1;
			return dd == 1 ? (int)WALL : (int)DUMMY;
		});
		s.tag = "tank";
		break;
	}
	case 2:
	{
		int c0[3] = {0, 0, 0};
		for (int k = 0; k < 2; k++)
		{
			dims(maxN / 2, nx, ny, nz);
			double org[3]; for (int d = 0; d < D; d++) org[d] = off[d] + (k ? l0 * (c0[d] * (d == 0) + (d == 0 ? r.in(0.5, 1.5) : r.in(-2, 2))) : 0);
			const std::size_t before = s.ps.size();
			lattice(nx, ny, nz, org, [](int, int, int) { return (int)FLUID; });
			for (std::size_t q = before; q < s.ps.size(); q++) s.ps[q].u[0] = (k ? -1 : 1) * s.Uref;
			c0[0] = nx;
		}
		s.tag = "collision";
		break;
	}
	case 3:
	{
		const int n = r.i(2, maxN);
		const double ext = std::pow((double)n, 1.0 / D) * r.in(0.8, 1.6);
		const double md = r.in(0.35, 0.8);
		for (int q = 0, tries = 0; q < n && tries < 40 * n; tries++)
		{
			double x[3]; for (int d = 0; d < D; d++) x[d] = off[d] + l0 * r.in(0, ext);
			bool ok = true;
			for (auto& p : s.ps) { double r2 = 0; for (int d = 0; d < D; d++) r2 += (p.x[d] - x[d]) * (p.x[d] - x[d]); if (r2 < md * md * l0 * l0) { ok = false; break; } }
			if (ok) { addP(s, o.fluidOnly ? FLUID : (r.p(0.7) ? FLUID : r.i(0, 2)), x); q++; }
		}
		s.tag = "scatter";
		break;
	}
	case 4:
		dims(maxN, nx, ny, nz);
		{
			const double pf = r.in(0.3, 0.8);
			lattice(nx, ny, nz, off, [&](int, int, int) { return r.p(pf) ? (int)FLUID : r.p(0.1) ? -1 : r.i(1, o.noDisabled ? 2 : 3); });
		}
		s.tag = "mixed";
		break;
	case 5:
		dims(maxN, nx, ny, nz); sp = r.in(0.85, 0.95);
		lattice(nx, ny, nz, off, [](int, int, int) { return (int)FLUID; });
		s.tag = "compressed";
		break;
	case 6:
	{
		const int n = r.i(0, 5);
		for (int q = 0; q < n; q++) { double x[3]; for (int d = 0; d < D; d++) x[d] = off[d] + l0 * (d == 0 ? q * r.in(0.6, 2.0) : r.in(-0.3, 0.3)); addP(s, o.fluidOnly ? FLUID : (r.p(0.7) ? FLUID : r.i(0, o.noDisabled ? 2 : 3)), x); }
		s.tag = "few";
		break;
	}
	case 7:
	{
		dims(std::max(1, maxN / 3), nx, ny, nz); sp = r.in(1.2, 3.0);
		lattice(nx, ny, nz, off, [](int, int, int) { return (int)FLUID; });
		s.tag = "sparse";
		break;
	}
	case 8:
	{
		// column on a wall line
		dims(std::max(4, maxN * 2 / 3), nx, ny, nz);
		lattice(nx, ny, nz + 2, off, [&](int, int, int k) { return o.fluidOnly ? (int)FLUID : k == 0 ? (int)DUMMY : k == 1 ? (int)WALL : (int)FLUID; });
		s.tag = "column";
		break;
	}
	}
	// numbering
	if (r.p(0.6)) for (std::size_t k = s.ps.size(); k > 1; k--) std::swap(s.ps[k - 1], s.ps[r.i(0, (int)k - 1)]);
	// velocities, pressures, densities
	double G[3][3]; for (auto& a : G) for (auto& v : a) v = r.in(-0.2, 0.2) * s.Uref / l0 / 5;
	double U0[3]; for (auto& v : U0) v = r.p(0.5) ? 0 : r.in(-1, 1) * s.Uref;
	const double rnd = r.p(0.3) ? 0 : r.in(0, 0.5) * s.Uref;
	const double pref = e.rho * s.Uref * s.Uref;
	const int pmode = r.i(0, 2);
	for (auto& p : s.ps)
	{
		for (int d = 0; d < D; d++)
		{
			if (p.type == FLUID) { p.u[d] += U0[d] + rnd * r.in(-1, 1); for (int q = 0; q < D; q++) p.u[d] += G[d][q] * (p.x[q] - off[q]); }
			else if (r.p(0.5)) p.u[d] = r.in(-0.3, 0.3) * s.Uref;
		}
		p.p = pmode == 0 ? 0 : pref * r.in(0, 2);
		if (pmode == 2 && p.type != FLUID && r.p(0.3)) p.p = -p.p;
		p.n = r.p(0.3) ? 0 : r.in(0, 20);
	}
	// domain
	double lo[3], hi[3];
	for (int d = 0; d < D; d++) { lo[d] = off[d]; hi[d] = off[d]; }
	for (auto& p : s.ps) for (int d = 0; d < D; d++) { lo[d] = std::min(lo[d], p.x[d]); hi[d] = std::max(hi[d], p.x[d]); }
	for (int d = 0; d < D; d++)
	{
		const double mode = r.u();
		if (o.safe) { e.mn[d] = lo[d] - l0 * r.in(2, 6); e.mx[d] = hi[d] + l0 * r.in(2, 6); }
		else if (mode < 0.25) { e.mn[d] = lo[d] - l0 * r.in(0, 0.3); e.mx[d] = hi[d] + l0 * r.in(0, 0.3); }
		else if (mode < 0.35) { e.mn[d] = lo[d]; e.mx[d] = hi[d] + l0 * 0.01; }
		else { e.mn[d] = lo[d] - l0 * r.in(0.3, 12); e.mx[d] = hi[d] + l0 * r.in(0.3, 12); }
		if (o.exits) // cut part of the scene off
		{
			if (r.p(0.5)) e.mn[d] = lo[d] + (hi[d] - lo[d]) * r.in(-0.1, 0.4);
			if (r.p(0.5)) e.mx[d] = std::max(e.mn[d] + 0.5 * l0, hi[d] - (hi[d] - lo[d]) * r.in(-0.1, 0.4));
		}
	}
	// wall motion
	s.setBase();
	if (o.moving && r.p(0.5))
	{
		s.mo.kind = r.i(1, 3);
		s.mo.omega = r.in(0.2, 2) / s.Tref;
		for (int d = 0; d < D; d++) s.mo.amp[d] = r.p(0.3) ? 0 : r.in(-0.15, 0.15) * l0;
	}
	if (!o.safe && r.p(o.late)) s.t0 = s.Tref * r.lg(1, 1000);
#ifndef SANITIZED
	if (!o.noDisabled && r.p(o.pad)) Pad(s, r, std::min(ref::VCL ? o.padMax : std::min<std::size_t>(o.padMax, 1100), r.pick<std::size_t>({150, 300, 520, 1030, 1030, 1500, 2100, r.p(0.3) ? 5300u : 700u})));
#endif
	return s;
}

inline std::string Describe(const Scene& s)
{
	std::ostringstream o;
	o.precision(6);
	o << s.tag << " n=" << s.ps.size() << " (fluid " << s.count(FLUID) << ", wall " << s.count(WALL) << ", dummy " << s.count(DUMMY) << ", disabled " << s.count(DISABLED)
		<< ") l0=" << s.e.l0 << " re=" << s.e.re << " C=" << s.e.courant << " g=" << s.e.g << " nu=" << s.e.nu << " rho=" << s.e.rho << " eps=" << s.eps << " motion=" << s.mo.kind
		<< " min=(" << s.e.mn[0] << "," << s.e.mn[1] << ") max=(" << s.e.mx[0] << "," << s.e.mx[1] << ")";
	return o.str();
}
}
