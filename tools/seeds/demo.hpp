// Shared helper of the demonstrations: builds a computation from a plain list of particles, with the build options selected by macros.
#pragma once
#include <array>
#include <iostream>
#ifdef D_3D
#define DIM3
#endif
#include "defines.hpp"
#ifdef D_NOSPP
#undef MPS_SPP
#endif
#ifdef D_NOHL
#undef MPS_HL
#endif
#ifdef D_NOHS
#undef MPS_HS
#endif
#ifdef D_NOECS
#undef MPS_ECS
#endif
#ifdef D_NODS
#undef MPS_DS
#endif
#ifdef D_GC
#define MPS_GC
#endif
#ifdef D_EXP
#define PRESSURE_EXPLICIT
#endif
#ifdef D_NOVCL
#undef USE_VIENNACL
#undef VIENNACL_WITH_OPENMP
#endif
#define TEST_IMPLICITFORCES
#include "Computer.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif
namespace { namespace OpenMps { class ImplicitForcesTest final { public:
	template<typename C> static auto& Particles(C& c) { return c.particles; }
	template<typename C> static void Search(C& c) { c.SearchNeighbor(); }
	template<typename C> static void Densities(C& c) { c.ComputeNeighborDensities(); }
	template<typename C> static void Explicit(C& c) { c.ComputeExplicitForces(); }
	template<typename C> static void Implicit(C& c) { c.ComputeImplicitForces(); }
	template<typename C> static std::size_t NbCount(C& c, std::size_t i) { return c.NeighborCount(i); }
	template<typename C> static std::size_t Nb(C& c, std::size_t i, std::size_t k) { return c.Neighbor(i, k); }
#ifndef PRESSURE_EXPLICIT
	template<typename C> static void SetPpe(C& c) { c.SetPressurePoissonEquation(); }
	template<typename C> static void Solve(C& c) { c.SolvePressurePoissonEquation(); }
	template<typename C> static auto& Ppe(C& c) { return c.ppe; }
#endif
}; }}
using X = OpenMps::ImplicitForcesTest;
using OpenMps::Particle; using OpenMps::Vector; using OpenMps::DIM;
constexpr auto F = Particle::Type::IncompressibleNewton, WL = Particle::Type::Wall, DU = Particle::Type::Dummy, DI = Particle::Type::Disabled;
struct E
{
	double maxDt = 0.005, courant = 0.1, g = 9.8, rho = 1000, nu = 1e-6, surf = 0.95, re = 2.4, c = 20, l0 = 0.1, lo[3] = {0, 0, 0}, hi[3] = {4, 4, 4}, eps = 1e-10;
	OpenMps::Environment Make() const
	{
		return OpenMps::Environment(maxDt, courant, g, rho, nu,
#ifndef MPS_SPP
			surf,
#endif
			re,
#ifdef PRESSURE_EXPLICIT
			c,
#endif
			l0,
#ifdef DIM3
			lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]
#else
			lo[0], lo[2], hi[0], hi[2]
#endif
		);
	}
};
// vector from (x, z) or (x, y, z)
inline Vector V(double x, double y, double z)
{
#ifdef DIM3
	return OpenMps::CreateVector(x, y, z);
#else
	(void)y; return OpenMps::CreateVector(x, z);
#endif
}
inline Particle Mk(Particle::Type t, const Vector& x, const Vector& u = V(0, 0, 0), double p = 0, double n = 0)
{
	Particle q(t); q.X() = x; q.U() = u; q.P() = p; q.N() = n; return q;
}
struct WallFn { std::function<Vector(std::size_t, double, double)>* f; Vector operator()(std::size_t i, double t, double dt) const { return (*f)(i, t, dt); } };
struct PreFn { std::function<void(double, double)>* f; void operator()(double t, double dt) const { (*f)(t, dt); } };
struct S
{
	std::function<Vector(std::size_t, double, double)> wall; std::function<void(double, double)> pre; std::vector<Vector> x0;
	WallFn w; PreFn p;
	using C = OpenMps::Computer<const WallFn&, const PreFn&>;
	std::unique_ptr<C> c;
	S(const E& e, const std::vector<Particle>& ps, double dt = 0) : w{&wall}, p{&pre}
	{
		wall = [this](std::size_t i, double, double) { return x0[i]; };
		pre = [](double, double) {};
		auto env = e.Make(); env.Dt() = dt;
		c.reset(new C(
#ifndef PRESSURE_EXPLICIT
			e.eps,
#endif
			env, w, p));
		Add(ps);
	}
	S(const S&) = delete;
	void Add(std::vector<Particle> ps) { for (auto& q : ps) x0.push_back(q.X()); c->AddParticles(std::move(ps)); }
	auto& P() { return X::Particles(*c); }
	C& operator*() { return *c; }
	C* operator->() { return c.get(); }
};
inline double Dist(const Vector& a, const Vector& b) { double s = 0; for (std::size_t d = 0; d < DIM; d++) s += (a[d] - b[d]) * (a[d] - b[d]); return std::sqrt(s); }
inline bool Near(double a, double b, double tol) { return std::abs(a - b) <= tol; }
inline int Fail(const char* m) { std::printf("FAILED: %s\n", m); return 1; }
// deterministic pseudo random numbers in [0,1)
struct Rnd { unsigned long long s; double operator()() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (double)(s >> 11) / 9007199254740992.0; } };
// rectangular fluid block of nx * nz (* ny) particles starting at (x, y, z)
inline std::vector<Particle> Block(double l0, int nx, int ny, int nz, double x, double y, double z, Particle::Type t = F)
{
	std::vector<Particle> v;
#ifndef DIM3
	ny = 1;
#endif
	for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) v.push_back(Mk(t, V(x + i * l0, y + j * l0, z + k * l0)));
	return v;
}
// tank of inner size w (* wy) * h with fluid columns [0, cols) * [0, depth); one wall layer, three dummy layers; the bottom fluid row lies at (l0, l0) * grid origin o
inline std::vector<Particle> Tank(double l0, int w, int wy, int h, int cols, int depth, double ox, double oy, double oz)
{
	std::vector<Particle> v;
#ifdef DIM3
	const int y0 = -4, y1 = wy + 4;
#else
	const int y0 = 0, y1 = 1; (void)wy;
#endif
	for (int i = -4; i < w + 4; i++) for (int j = y0; j < y1; j++) for (int k = -4; k < h; k++)
	{
		int out = std::max(std::max(-i, i - w + 1), -k);
#ifdef DIM3
		out = std::max(out, std::max(-j, j - wy + 1));
#endif
		if (out <= 0) { if (i < cols && k < depth) v.push_back(Mk(F, V(ox + i * l0, oy + j * l0, oz + k * l0))); }
		else v.push_back(Mk(out == 1 ? WL : DU, V(ox + i * l0, oy + j * l0, oz + k * l0)));
	}
	return v;
}
// what a run of a tank shows: energy rise / potential scale, closest fluid pair / l0, lost particles, front (column widths), largest speed
struct Seen { double energy = 0, closest = 1e9, speed = 0, front = 0, top = 0; int lost = 0, failed = 0; };
template<typename SIM> Seen Watch(SIM& s, const E& e, double until, int w, double ox, double oz, double scaleH, double sideY = 0, int wy = 0)
{
	Seen m; const std::size_t az = DIM - 1; double e0 = 0; bool first = true; (void)sideY; (void)wy;
	auto look = [&]
	{
		double en = 0; std::vector<const Particle*> f;
		for (auto& q : s.P())
		{
			if (q.TYPE() == DI) m.lost++;
			if (q.TYPE() != F) continue;
			f.push_back(&q); double u2 = 0; for (std::size_t d = 0; d < DIM; d++) u2 += q.U()[d] * q.U()[d];
			if (!std::isfinite(u2) || q.X()[0] < ox - e.l0 || q.X()[0] > ox + w * e.l0 || q.X()[az] < oz - e.l0) m.lost++;
			en += 0.5 * u2 + e.g * (q.X()[az] - oz); m.speed = std::max(m.speed, std::sqrt(u2)); m.front = std::max(m.front, q.X()[0]); m.top = std::max(m.top, q.X()[az]);
		}
		for (std::size_t a = 0; a < f.size(); a++) for (std::size_t b = 0; b < a; b++) m.closest = std::min(m.closest, Dist(f[a]->X(), f[b]->X()) / e.l0);
		if (first) e0 = en; first = false;
		m.energy = std::max(m.energy, (en - e0) / (f.size() * e.g * scaleH));
	};
	look();
	try { while (s->GetEnvironment().T() < until && !m.lost) { s->ForwardTime(); m.front = m.top = 0; look(); } } catch (const std::exception&) { m.failed = 1; }
	return m;
}
