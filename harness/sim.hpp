// Access to the real code: construction from a scene, snapshots, phases (through the friend names the upstream tests use).
#pragma once
#include "cfg.hpp"
#define TEST_IMPLICITFORCES
#include "Computer.hpp"
#include "ref.hpp"
#include "gen.hpp"
#include <atomic>
#include <functional>
#include <memory>
#ifdef _OPENMP
#include <omp.h>
#endif

namespace { namespace OpenMps
{
	class ImplicitForcesTest final
	{
	public:
		template<typename C> static auto& Particles(C& c) { return c.particles; }
		template<typename C> static void Search(C& c) { c.SearchNeighbor(); }
		template<typename C> static void Densities(C& c) { c.ComputeNeighborDensities(); }
		template<typename C> static void Explicit(C& c) { c.ComputeExplicitForces(); }
		template<typename C> static void Implicit(C& c) { c.ComputeImplicitForces(); }
		template<typename C> static void Gradient(C& c) { c.ModifyByPressureGradient(); }
		template<typename C> static std::size_t NbCount(C& c, std::size_t i) { return c.NeighborCount(i); }
		template<typename C> static std::size_t Nb(C& c, std::size_t i, std::size_t k) { return c.Neighbor(i, k); }
#ifndef PRESSURE_EXPLICIT
		template<typename C> static void SetPpe(C& c) { c.SetPressurePoissonEquation(); }
		template<typename C> static void Solve(C& c) { c.SolvePressurePoissonEquation(); }
		template<typename C> static auto& Ppe(C& c) { return c.ppe; }
#endif
#if !defined(PRESSURE_EXPLICIT) || defined(MPS_ECS)
		template<typename C> static double Speed(C& c, std::size_t i) { return c.NeighborDensityVariationSpeed(i); }
#endif
	};
}}

using ref::P; using ref::EnvP; using ref::D; using ref::FLUID; using ref::WALL; using ref::DUMMY; using ref::DISABLED;
using gen::Scene;
using X = OpenMps::ImplicitForcesTest;

inline void SetThreads(int n)
{
#ifdef _OPENMP
	omp_set_num_threads(n);
#else
	(void)n;
#endif
}

inline OpenMps::Environment MakeEnv(const EnvP& e)
{
	return OpenMps::Environment(e.maxDt, e.courant, e.g, e.rho, e.nu,
#ifndef MPS_SPP
		e.surf,
#endif
		e.re,
#ifdef PRESSURE_EXPLICIT
		e.c,
#endif
		e.l0,
#ifdef DIM3
		e.mn[0], e.mn[1], e.mn[2], e.mx[0], e.mx[1], e.mx[2]
#else
		e.mn[0], e.mn[1], e.mx[0], e.mx[1]
#endif
	);
}

inline OpenMps::Vector ToV(const double* x)
{
#ifdef DIM3
	return OpenMps::CreateVector(x[0], x[1], x[2]);
#else
	return OpenMps::CreateVector(x[0], x[1]);
#endif
}

inline OpenMps::Particle ToParticle(const P& p)
{
	OpenMps::Particle q(static_cast<OpenMps::Particle::Type>(p.type));
	q.X() = ToV(p.x); q.U() = ToV(p.u); q.P() = p.p; q.N() = p.n;
	return q;
}

inline std::vector<OpenMps::Particle> ToParticles(const std::vector<P>& ps)
{
	std::vector<OpenMps::Particle> v; v.reserve(ps.size());
	for (auto& p : ps) v.push_back(ToParticle(p));
	return v;
}

struct MoveLog
{
	std::atomic<long> pre{0};
	double preT = 0, preDt = 0;
	std::atomic<long> early{0};      // position requested before the preparation of this step
	std::atomic<long> badArgs{0};    // position requested with other time/dt than the preparation
	std::atomic<long> badIndex{0};
	std::unique_ptr<std::atomic<int>[]> calls; std::size_t n = 0;
	void Reset(std::size_t m)
	{
		if (m > n || !calls) { calls.reset(new std::atomic<int>[m + 1]); n = m; }
		for (std::size_t i = 0; i < n; i++) calls[i] = 0;
		pre = 0; early = 0; badArgs = 0; badIndex = 0;
	}
};

struct WallFn
{
	const gen::MotionP* mo = nullptr; MoveLog* log = nullptr;
	OpenMps::Vector operator()(std::size_t i, double t, double dt) const
	{
		if (log)
		{
			if (log->pre.load(std::memory_order_relaxed) == 0) log->early++;
			else if (t != log->preT || dt != log->preDt) log->badArgs++;
			if (i < log->n) log->calls[i]++; else log->badIndex++;
		}
		double x[3] = {0, 0, 0};
		(*mo)(i, t, dt, x);
		return ToV(x);
	}
};
struct PreFn
{
	MoveLog* log = nullptr; std::function<void()> hook;
	void operator()(double t, double dt) const { if (hook) hook(); if (log) { log->preT = t; log->preDt = dt; log->pre++; } }
};

class Sim final
{
	using Comp = OpenMps::Computer<const WallFn&, const PreFn&>;
	gen::MotionP mo;
	WallFn w; PreFn p;
	std::unique_ptr<Comp> c;
public:
	Sim(const Scene& s, double eps, double dt0 = 0, MoveLog* log = nullptr, bool add = true, double t0 = 0) : mo(s.mo)
	{
		(void)eps;
		w.mo = &mo; w.log = log; p.log = log;
		auto env = MakeEnv(s.e);
		if (t0 == 0) t0 = s.t0;
		if (t0 != 0) { env.Dt() = t0; env.SetNextT(); }
		env.Dt() = dt0;
		c.reset(new Comp(
#ifndef PRESSURE_EXPLICIT
			eps,
#endif
			env, w, p));
		if (add) Add(s.ps);
	}
	void Add(const std::vector<P>& ps) { c->AddParticles(ToParticles(ps)); }
	Comp& operator*() { return *c; }
	void Hook(std::function<void()> f) { p.hook = std::move(f); } // called whenever the computation announces a wall movement
	void Move() { auto other = std::make_unique<Comp>(std::move(*c)); c = std::move(other); } // continue in another object
	const OpenMps::Environment& Env() const { return c->GetEnvironment(); }
	std::size_t Size() const { return c->Particles().size(); }
	std::vector<P> State() const
	{
		const auto& q = c->Particles();
		std::vector<P> v(q.size());
		for (std::size_t i = 0; i < q.size(); i++)
		{
			v[i].type = static_cast<int>(q[i].TYPE());
			for (int d = 0; d < D; d++) { v[i].x[d] = q[i].X()[d]; v[i].u[d] = q[i].U()[d]; }
			v[i].p = q[i].P(); v[i].n = q[i].N();
		}
		return v;
	}
	void Step(double dt) { c->ForwardTime(dt); }
	void Step() { c->ForwardTime(); }
	// write a state into the particles of the computer
	void Poke(std::size_t i, const P& s)
	{
		auto& q = X::Particles(*c)[i];
		q.X() = ToV(s.x); q.U() = ToV(s.u); q.P() = s.p; q.N() = s.n;
	}
#ifndef PRESSURE_EXPLICIT
	// the assembled system as dense columns, through products with unit vectors
	std::vector<std::vector<double>> DenseA()
	{
		auto& ppe = X::Ppe(*c);
		const std::size_t n = Size();
#ifdef _OPENMP
		struct Single { int k; Single() : k(omp_get_max_threads()) { omp_set_num_threads(1); } ~Single() { omp_set_num_threads(k); } } single;
#endif
		std::vector<std::vector<double>> a(n, std::vector<double>(n));
		using LV = std::decay_t<decltype(ppe.x)>;
		LV e(n), y(n);
		for (std::size_t j = 0; j < n; j++)
		{
			for (std::size_t i = 0; i < n; i++) e(i) = (i == j) ? 1.0 : 0.0;
			y = MulA(e);
			for (std::size_t i = 0; i < n; i++) a[i][j] = y(i);
		}
		return a;
	}
	template<typename LV> LV MulA(const LV& v)
	{
#ifdef USE_VIENNACL
		LV y(v.size());
		y = viennacl::linalg::prod(X::Ppe(*c).A, v);
#else
		LV y = boost::numeric::ublas::prod(X::Ppe(*c).A, v);
#endif
		return y;
	}
	std::vector<double> Vec(int which) // 0 x, 1 b
	{
		auto& ppe = X::Ppe(*c);
		auto& v = which ? ppe.b : ppe.x;
		std::vector<double> o(v.size());
		for (std::size_t i = 0; i < o.size(); i++) o[i] = v(i);
		return o;
	}
#endif
};
