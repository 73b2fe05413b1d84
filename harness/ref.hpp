// Independent reference model of one OpenMPS step (brute force, long double).
#pragma once
#include <cmath>
#include <vector>
#include <string>
#include <limits>
#include <algorithm>
#include <functional>
#include <cstdint>

namespace ref
{
using L = long double;

#ifdef DIM3
constexpr int D = 3;
#else
constexpr int D = 2;
#endif
#if defined(USE_VIENNACL) || defined(PRESSURE_EXPLICIT)
constexpr bool VCL = true;
#else
constexpr bool VCL = false;
#endif
#ifdef MPS_SPP
constexpr bool SPP = true;
#else
constexpr bool SPP = false;
#endif
#ifdef MPS_HL
constexpr bool HL = true;
#else
constexpr bool HL = false;
#endif
#ifdef MPS_HS
constexpr bool HS = true;
#else
constexpr bool HS = false;
#endif
#ifdef MPS_ECS
constexpr bool ECS = true;
#else
constexpr bool ECS = false;
#endif
#ifdef MPS_DS
constexpr bool DS = true;
#else
constexpr bool DS = false;
#endif
#ifdef MPS_GC
constexpr bool GC = true;
#else
constexpr bool GC = false;
#endif
#ifdef PRESSURE_EXPLICIT
constexpr bool EXPL = true;
#else
constexpr bool EXPL = false;
#endif
#ifdef CENTRAL_GRAVITY
constexpr bool CGRAV = true;
#else
constexpr bool CGRAV = false;
#endif

enum { FLUID = 0, WALL = 1, DUMMY = 2, DISABLED = 3 };

struct P
{
	int type = 0;
	double x[3] = {0, 0, 0}, u[3] = {0, 0, 0}, p = 0, n = 0;
};

struct EnvP
{
	double maxDt = 1, courant = 0.1, g = 9.8, rho = 1000, nu = 1e-6, surf = 0.95, re = 2.4, c = 10, l0 = 0.1;
	double mn[3] = {0, 0, 0}, mx[3] = {1, 1, 1};
	double Re() const { return re * l0; }
	double NL() const { return re * l0 * (1 + courant * 2); }
	double MaxDx() const { return courant * l0; }
	double MaxDt() const
	{
		if (EXPL) return std::min(maxDt, (courant * l0) / c);
		return std::min(maxDt, std::sqrt(2 * (courant * l0) / g));
	}
};

struct V
{
	L v[D];
	V() { for (int d = 0; d < D; d++) v[d] = 0; }
	L& operator[](int d) { return v[d]; }
	L operator[](int d) const { return v[d]; }
};
inline V operator+(V a, const V& b) { for (int d = 0; d < D; d++) a.v[d] += b.v[d]; return a; }
inline V operator-(V a, const V& b) { for (int d = 0; d < D; d++) a.v[d] -= b.v[d]; return a; }
inline V operator*(L s, V a) { for (int d = 0; d < D; d++) a.v[d] *= s; return a; }
inline L dot(const V& a, const V& b) { L s = 0; for (int d = 0; d < D; d++) s += a.v[d] * b.v[d]; return s; }
inline L norm(const V& a) { return std::sqrt(dot(a, a)); }

inline L W(L r, L re) { return (r > 0 && r < re) ? re / r - 1 : 0; }

struct LatticeSum { L n0, lambda; };
// reference density and lambda: full regular lattice
inline LatticeSum Lattice(double re_l0, double l0)
{
	const L Re = (L)(re_l0 * l0);
	const int R = (int)std::ceil(re_l0) + 1;
	L s = 0, q = 0;
	for (int i = -R; i <= R; i++) for (int j = -R; j <= R; j++) for (int k = (D == 3 ? -R : 0); k <= (D == 3 ? R : 0); k++)
	{
		if (!i && !j && !k) continue;
		const L r = std::sqrt((L)(i * i + j * j + k * k)) * (L)l0;
		const L w = W(r, Re);
		s += w; q += r * r * w;
	}
	return {s, q / s};
}

struct Pair { int j; V dx; L r; };

struct SppInfo { bool on = false; L rspp = 0; V dx; L rg = 0; };

struct Field // density information at one set of positions
{
	std::vector<std::vector<Pair>> nb;   // live neighbours strictly within Re
	std::vector<L> nraw, ntol;
	std::vector<SppInfo> spp;
	bool ambRe = false;   // a pair at the cut-off
	bool degenerate = false; // (almost) coincident pair
	bool ambN0 = false;   // density at the reference density (or surface threshold)
	L rmin = std::numeric_limits<L>::max();
};

using Motion = std::function<void(std::size_t, double, double, double*)>; // i,t,dt -> x

struct Model
{
	EnvP e;
	L n0, lambda, Re;
	explicit Model(const EnvP& env, L n0obs = -1, L lamObs = -1) : e(env)
	{
		const auto s = Lattice(e.re, e.l0);
		n0 = n0obs > 0 ? n0obs : s.n0;
		lambda = lamObs > 0 ? lamObs : s.lambda;
		Re = (L)e.Re();
	}

	static bool live(int t) { return t != DISABLED; }
	static bool hasP(int t) { return t == FLUID || t == WALL; }

	// absolute relative rounding scale: positions are rounded to ulp(xmax)
	static double Cond(const std::vector<V>& x, const std::vector<int>& ty, L rmin)
	{
		L m = 0;
		for (std::size_t i = 0; i < x.size(); i++) if (live(ty[i])) for (int d = 0; d < D; d++) m = std::max(m, std::fabs(x[i][d]));
		if (!(rmin > 0) || rmin > 1e300L) return 1;
		return (double)std::max<L>(1, m / rmin);
	}

	Field MakeField(const std::vector<V>& x, const std::vector<int>& ty) const
	{
		const std::size_t n = x.size();
		Field f;
		f.nb.resize(n); f.nraw.assign(n, 0); f.ntol.assign(n, 0); f.spp.resize(n);
		const L tie = 2e-11L;
		for (std::size_t i = 0; i < n; i++)
		{
			if (!live(ty[i])) continue;
			for (std::size_t j = i + 1; j < n; j++)
			{
				if (!live(ty[j])) continue;
				const double qx = (double)(x[j][0] - x[i][0]);
				if (std::fabs(qx) > 1.001 * (double)Re) continue;
				const V dx = x[j] - x[i];
				const L r = norm(dx);
				if (std::fabs(r - Re) < tie * Re * (1 + 1e-5L * Cc)) f.ambRe = true;
				f.rmin = std::min(f.rmin, r);
				if (r < Re)
				{
					f.nb[i].push_back({(int)j, dx, r});
					f.nb[j].push_back({(int)i, (-1) * dx, r});
				}
			}
		}
		if (f.rmin < 1e-5L * (L)e.l0) f.degenerate = true;
		for (std::size_t i = 0; i < n; i++)
		{
			if (!live(ty[i])) continue;
			V g; L s = 0, t = 0;
			for (auto& q : f.nb[i]) { const L w = W(q.r, Re); s += w; t += Re / q.r; g = g + w * q.dx; }
			f.nraw[i] = s; f.ntol[i] = t;
			if (SPP && hasP(ty[i]))
			{
				g = (1 / n0) * g;
				if (std::fabs(s - n0) < 1e-9L * n0) f.ambN0 = true;
				if (s < n0)
				{
					const L rg = norm(g);
					if (rg > 1e-17L && rg < 1e-14L) f.ambN0 = true; // decided by rounding against epsilon
					if (rg > (L)std::numeric_limits<double>::epsilon())
					{
						auto& sp = f.spp[i];
						sp.on = true; sp.rspp = Re / (n0 - s + 1); sp.rg = rg;
						sp.dx = (-sp.rspp / rg) * g;
					}
				}
			}
			if (!SPP && hasP(ty[i]))
			{
				if (std::fabs(s / n0 - (L)e.surf) < 1e-9L) f.ambN0 = true;
			}
		}
		return f;
	}
	L Cc = 1; // cond hint for ties

	bool surface(L n) const { return n / n0 < (L)e.surf; }

	// stored density after a density pass
	void Density(const Field& f, const std::vector<int>& ty, std::vector<L>& N) const
	{
		for (std::size_t i = 0; i < ty.size(); i++) if (hasP(ty[i])) N[i] = SPP ? std::max(f.nraw[i], n0) : f.nraw[i];
	}

	// Laplacian weight
	L Lap(L r) const { return HL ? (5 - D) * Re / n0 / (r * r * r) : (2 * D / lambda / n0) * W(r, Re); }

	// density rate; tol returns the sum of magnitudes
	L Speed(const Field& f, std::size_t i, const std::vector<V>& u, const std::vector<L>& N, L dt, L& mag) const
	{
		mag = 0;
		if (HS)
		{
			if (SPP && f.nraw[i] < n0) return 0;
			L s = 0;
			for (auto& q : f.nb[i])
			{
				const V du = u[q.j] - u[i];
				const L r3 = q.r * q.r * q.r;
				s += dot(q.dx, du) / r3;
				mag += q.r * (norm(u[q.j]) + norm(u[i])) / r3;
			}
			mag *= Re;
			return -Re * s;
		}
		mag = (f.ntol[i] + n0) / dt;
		return (N[i] - n0) / dt;
	}

	// acceleration in the explicit stage
	V Accel(const Field& f, std::size_t i, const std::vector<V>& x, const std::vector<V>& u, const std::vector<int>& ty, L& mag) const
	{
		V a; mag = 0;
		for (auto& q : f.nb[i])
		{
			if (ty[q.j] == DUMMY) continue;
			const L c = (L)e.nu * Lap(q.r);
			a = a + c * (u[q.j] - u[i]);
			mag += std::fabs((L)e.nu * (HL ? Lap(q.r) : (2 * D / lambda / n0) * Re / q.r)) * (norm(u[q.j]) + norm(u[i]));
		}
		if (CGRAV)
		{
			const L r = norm(x[i]);
			if (!(r < (L)(e.l0 * 0.01))) a = a + (-(L)e.g / r) * x[i];
		}
		else a[D - 1] -= (L)e.g;
		mag += std::fabs((L)e.g);
		return a;
	}

	struct Row { L diag = 0, diagMag = 0, b = 0, bMag = 0; bool active = false; std::vector<std::pair<int, L>> off; };

	// pressure equation rows from a state
	std::vector<Row> Assemble(const Field& f, const std::vector<V>& u, const std::vector<int>& ty, const std::vector<L>& N,
		const std::vector<L>& ecs, const std::vector<L>& ecsMag, L dt) const
	{
		const std::size_t n = ty.size();
		std::vector<Row> rows(n);
		for (std::size_t i = 0; i < n; i++)
		{
			auto& R = rows[i];
			if (!hasP(ty[i]) || (!SPP && surface(N[i]))) { R.diag = 1; R.diagMag = 1; continue; }
			R.active = true;
			for (auto& q : f.nb[i])
			{
				if (ty[q.j] == DUMMY) continue;
				const L a = Lap(q.r);
				if (SPP || !surface(N[q.j])) R.off.push_back({q.j, a});
				R.diag -= a; R.diagMag += HL ? a : (2 * D / lambda / n0) * Re / q.r;
			}
			if (SPP && f.spp[i].on)
			{
				const L a = Lap(f.spp[i].rspp);
				R.diag -= a; R.diagMag += (HL ? a : (2 * D / lambda / n0) * Re / f.spp[i].rspp) * (1 + 3 * f.ntol[i]); // rspp depends on n
			}
			L m; const L s = Speed(f, i, u, N, dt, m);
			const L k = (L)e.rho / (n0 * dt);
			R.b = -k * (s + (ECS ? ecs[i] : 0));
			R.bMag = k * (m + (ECS ? ecsMag[i] : 0));
		}
		return rows;
	}

	// velocity change by the pressure gradient
	V Grad(const Field& f, std::size_t i, const std::vector<int>& ty, const std::vector<L>& N, const std::vector<L>& p, L dt, L& mag, bool& amb, double rel) const
	{
		V s; mag = 0; amb = false;
		L C[D][D]; L condC = 1;
		if (GC)
		{
			L M[D][D]; for (auto& r : M) for (auto& v : r) v = 0;
			auto add = [&](const V& dx, L r) { const L k = W(r, Re) / (r * r); for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) M[a][b] += k * dx[a] * dx[b]; };
			for (auto& q : f.nb[i]) add(q.dx, q.r);
			if (SPP && f.spp[i].on) add(f.spp[i].dx, f.spp[i].rspp);
			L nm = 0; for (auto& r : M) for (auto v : r) nm = std::max(nm, std::fabs(v));
			bool sing = Invert(M, C);
			if (nm == 0) { for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) C[a][b] = a == b ? D / n0 : 0; }
			else
			{
				L cm = 0; for (auto& r : C) for (auto v : r) cm = std::max(cm, std::fabs(v));
				condC = sing ? 1e30L : nm * cm * D * D;
				if (!(condC * rel < 1e-5)) amb = true;
			}
		}
		auto add = [&](const V& dx, L r, L pj, L extra)
		{
			const L k = (pj + p[i]) / (r * r) * W(r, Re);
			const L km = (std::fabs(pj) + std::fabs(p[i])) / (r * r) * (Re / r) * extra;
			if (GC)
			{
				V y; for (int a = 0; a < D; a++) { L t = 0; for (int b = 0; b < D; b++) t += C[a][b] * dx[b]; y[a] = t; }
				s = s + k * y; mag += km * norm(y) * condC;
			}
			else { s = s + k * dx; mag += km * r; }
		};
		for (auto& q : f.nb[i]) if (ty[q.j] != DUMMY) add(q.dx, q.r, p[q.j], 1);
		if (SPP && f.spp[i].on) add(f.spp[i].dx, f.spp[i].rspp, 0, 1 + 3 * f.ntol[i] + f.nb[i].size() * (L)e.l0 / f.spp[i].rg);
		const L k = GC ? (-dt * N[i] / ((L)e.rho * n0)) : (-dt / (L)e.rho * D / n0);
		mag *= std::fabs(k);
		return k * s;
	}

	// largest condition number of the corrective matrices of the fluid particles
	L WorstCorrection(const Field& f, const std::vector<int>& ty) const
	{
		L worst = 0;
		for (std::size_t i = 0; i < ty.size(); i++) if (ty[i] == FLUID)
		{
			L M[D][D], C[D][D]; for (auto& r : M) for (auto& v : r) v = 0;
			auto add = [&](const V& dx, L r) { const L k = W(r, Re) / (r * r); for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) M[a][b] += k * dx[a] * dx[b]; };
			for (auto& q : f.nb[i]) add(q.dx, q.r);
			if (SPP && f.spp[i].on) add(f.spp[i].dx, f.spp[i].rspp);
			L nm = 0, cm = 0; for (auto& r : M) for (auto v : r) nm = std::max(nm, std::fabs(v));
			if (nm == 0) continue;
			if (Invert(M, C)) return 1e30L;
			for (auto& r : C) for (auto v : r) cm = std::max(cm, std::fabs(v));
			worst = std::max(worst, nm * cm);
		}
		return worst;
	}

	static bool Invert(L (&m)[D][D], L (&o)[D][D])
	{
		L a[D][2 * D];
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { a[i][j] = m[i][j]; a[i][D + j] = i == j; }
		for (int c = 0; c < D; c++)
		{
			int p = c; for (int r = c; r < D; r++) if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
			if (a[p][c] == 0) { for (auto& r : o) for (auto& v : r) v = 0; return true; }
			for (int j = 0; j < 2 * D; j++) std::swap(a[p][j], a[c][j]);
			for (int r = 0; r < D; r++) if (r != c) { const L k = a[r][c] / a[c][c]; for (int j = 0; j < 2 * D; j++) a[r][j] -= k * a[c][j]; }
		}
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) o[i][j] = a[i][D + j] / a[i][i];
		return false;
	}

	// repulsion; x0 positions before the pressure correction, x after
	// returns velocity change and mag; uses pairs that were within the search radius
	V Repulse(std::size_t i, const std::vector<V>& x0, const std::vector<V>& x, const std::vector<int>& ty, L dt, L& mag) const
	{
		const L d = (L)(e.l0 - e.MaxDx());
		V s; mag = 0;
		if (!(d > 0)) {}
		const L d2 = d * d;
		for (std::size_t j = 0; j < ty.size(); j++)
		{
			if (j == i || !live(ty[j]) || ty[j] == DUMMY) continue;
			const V dx = x[j] - x[i];
			const L r2 = dot(dx, dx);
			if (!(r2 < d2)) continue;
			const V dx0 = x0[j] - x0[i];
			const V ee = (1 / norm(dx0)) * dx0;
			const L par = dot(dx, ee);
			const V per = dx - par * ee;
			const L k = std::sqrt(std::max<L>(0, d2 - dot(per, per))) - par;
			s = s + k * ee; mag += 3 * d + 1e-3L * d * d / std::max<L>(1e-6L * d, std::sqrt(std::max<L>(0, d2 - dot(per, per))));
		}
		const L k = -1 / (2 * dt * n0);
		mag *= std::fabs(k);
		return k * s;
	}
};

// plain conjugate gradient in double, the way the documentation describes it; used only to decide whether
// "does not converge" is a legitimate outcome.  Returns the number of iterations or -1.
inline int EmulateCG(const std::vector<Model::Row>& rows, std::vector<double> x, double eps, double& rr0)
{
	const std::size_t n = rows.size();
	auto mul = [&](const std::vector<double>& v)
	{
		std::vector<double> y(n);
		for (std::size_t i = 0; i < n; i++) { double s = (double)rows[i].diag * v[i]; for (auto& o : rows[i].off) s += (double)o.second * v[o.first]; y[i] = s; }
		return y;
	};
	std::vector<double> Ap = mul(x), r(n), p;
	double rr = 0;
	for (std::size_t i = 0; i < n; i++) { r[i] = (rows[i].active ? (double)rows[i].b : 0) - Ap[i]; rr += r[i] * r[i]; }
	rr0 = rr;
	p = r;
	const double lim = rr * eps * eps;
	if (lim == 0) return 0;
	for (std::size_t k = 0; k < n; k++)
	{
		Ap = mul(p);
		double pap = 0; for (std::size_t i = 0; i < n; i++) pap += p[i] * Ap[i];
		const double al = rr / pap;
		double rn = 0;
		for (std::size_t i = 0; i < n; i++) { x[i] += al * p[i]; r[i] -= al * Ap[i]; rn += r[i] * r[i]; }
		if (rn < lim) return (int)k + 1;
		const double be = rn / rr;
		for (std::size_t i = 0; i < n; i++) p[i] = r[i] + be * p[i];
		rr = rn;
		if (!(rr == rr)) return -1;
	}
	return -1;
}
}
