// N05: the conjugate gradient solver, alone on arbitrary systems and inside whole steps.
#pragma once

#ifndef PRESSURE_EXPLICIT
namespace slv
{
using Rows = std::vector<Model::Row>;

struct Emu { int its = -1; L maxX = 0; L r0 = 0, minR = 0; };
// conjugate gradients in long double on the given system (diag + off), to know what is reasonable
inline Emu Emulate(const Rows& a, const std::vector<double>& b, std::vector<double> x0, double eps, std::size_t maxIt)
{
	Emu e; const std::size_t n = a.size();
	std::vector<L> x(x0.begin(), x0.end()), r(n), p, ap(n);
	auto mul = [&](const std::vector<L>& v, std::vector<L>& y) { for (std::size_t i = 0; i < n; i++) { L s = a[i].diag * v[i]; for (auto& o : a[i].off) s += o.second * v[o.first]; y[i] = s; } };
	mul(x, ap);
	L rr = 0; for (std::size_t i = 0; i < n; i++) { r[i] = b[i] - ap[i]; rr += r[i] * r[i]; }
	e.r0 = std::sqrt(rr); e.minR = e.r0;
	p = r;
	auto nx = [&] { L s = 0; for (auto v : x) s += v * v; return std::sqrt(s); };
	e.maxX = nx();
	if (rr == 0) { e.its = 0; return e; }
	const L lim = rr * eps * eps;
	for (std::size_t k = 0; k < maxIt; k++)
	{
		mul(p, ap);
		L pap = 0; for (std::size_t i = 0; i < n; i++) pap += p[i] * ap[i];
		if (pap == 0 || !(pap == pap)) return e;
		const L al = rr / pap; L rn = 0;
		for (std::size_t i = 0; i < n; i++) { x[i] += al * p[i]; r[i] -= al * ap[i]; rn += r[i] * r[i]; }
		e.maxX = std::max(e.maxX, nx());
		e.minR = std::min(e.minR, std::sqrt(rn));
		if (rn < lim) { e.its = (int)k + 1; return e; }
		const L be = rn / rr;
		for (std::size_t i = 0; i < n; i++) p[i] = r[i] + be * p[i];
		rr = rn;
		if (!(rr == rr)) return e;
	}
	return e;
}

inline L Residual(const Rows& a, const std::vector<double>& b, const std::vector<double>& x, L& normA)
{
	L s = 0; normA = 0;
	for (std::size_t i = 0; i < a.size(); i++)
	{
		L q = b[i] - a[i].diag * x[i], m = std::fabs(a[i].diag);
		for (auto& o : a[i].off) { q -= o.second * x[o.first]; m += std::fabs(o.second); }
		s += q * q; normA = std::max(normA, m);
	}
	return std::sqrt(s);
}

// judge one solve; out: what happened; returns false after a violation
inline bool Judge(const char* what, const Rows& a, const std::vector<double>& b, const std::vector<double>& x0, const std::vector<double>& x, double eps, Out out)
{
	const std::size_t n = a.size();
	L na; const L r0 = Residual(a, b, x0, na);
	L nb = 0; for (auto v : b) nb += (L)v * v; nb = std::sqrt(nb);
	const Emu e = Emulate(a, b, x0, eps, n);
	if (out == Out::Ok)
	{
		R.S("solved"); R.Max("iterations", e.its); R.Max("size", (double)n);
		bool finite = true; for (auto v : x) finite = finite && std::isfinite(v);
		if (!finite) { R.V("N05", "nonfinite", "%s: solver returned non-finite values for %zu unknowns", what, n); return false; }
		if (r0 == 0)
		{
			for (std::size_t i = 0; i < n; i++) if (!SameBits(x[i], x0[i])) { R.V("N05", "exact-guess", "%s: exact guess changed at %zu from %.17g to %.17g", what, i, x0[i], x[i]); return false; }
			R.S("exact_guesses"); return true;
		}
		L nx = 0; for (auto v : x) nx += (L)v * v; nx = std::sqrt(nx);
		const L rt = Residual(a, b, x, na);
		const L rounding = 1e-15L * (10 + 3 * (L)n) * (na * std::max(e.maxX, nx) + nb);
		R.Max("residual_ratio", (double)(rt / (eps * r0 + rounding)));
		if (!(rt <= eps * r0 * (1 + 1e-6L) + rounding)) { R.V("N05", "unconverged", "%s: residual %.6Lg of initial %.6Lg exceeds tolerance %.3g (rounding allowance %.3Lg, %zu unknowns, reference needs %d iterations)", what, rt, r0, eps, rounding, n, e.its); return false; }
		if (eps * r0 > 3 * rounding) R.S("tight"); 
		return true;
	}
	if (out == Out::Solver)
	{
		R.S("refused");
		bool exact = r0 == 0; // every product and partial sum representable, so that the residual is zero in any arithmetic
		for (std::size_t i = 0; exact && i < n; i++)
		{
			int terms = b[i] != 0;
			auto term = [&](L c, double v) { if (c == 0 || v == 0) return; terms++; if ((L)(double)(c * (L)v) != c * (L)v) exact = false; };
			term(a[i].diag, x0[i]); for (auto& o : a[i].off) term(o.second, x0[o.first]);
			if (terms != 0 && terms != 2) exact = false;
		}
		if (exact) { R.V("N05", "exact-guess-refused", "%s: solver fails although its first guess solves the %zu equations exactly", what, n); return false; }
		if (e.its >= 0 && (e.its <= 0.7 * (double)n || e.its <= 1) && r0 * eps > 1e-13L * (na * e.maxX + nb)) { R.V("N05", "spurious-error", "%s: solver fails on a system of %zu unknowns that plain conjugate gradients solve in %d iterations (tolerance %.3g)", what, n, e.its, eps); return false; }
		return true;
	}
	R.V("N05", "error-type", "%s: solver fails with something else than its documented error", what);
	return false;
}
}

static void ModeSolver(Rng& r)
{
	using namespace slv;
	const std::size_t n = r.p(0.1) ? r.i(1, 3) : r.p(0.9) ? r.i(2, 60) : r.i(60, 400);
	Rows a(n); std::vector<double> b(n), x0(n), xs(n);
	const int kind = r.i(0, 8);
	const double sign = r.p(0.6) ? -1 : 1, sc = r.lg(1e-8, 1e8), scb = r.lg(1e-8, 1e8);
	auto link = [&](std::size_t i, std::size_t j, double v)
	{
		if (i == j) return;
		for (auto& o : a[i].off) if (o.first == (int)j) return;
		a[i].off.push_back({(int)j, (L)v}); a[j].off.push_back({(int)i, (L)v});
	};
	std::string tag;
	const std::size_t w = (std::size_t)std::max(1.0, std::sqrt((double)n));
	auto laplace = [&](double extraProb)
	{
		for (std::size_t i = 0; i < n; i++) { if (i % w + 1 < w && i + 1 < n) link(i, i + 1, -sign * sc * r.in(0.2, 2)); if (i + w < n) link(i, i + w, -sign * sc * r.in(0.2, 2)); if (r.p(0.1)) link(i, r.i(0, (int)n - 1), -sign * sc * r.in(0, 1)); }
		for (std::size_t i = 0; i < n; i++) { L d = 0; for (auto& o : a[i].off) d -= o.second; if (r.p(extraProb)) d += sign * sc * r.in(0.1, 2); if (a[i].off.empty()) d = sign * sc; a[i].diag = d; }
	};
	for (auto& v : xs) v = r.in(-1, 1) * scb / sc;
	bool consistent = true;
	switch (kind)
	{
	default:
	case 0: laplace(1); tag = "dominant"; break;
	case 1: laplace(0.1); tag = "surface"; break;
	case 2: laplace(0); tag = "singular-consistent"; break;
	case 3: laplace(0); tag = "singular-inconsistent"; consistent = false; break;
	case 4: for (auto& q : a) q.diag = sign * sc * r.lg(1e-6, 1e6); tag = "diagonal"; break;
	case 5: for (auto& q : a) q.diag = sign * sc; tag = "identity"; break;
	case 6: for (std::size_t i = 0; i < n; i++) { for (int k = 0; k < 3; k++) link(i, r.i(0, (int)n - 1), sc * r.in(-1, 1)); a[i].diag = sc * r.in(-1, 1); } tag = "indefinite"; break;
	case 7: laplace(0.15); for (std::size_t i = 0; i < n; i++) if (r.p(0.3)) { for (auto& o : a[i].off) { auto& f = a[o.first].off; f.erase(std::remove_if(f.begin(), f.end(), [&](auto& q) { return q.first == (int)i; }), f.end()); } a[i].off.clear(); a[i].diag = sign < 0 ? 1 : 1; xs[i] = 0; } tag = "identity-rows"; break;
	case 8: laplace(0.5); { const double big = r.lg(1, 1e6); for (std::size_t i = 0; i < n; i++) if (i % 5 == 0) a[i].diag *= big; } tag = "stiff"; break;
	}
	for (std::size_t i = 0; i < n; i++)
	{
		a[i].diag = (L)(double)a[i].diag; for (auto& o : a[i].off) o.second = (L)(double)o.second;
	}
	for (std::size_t i = 0; i < n; i++) { L s = a[i].diag * xs[i]; for (auto& o : a[i].off) s += o.second * xs[o.first]; b[i] = (double)s; }
	if (!consistent) { const double k = scb * r.in(0.1, 1); for (auto& v : b) v += k; }
	switch (r.i(0, 5))
	{
	case 0: for (auto& v : x0) v = 0; break;
	case 1: for (auto& v : x0) v = r.in(-1, 1) * scb / sc; break;
	case 2: for (std::size_t i = 0; i < n; i++) x0[i] = xs[i] * (1 + r.in(-1, 1) * 1e-3); break;
	case 3: for (auto& v : x0) v = r.in(-1, 1) * scb / sc * 1e4; break;
	case 4: for (std::size_t i = 0; i < n; i++) x0[i] = xs[i]; break;
	case 5: for (auto& v : b) v = 0; for (auto& v : x0) v = 0; break;
	}
	if (kind >= 4 && kind <= 5 && r.p(0.5)) { for (std::size_t i = 0; i < n; i++) { a[i].diag = std::ldexp((L)1, (int)(i % 5)) * (L)sign; x0[i] = xs[i] = r.i(-100, 100); b[i] = (double)(a[i].diag * xs[i]); } }
	const double eps = std::pow(10.0, -r.in(2, 12));
	R.ctx = tag + " n=" + std::to_string(n) + " eps=" + G(eps) + " scale=" + G(sc);
	Scene s; s.e.l0 = 0.1; s.setBase();
	Sim sim(s, eps, 0.01);
	const int reps = r.p(0.3) ? 2 : 1; // a second, different use of the same solver object
	for (int rep = 0; rep < reps; rep++)
	{
		auto& ppe = X::Ppe(*sim);
		using Ppe = std::decay_t<decltype(ppe)>;
		if (rep == 0)
		{
			ppe.A = typename Ppe::Matrix{n, n};
			ppe.x = typename Ppe::LongVector(n); ppe.b = typename Ppe::LongVector(n);
			ppe.cg.r = typename Ppe::LongVector(n); ppe.cg.p = typename Ppe::LongVector(n); ppe.cg.Ap = typename Ppe::LongVector(n);
#ifdef USE_VIENNACL
			ppe.tempA = typename Ppe::TempMatrix(n, n);
#endif
		}
		else { for (std::size_t i = 0; i < n; i++) { b[i] *= r.in(0.5, 2); x0[i] = r.in(-1, 1) * scb / sc; } if (kind == 2 || kind == 3) break; }
#ifdef USE_VIENNACL
		auto& T = ppe.tempA;
#else
		auto& T = ppe.A;
#endif
		T.clear();
		for (std::size_t i = 0; i < n; i++) { T(i, i) = (double)a[i].diag; for (auto& o : a[i].off) T(i, o.first) = (double)o.second; }
#ifdef USE_VIENNACL
		viennacl::copy(ppe.tempA, ppe.A);
#endif
		for (std::size_t i = 0; i < n; i++) { ppe.b(i) = b[i]; ppe.x(i) = x0[i]; }
		const Out out = Try([&] { X::Solve(*sim); });
		if (!Judge(tag.c_str(), a, b, x0, sim.Vec(0), eps, out)) return;
		const auto b2 = sim.Vec(1);
		for (std::size_t i = 0; i < n; i++) if (!SameBits(b[i], b2[i])) { R.V("N05", "rhs-changed", "solver changed the right-hand side at %zu", i); return; }
		using LV = std::decay_t<decltype(ppe.x)>;
		LV v(n); std::vector<double> vv(n); for (std::size_t i = 0; i < n; i++) { vv[i] = r.in(0.5, 1.5); v(i) = vv[i]; }
		const LV y = sim.MulA(v);
		for (std::size_t i = 0; i < n; i++) { L t = a[i].diag * vv[i], m = std::fabs(t); for (auto& o : a[i].off) { t += o.second * vv[o.first]; m += std::fabs(o.second * vv[o.first]); } if (!Close(y(i), t, 1e-13L * m)) { R.V("N05", "matrix-changed", "solver changed row %zu of the matrix", i); return; } }
	}
	R.S("systems." + tag);
	if (R.cur < 4) R.Sample(R.ctx);
}

static void ModeSolverStep(Rng& r)
{
	using namespace slv;
	Options o; o.maxN = r.p(0.1) ? 220 : 70; o.padMax = 1030;
	Scene s = gen::Make(r, o);
	if (s.ps.empty()) return;
	R.ctx = gen::Describe(s);
	double h = StepSize(s, r);
	Sim sim(s, s.eps, h);
	for (int k = 0; k < r.i(1, 3); k++)
	{
		const auto before = sim.State();
		for (auto& q : before) for (int d = 0; d < D; d++) if (!(std::fabs(q.x[d]) < 1e100 && std::fabs(q.u[d]) < 1e100)) return;
		const Out out = Try([&] { sim.Step(h); });
		if (out == Out::Crowd) { R.S("skipped"); return; }
		const auto after = sim.State();
		const auto A = sim.DenseA(); const auto b = sim.Vec(1); const auto x = sim.Vec(0);
		const std::size_t n = after.size();
		Rows a(n); std::vector<double> x0(n);
		for (std::size_t i = 0; i < n; i++)
		{
			a[i].diag = A[i][i]; bool off = false;
			for (std::size_t j = 0; j < n; j++) if (j != i && A[i][j] != 0) { a[i].off.push_back({(int)j, (L)A[i][j]}); off = true; }
			// the initial guess: last pressure on rows that carry a pressure
			const bool identity = !off && A[i][i] == 1 && b[i] == 0;
			x0[i] = identity || !Model::hasP(after[i].type) ? 0 : before[i].p;
		}
		bool fin = true; for (std::size_t i = 0; i < n; i++) fin = fin && std::isfinite((double)a[i].diag) && std::isfinite(b[i]) && std::isfinite(x0[i]);
		if (!fin) { R.S("nonfinite_systems"); return; }
		if (!Judge("step", a, b, x0, x, s.eps, out)) return;
		R.S("steps");
		if (out != Out::Ok) return;
	}
	if (R.cur < 4) R.Sample(R.ctx);
}
#else
static void ModeSolver(Rng&) {}
static void ModeSolverStep(Rng&) {}
#endif
