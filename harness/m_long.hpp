// N21 tank runs, N25 still water, N19 failures of the library, N15 hostile workload.
#pragma once

// a tank with one wall layer and three dummy layers, inner size w (x w) x height h in particles, water column fx (x fy) x fz
static Scene Tank(int w, int wy, int h, int fx, int fy, int fz, double l0, const double* off, int dummy = 3)
{
	Scene s; s.e.l0 = l0; s.tag = "tank";
	const int b = 1 + dummy;
	for (int i = -b; i < w + b; i++) for (int j = (D == 3 ? -b : 0); j < (D == 3 ? wy + b : 1); j++) for (int k = -b; k < h; k++)
	{
		auto dep = [](int v, int n) { return v < 0 ? -v : v >= n ? v - n + 1 : 0; };
		int dd = std::max(dep(i, w), k < 0 ? -k : 0); if (D == 3) dd = std::max(dd, dep(j, wy));
		int t;
		if (dd == 0) { if (i < fx && (D == 2 || j < fy) && k < fz) t = FLUID; else continue; }
		else t = dd == 1 ? WALL : DUMMY;
		double x[3]; const int c[3] = {i, D == 3 ? j : k, k}; for (int d = 0; d < D; d++) x[d] = off[d] + l0 * c[d];
		gen::addP(s, t, x);
	}
	for (int d = 0; d < D; d++) { s.e.mn[d] = off[d] - (b + 1) * l0; s.e.mx[d] = off[d] + ((d == D - 1 ? h : d == 0 ? w : wy) + b + 1) * l0; }
	s.setBase();
	return s;
}

static L FluidEnergy(const std::vector<P>& s, double g, double z0)
{
	L e = 0;
	for (auto& p : s) if (p.type == FLUID) { L q = 0; for (int d = 0; d < D; d++) q += (L)p.u[d] * p.u[d]; e += q / 2 + g * ((L)p.x[D - 1] - z0); }
	return e;
}
static L ClosestFluid(const std::vector<P>& s, double l0)
{
	// hash free: sort along x
	std::vector<int> id; for (std::size_t i = 0; i < s.size(); i++) if (s[i].type == FLUID || s[i].type == WALL) id.push_back((int)i);
	std::sort(id.begin(), id.end(), [&](int a, int b) { return s[a].x[0] < s[b].x[0]; });
	L best = 1e30L;
	for (std::size_t a = 0; a < id.size(); a++) for (std::size_t b = a + 1; b < id.size(); b++)
	{
		if (s[id[b]].x[0] - s[id[a]].x[0] > l0) break;
		if (s[id[a]].type != FLUID && s[id[b]].type != FLUID) continue;
		L q = 0; for (int d = 0; d < D; d++) { const L v = s[id[a]].x[d] - s[id[b]].x[d]; q += v * v; }
		best = std::min(best, q);
	}
	return std::sqrt(best) / l0;
}

static void ModeTank(Rng& r)
{
	const double l0 = r.pick<double>({0.008, 0.01, 0.02, 0.05, 0.1, 1.0});
	double off[3]; for (auto& v : off) v = r.p(0.5) ? 0 : l0 * r.in(-20, 20);
	const int fx = D == 3 ? r.i(3, 5) : r.i(5, 16), fz = D == 3 ? r.i(4, 6) : r.i(6, 22);
	const bool settle = r.p(0.3);
	const int w = settle ? fx : fx + (D == 3 ? r.i(1, 4) : r.i(2, 24)), wy = r.i(3, 4), h = fz * 2 + 8;
	Scene s = Tank(w, wy, h, fx, settle ? wy : r.i(2, wy), fz, l0, off);
	auto& e = s.e;
	e.g = r.p(0.7) ? 9.8 : r.in(1, 30); e.rho = r.p(0.6) ? 1000 : r.lg(0.5, 3e4); e.nu = r.p(0.6) ? 1e-6 : r.lg(1e-6, 1e-3) * std::sqrt(e.g * l0) * l0; e.re = r.p(0.6) ? 2.4 : r.in(2.1, D == 3 ? 2.6 : 3.1); e.courant = r.p(0.6) ? 0.1 : r.in(0.05, 0.15);
	const double T = std::sqrt(fz * l0 / e.g); // time scale of the collapse
	e.maxDt = T * r.pick<double>({0.003, 0.006, 0.01}); e.c = 10 * std::sqrt(e.g * fz * l0); s.eps = 1e-8;
	s.Uref = std::sqrt(e.g * fz * l0); s.Tref = T;
	R.ctx = gen::Describe(s) + " water " + std::to_string(fx) + "x" + std::to_string(fz) + " in " + std::to_string(w);
	Sim sim(s, s.eps, 0);
	const L e0 = FluidEnergy(s.ps, e.g, off[D - 1]);
	const std::size_t nf = s.count(FLUID);
	const L ref = (L)nf * e.g * fz * l0;
	int steps = 0; L emax = -1e30L, dmin = 1e30L;
	const int maxSteps = D == 3 ? r.i(60, 150) : r.i(200, 600);
	while (steps < maxSteps && sim.Env().T() < 4 * T)
	{
		const Out out = Try([&] { sim.Step(); });
		if (out != Out::Ok) { R.V("N21", "failed", "step %d of a tank run cannot be computed (%s)", steps, out == Out::Crowd ? "too crowded" : "pressure not solved"); return; }
		steps++;
		const auto a = sim.State();
		const double sec = e.MaxDx();
		for (std::size_t i = 0; i < a.size(); i++)
		{
			if (a[i].type == DISABLED) { R.V("N21", "disabled", "particle %zu disabled in step %d", i, steps); return; }
			bool fin = std::isfinite(a[i].p) && std::isfinite(a[i].n); for (int d = 0; d < D; d++) fin = fin && std::isfinite(a[i].x[d]) && std::isfinite(a[i].u[d]);
			if (!fin) { R.V("N21", "nonfinite", "particle %zu not finite in step %d", i, steps); return; }
			if (a[i].type != FLUID) continue;
			for (int d = 0; d < D; d++)
			{
				const double lo = off[d] - l0, hi = d == D - 1 ? 1e300 : off[d] + (d == 0 ? w : wy) * l0;
				if (a[i].x[d] < lo || (a[i].x[d] > hi)) { if (d != D - 1 && a[i].x[D - 1] > off[D - 1] + (h - 1) * l0) continue; R.V("N21", "leak", "fluid particle %zu passed the wall: axis %d at %.4f spacings outside the wall line in step %d", i, d, std::max(lo - a[i].x[d], a[i].x[d] - hi) / l0, steps); return; }
			}
		}
		const L en = FluidEnergy(a, e.g, off[D - 1]);
		emax = std::max(emax, (en - e0) / ref);
		const L md = ClosestFluid(a, l0);
		dmin = std::min(dmin, md);
		(void)sec;
		if (!(md > 0.35L)) { R.V("N21", "too-close", "two particles only %.3Lf spacings apart in step %d", md, steps); return; }
		if (!(en - e0 < 0.03L * ref)) { R.V("N21", "energy", "mechanical energy rose by %.4Lf of the potential scale by step %d", (en - e0) / ref, steps); return; }
	}
	R.S("runs"); R.S("steps", steps); R.S("fluid", (double)nf); R.Max("energy_rise", (double)emax); R.Max("minus_closest", -(double)dmin);
	if (getenv("MON_DEBUG")) printf("# tank emax %.5Lf dmin %.4Lf steps %d t/T %.2f [%s]\n", emax, dmin, steps, sim.Env().T() / T, R.ctx.c_str());
	if (R.cur < 3) R.Sample(R.ctx + " steps=" + std::to_string(steps) + " energy rise " + G((double)emax) + " closest " + G((double)dmin));
}

static void ModeStill(Rng& r)
{
	const double l0 = r.pick<double>({0.005, 0.01, 0.02, 0.1, 1.0});
	double off[3]; for (auto& v : off) v = r.p(0.4) ? 0 : l0 * r.in(-30, 30);
	const int w = D == 3 ? r.i(3, 5) : r.i(5, 16), wy = D == 3 ? r.i(3, 4) : 3, fz = D == 3 ? r.i(4, 6) : r.i(6, 14);
	Scene s = Tank(w, wy, fz + 6, w, wy, fz, l0, off);
	auto& e = s.e;
	e.g = r.p(0.5) ? 9.8 : r.in(1, 40); e.rho = r.p(0.4) ? 1000 : r.p(0.3) ? r.lg(3e3, 3e4) : r.lg(0.5, 5e3); e.nu = r.p(0.5) ? 1e-6 : r.lg(1e-6, 1e-3) * std::sqrt(e.g * l0) * l0; e.re = r.p(0.6) ? 2.4 : r.in(2.1, D == 3 ? 2.45 : 3.1); e.courant = 0.1;
	const double H = fz * l0, Tl = std::sqrt(l0 / e.g);
	e.maxDt = Tl * r.in(0.01, 0.02); e.c = 10 * std::sqrt(e.g * H); s.eps = 1e-9;
	s.Uref = std::sqrt(e.g * H); s.Tref = Tl;
	R.ctx = gen::Describe(s) + " depth " + std::to_string(fz) + " width " + std::to_string(w);
	Sim sim(s, s.eps, 0);
	const int steps = D == 3 ? r.i(80, 160) : r.i(150, 400);
	std::vector<L> pavg(s.ps.size(), 0); int cnt = 0; L umax = 0, drift = 0, surf = 0, side = 0;
	auto com = [&](const std::vector<P>& a, int d) { L c = 0; std::size_t n = 0; for (auto& p : a) if (p.type == FLUID) { c += p.x[d]; n++; } return c / n; };
	const L c0[3] = {com(s.ps, 0), com(s.ps, 1), D == 3 ? com(s.ps, 2) : 0};
	L top0 = -1e300L; for (auto& p : s.ps) if (p.type == FLUID) top0 = std::max(top0, (L)p.x[D - 1]);
	for (int k = 0; k < steps; k++)
	{
		const Out out = Try([&] { sim.Step(); });
		if (out != Out::Ok) { R.V("N25", "failed", "step %d of still water cannot be computed", k); return; }
		const auto a = sim.State();
		for (auto& p : a) if (p.type == FLUID) { L q = 0; for (int d = 0; d < D; d++) q += (L)p.u[d] * p.u[d]; umax = std::max(umax, std::sqrt(q) / (L)s.Uref); }
		for (int d = 0; d < D; d++) { const L v = std::fabs(com(a, d) - c0[d]) / l0; drift = std::max(drift, v); if (d < D - 1) side = std::max(side, v); }
		for (std::size_t i = 0; i < a.size(); i++) if (a[i].type == DISABLED || !Finite({a[i]})) { R.V("N25", "lost", "a particle of still water is lost or not finite in step %d", k); return; }
		L top = -1e300L; for (auto& p : a) if (p.type == FLUID) top = std::max(top, (L)p.x[D - 1]);
		surf = std::max(surf, std::fabs(top - top0) / l0);
		if (k >= steps / 2) { for (std::size_t i = 0; i < a.size(); i++) pavg[i] += a[i].p; cnt++; }
		if (getenv("MON_DEBUG2") && k % 5 == 0) { L tot = 0; for (auto& p : a) if (p.type == FLUID) tot += p.p; printf("# k %d umax %.4Lf drift %.4Lf meanP/(rho g H/2) %.4Lf\n", k, umax, drift, tot / s.count(FLUID) / (e.rho * e.g * H / 2)); }
	}
	for (auto& v : pavg) v /= cnt;
	// least squares p = a + b*depth by rows (depth below the initial surface line top0 + l0/2)
	const auto a = sim.State();
	L n = 0, sx = 0, sy = 0, sxx = 0, sxy = 0, tot = 0;
	for (std::size_t i = 0; i < a.size(); i++) if (a[i].type == FLUID)
	{
		const L dep = (top0 - a[i].x[D - 1]) / l0, q = pavg[i] / (e.rho * e.g * l0);
		n++; sx += dep; sy += q; sxx += dep * dep; sxy += dep * q; tot += q;
	}
	const L slope = (n * sxy - sx * sy) / (n * sxx - sx * sx), icpt = (sy - slope * sx) / n;
	R.Max("speed", (double)umax); R.Max("drift", (double)drift); R.Max("side_drift", (double)side); R.Max("surface", (double)surf);
	R.Max("slope", (double)slope); R.Max("minus_slope", -(double)slope);
	{
		const L lo = D == 3 ? 0.75L : 0.8L, hi = D == 3 ? 1.65L : 1.3L;
		if (!(umax < 0.25L)) R.V("N25", "speed", "still water reaches %.3Lf of the free-fall speed of its depth", umax);
		else if (!(drift < 0.4L)) R.V("N25", "drift", "the centre of mass of still water moves by %.3Lf spacings in %d steps", drift, steps);
		else if (!(side < 0.05L)) R.V("N25", "side-drift", "the centre of mass of still water moves sideways by %.3Lf spacings in %d steps", side, steps);
		else if (!(surf < 0.6L)) R.V("N25", "surface", "the surface of still water moves by %.3Lf spacings in %d steps", surf, steps);
		else if (!(slope > lo && slope < hi)) R.V("N25", "hydrostatic", "the pressure of still water grows with depth at %.4Lf of rho g", slope);
	}
	if (getenv("MON_DEBUG")) printf("# still umax %.4Lf drift %.4Lf surf %.4Lf slope %.4Lf icpt %.4Lf steps %d [%s]\n", umax, drift, surf, slope, icpt, steps, R.ctx.c_str());
	R.S("runs"); R.S("steps", steps); R.S("fluid", (double)n);
	if (R.cur < 3) R.Sample(R.ctx + " slope " + G((double)slope) + " drift " + G((double)drift));
}

// what a failing call may throw: the documented types with a message
static Out Classify(const char* pid, const char* what, const std::function<void()>& f)
{
	using Comp = OpenMps::Computer<const WallFn&, const PreFn&>;
	try { f(); return Out::Ok; }
	catch (const std::runtime_error& ex)
	{
		const bool g = dynamic_cast<const OpenMps::Grid::Exception*>(&ex) != nullptr, c = dynamic_cast<const Comp::Exception*>(&ex) != nullptr;
		if (!g && !c) { R.V(pid, "error-type", "%s fails with \"%s\", which is none of the documented errors", what, ex.what()); return Out::Other; }
		if (!ex.what() || !*ex.what()) R.V(pid, "error-message", "%s fails without a message", what);
		return g ? Out::Crowd : Out::Solver;
	}
	catch (const std::exception& ex) { R.V(pid, "error-type", "%s fails with \"%s\", which is not a runtime error", what, ex.what()); return Out::Other; }
	catch (...) { R.V(pid, "error-type", "%s fails with something that is not an exception of the standard library", what); return Out::Other; }
}

// capacity that one search cell is guaranteed to hold at most
static std::size_t CellCapacity(const EnvP& e)
{
	std::size_t c = 1; const std::size_t k = (std::size_t)(std::ceil(e.NL() / e.l0) + 1);
	for (int d = 0; d < D; d++) c *= k;
	return c;
}

static void ModeFail(Rng& r)
{
	Options o; o.maxN = 60; o.safe = true; o.noDisabled = r.p(0.7);
	Scene s = gen::Make(r, o);
	auto& e = s.e;
	int kind = r.i(0, 2); // 0 crowded at some step by converging walls 1 crowded by added particles 2 unreachable tolerance
	if (kind == 2 && ref::EXPL) kind = 0;
	const std::size_t cap = CellCapacity(e);
	const int later = r.i(0, 3);
	if (kind == 0)
	{
		// a swarm of wall particles that is pulled together to a point (kind 5 of the motion is made of the base table)
		const std::size_t m = cap * (D == 2 ? 4 : 8) + 1 + (std::size_t)r.i(0, 5);
		const int side = (int)std::ceil(std::pow((double)m, 1.0 / D));
		double c[3]; for (int d = 0; d < D; d++) c[d] = e.mx[d] + e.l0 * 5;
		std::size_t k = 0;
		std::vector<P> sw;
		for (int i = 0; i < side && k < m; i++) for (int j = 0; j < (D == 3 ? side : 1) && k < m; j++) for (int q = 0; q < side && k < m; q++, k++)
		{
			double x[3] = {c[0] + i * e.l0, D == 3 ? c[1] + j * e.l0 : c[1] + q * e.l0, c[2] + q * e.l0};
			P p; p.type = r.p(0.5) ? DUMMY : WALL; for (int d = 0; d < D; d++) p.x[d] = x[d];
			sw.push_back(p);
		}
		const std::size_t first = r.p(0.5) ? 0 : s.ps.size();
		s.ps.insert(s.ps.begin() + (long)first, sw.begin(), sw.end());
		for (int d = 0; d < D; d++) e.mx[d] = c[d] + side * e.l0 + 3 * e.l0;
		s.mo.kind = 0; s.setBase();
		R.ctx = gen::Describe(s) + " swarm " + std::to_string(m) + " collapses in step " + std::to_string(later);
		const double h = StepSize(s, r);
		s.eps = 1e-6;
		struct Fn { const std::vector<std::array<double, 3>>* b; std::size_t f, l; double c[3]; double when; double l0;
			OpenMps::Vector operator()(std::size_t i, double t, double) const { double x[3]; for (int d = 0; d < D; d++) x[d] = (*b)[i][d]; if (t > when && i >= f && i < l) for (int d = 0; d < D; d++) x[d] = c[d] + (x[d] - c[d]) * 1e-3; return ToV(x); } };
		Fn fn{&s.mo.base, first, first + m, {c[0], c[1], c[2]}, (later + 0.5) * h, e.l0};
		PreFn pre;
		auto env = MakeEnv(e); env.Dt() = h;
		OpenMps::Computer<const Fn&, const PreFn&> comp(
#ifndef PRESSURE_EXPLICIT
			s.eps,
#endif
			env, fn, pre);
		comp.AddParticles(ToParticles(s.ps));
		using CompF = OpenMps::Computer<const Fn&, const PreFn&>;
		for (int k2 = 0; k2 <= later + 1; k2++)
		{
			bool threw = false;
			try { comp.ForwardTime(h); }
			catch (const OpenMps::Grid::Exception& ex) { threw = true; if (!*ex.what()) R.V("N19", "error-message", "no message"); static_assert(std::is_base_of<std::runtime_error, OpenMps::Grid::Exception>::value, "documented base"); R.S("crowding_errors"); }
			catch (const CompF::Exception& ex) { threw = true; if (!*ex.what()) R.V("N19", "error-message", "no message"); R.S("solver_errors"); return; }
			catch (const std::exception& ex) { R.V("N19", "error-type", "a crowded step fails with \"%s\", which is none of the documented errors", ex.what()); return; }
			catch (...) { R.V("N19", "error-type", "a crowded step fails with something that is not an exception of the standard library"); return; }
			if (comp.Particles().size() != s.ps.size()) { R.V("N19", "size", "particles lost by a failing step"); return; }
			if (threw)
			{
				if (k2 < later + 1) { bool crowd = false; std::vector<P> st; for (auto& q : comp.Particles()) { P p; p.type = (int)q.TYPE(); for (int d = 0; d < D; d++) p.x[d] = q.X()[d]; st.push_back(p); } crowd = Crowded(st, e); if (!crowd) R.V("N19", "early", "step %d fails for crowding although the particles collapse only in step %d", k2, later); }
				R.S("failing_runs");
				// it keeps failing the same way, and does not fall over
				if (r.p(0.5)) { bool again = false; try { comp.ForwardTime(h); } catch (const std::runtime_error&) { again = true; } if (!again) R.V("N19", "recovered", "the step after a crowding error succeeds although nothing changed"); }
				if (R.cur < 6) R.Sample(R.ctx);
				return;
			}
		}
		R.V("N19", "silent", "%zu particles within %.3g of each other (capacity %zu per cell) are accepted without an error", m, side * e.l0 * 1e-3, cap);
		return;
	}
	const double h = StepSize(s, r);
	if (kind == 2) s.eps = std::pow(10.0, -r.in(17, 60));
	else s.eps = 1e-6;
	Sim sim(s, s.eps, h);
	R.ctx = gen::Describe(s) + (kind == 2 ? " unreachable tolerance" : " crowd added");
	bool added = false;
	for (int k = 0; k < later + 3; k++)
	{
		if (kind == 1 && k == later)
		{
			const std::size_t m = cap * (D == 2 ? 4 : 8) + 1; std::vector<P> sw(m); const int t = r.i(0, 2);
			for (auto& p : sw) { p.type = t; for (int d = 0; d < D; d++) p.x[d] = (e.mn[d] + e.mx[d]) / 2 + e.l0 * 1e-3 * r.in(-1, 1); }
			// walls must stay: their place comes from the table of the scene, which has no entry for them, so they are fluid or placed together
			s.ps = sim.State(); s.ps.insert(s.ps.end(), sw.begin(), sw.end());
			sim.Add(sw); added = true;
		}
		const std::size_t n = sim.Size();
		const Out out = Classify("N19", "a step", [&] { sim.Step(h); });
		if (sim.Size() != n) { R.V("N19", "size", "particles lost by a failing step"); return; }
		if (out == Out::Other) return;
		if (out != Out::Ok) { R.S(out == Out::Crowd ? "crowding_errors" : "solver_errors"); R.S("failing_runs"); if (R.cur < 6) R.Sample(R.ctx); if (r.p(0.7)) return; continue; }
		if (added) { R.V("N19", "silent", "%zu coincident particles (capacity %zu per cell) are accepted without an error", cap * (D == 2 ? 4 : 8) + 1, cap); return; }
		R.S("solved_anyway");
	}
	R.S("no_failure");
}

// hostile histories: only the sanitizers and the kind of error judge
static void ModeHostile(Rng& r)
{
	Options o; o.maxN = r.p(0.1) ? 300 : 60; o.exits = r.p(0.3);
	Scene s = gen::Make(r, o);
	auto& e = s.e;
	auto hostile = [&]() -> double
	{
		switch (r.i(0, 11))
		{
		case 0: return std::numeric_limits<double>::quiet_NaN();
		case 1: return std::numeric_limits<double>::infinity();
		case 2: return -std::numeric_limits<double>::infinity();
		case 3: return 1e308 * (r.p(0.5) ? 1 : -1);
		case 4: return 1e19 * (r.p(0.5) ? 1 : -1);
		case 5: return 2147483648.0 * e.NL() * (r.p(0.5) ? 1.0 : -1.0) * r.in(0.99, 1.01);
		case 6: return 9.3e18 * e.NL();
		case 7: return 5e-324;
		case 8: return -0.0;
		case 9: return 4294967296.0 * e.NL() * (r.p(0.5) ? 1.0 : -1.0);
		default: return r.in(-1, 1) * e.l0 * std::pow(10.0, r.in(-3, 12));
		}
	};
	const int ways = r.i(1, 3);
	auto spoil = [&](std::vector<P>& ps)
	{
		if (ps.empty()) return;
		switch (r.i(0, 9))
		{
		case 0: for (int k = r.i(1, 3); k > 0; k--) ps[r.i(0, (int)ps.size() - 1)].x[r.i(0, D - 1)] = hostile(); R.S("bad_position"); break;
		case 1: for (int k = r.i(1, 3); k > 0; k--) ps[r.i(0, (int)ps.size() - 1)].u[r.i(0, D - 1)] = hostile(); R.S("bad_velocity"); break;
		case 2: { auto& a = ps[r.i(0, (int)ps.size() - 1)]; const auto& b = ps[r.i(0, (int)ps.size() - 1)]; for (int d = 0; d < D; d++) a.x[d] = b.x[d]; R.S("coincident"); break; }
		case 3: { const int n = r.i(2, (int)(CellCapacity(e) * 2)); P p; p.type = r.i(0, 3); const P b = ps[r.i(0, (int)ps.size() - 1)]; for (int k = 0; k < n; k++) { for (int d = 0; d < D; d++) p.x[d] = b.x[d] + e.l0 * r.in(-0.2, 0.2); ps.push_back(p); } R.S("crowded"); break; }
		case 4: for (auto& p : ps) if (r.p(0.3)) { const int d = r.i(0, D - 1); p.x[d] = r.pick<double>({e.mn[d], e.mx[d], e.mx[d] + 2 * e.NL(), e.mx[d] + 3 * e.NL(), std::nextafter(e.mn[d], -1e300), e.mn[d] - e.NL()}); } R.S("on_edge"); break;
		case 5: ps.clear(); R.S("empty"); break;
		case 6: { const int t = r.i(0, 3); for (auto& p : ps) p.type = t; R.S("one_type"); break; }
		case 7: for (auto& p : ps) p.x[r.i(0, D - 1)] += (e.mx[0] - e.mn[0] + 10) * 100; R.S("all_outside"); break;
		case 8: for (int k = r.i(1, 3); k > 0; k--) { auto& p = ps[r.i(0, (int)ps.size() - 1)]; (r.p(0.5) ? p.p : p.n) = hostile(); } R.S("bad_pressure"); break;
		case 9: for (auto& p : ps) if (r.p(0.5)) for (int d = 0; d < D; d++) p.u[d] *= 1e6; R.S("fast"); break;
		}
	};
	for (int k = 0; k < ways; k++) spoil(s.ps);
	if (r.p(0.15)) { s.mo.kind = 3; s.mo.omega = 1; s.mo.amp[r.i(0, D - 1)] = hostile(); R.S("bad_motion"); }
	if (r.p(0.15)) { const int d = r.i(0, D - 1); e.mx[d] = e.mn[d] + e.l0 * r.in(0.001, 0.5); R.S("thin_area"); }
	if (r.p(0.05)) { for (int d = 0; d < D; d++) e.mn[d] = e.mx[d] = s.ps.empty() ? 0 : s.ps[0].x[d]; for (int d = 0; d < D; d++) if (!(std::fabs(e.mn[d]) < 1e6)) e.mn[d] = e.mx[d] = 0; R.S("empty_area"); }
	while (s.mo.base.size() < s.ps.size()) { const auto& p = s.ps[s.mo.base.size()]; s.mo.base.push_back({p.x[0], p.x[1], p.x[2]}); }
	R.ctx = gen::Describe(s);
	double h = 0; { Scene c = s; for (auto& p : c.ps) for (int d = 0; d < D; d++) if (!(std::fabs(p.u[d]) < 1e3 * s.Uref)) p.u[d] = 0; h = StepSize(c, r); }
	if (r.p(0.1)) h = r.pick<double>({1e-300, 1e-12, 1e3, 1e30}) ;
	Sim sim(s, s.eps, h, nullptr, r.p(0.8));
	int done = 0;
	for (int k = r.i(1, 4); k > 0; k--)
	{
		const bool autoDt = r.p(0.3);
		const Out out = Classify("N15", "a step", [&] { if (autoDt) sim.Step(); else sim.Step(h * r.in(0.5, 1)); });
		if (out == Out::Ok) done++;
		R.S(out == Out::Ok ? "steps" : out == Out::Crowd ? "crowding_errors" : "solver_errors");
		if (r.p(0.2))
		{
			std::vector<P> add(r.i(0, 6)); for (auto& a : add) { a.type = r.i(0, 3); for (int d = 0; d < D; d++) a.x[d] = r.in(e.mn[d], e.mx[d]); }
			if (r.p(0.5)) spoil(add);
			sim.Add(add); R.S("additions");
		}
		volatile double sink = 0; for (auto& p : sim.State()) sink = sink + p.x[0]; (void)sink;
	}
	R.S("histories"); R.S("particles", (double)sim.Size());
	if (R.cur < 4) R.Sample(R.ctx);
}
