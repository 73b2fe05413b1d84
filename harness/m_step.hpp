// N08 whole steps, N07 momentum, N09 step choice, N10 walls, N11 types and disabled particles.
#pragma once

static bool Finite(const std::vector<P>& v, double lim)
{
	for (auto& q : v)
	{
		if (q.type == DISABLED) continue;
		for (int d = 0; d < D; d++) if (!(std::fabs(q.x[d]) < lim && std::fabs(q.u[d]) < lim)) return false;
		if (!(std::fabs(q.p) < 1e200)) return false;
	}
	return true;
}

// moves some steps; returns false if the state became useless
inline bool History(Sim& sim, double h, int steps, Rng& r)
{
	for (; steps > 0; steps--) if (Try([&] { sim.Step(h * r.in(0.3, 1.0)); }) != Out::Ok) { R.S("history_errors"); break; }
	return Finite(sim.State());
}

// ---- one step against the reference composition
static bool CheckStep(const char* pid, const Scene& s, Sim& sim, const std::vector<P>& b, double t0, double h)
{
	const double tn = t0 + h;
	const Out out = Try([&] { sim.Step(h); });
	const auto a = sim.State();
	if (a.size() != b.size()) { R.V(pid, "size", "a step changed the number of particles from %zu to %zu", b.size(), a.size()); return false; }
	const double t1 = sim.Env().T();
	if (!(std::fabs(t1 - tn) <= 4e-16 * std::max(std::fabs(t0), std::fabs(tn)))) { R.V(pid, "time", "time after a step of %.17g from %.17g is %.17g", h, t0, t1); return false; }
	if (!SameBits(sim.Env().Dt(), h)) { R.V(pid, "dt", "step size reported %.17g instead of %.17g", sim.Env().Dt(), h); return false; }
	if (out == Out::Crowd) { if (!Crowded(b, s.e)) { R.V(pid, "spurious-error", "step fails for lack of room although nothing is crowded"); return false; } R.S("crowded"); return false; }
	if (out == Out::Other) { R.V(pid, "error-type", "step fails with an undocumented exception"); return false; }
	if (out == Out::Solver) { R.S("unsolved"); return false; }
	// types
	for (std::size_t i = 0; i < a.size(); i++)
	{
		const bool ok = a[i].type == b[i].type || (a[i].type == DISABLED && !Inside(b[i], s.e));
		if (!ok || (Outside(b[i], s.e) && a[i].type != DISABLED)) { R.V(pid, "type", "particle %zu of type %d at %.9g,%.9g has type %d after the step", i, b[i].type, b[i].x[0], b[i].x[1], a[i].type); return false; }
	}
	if (!Finite(a)) { R.S("nonfinite"); return false; }
	St q(b); for (std::size_t i = 0; i < a.size(); i++) q.ty[i] = a[i].type;
	// displacement relation for everything live
	for (std::size_t i = 0; i < a.size(); i++) if (a[i].type != DISABLED) for (int d = 0; d < D; d++)
	{
		const L ex = (L)b[i].x[d] + (L)h * a[i].u[d];
		if (!Close(a[i].x[d], ex, 2e-15L * (std::fabs((L)b[i].x[d]) + std::fabs(ex)) + 2e-14L * (L)h * std::fabs((L)a[i].u[d]) + 1e-14L * h * (L)s.Uref)) { R.V(pid, "kinematics", "particle %zu (type %d) axis %d: position %.17g instead of %.17Lg = old + dt x new velocity", i, a[i].type, d, a[i].x[d], ex); return false; }
		R.S("displacements");
	}
	Model m = MakeModel(s, sim);
	m.Cc = Model::Cond(q.x, q.ty, s.e.l0);
	const Field f0 = m.MakeField(q.x, q.ty);
	if (f0.degenerate || f0.ambRe || f0.ambN0) { R.S("ambiguous"); return true; }
	double cond = Model::Cond(q.x, q.ty, f0.rmin);
	St w(q);
	m.Density(f0, w.ty, w.n);
	std::vector<L> ecs(a.size(), 0), emag(a.size(), 0);
	if (ref::ECS) 
	{
		for (std::size_t i = 0; i < a.size(); i++) if (Model::hasP(w.ty[i]))
		{
			L sm; const L sp = m.Speed(f0, i, w.u, w.n, h, sm);
			const L er = (w.n[i] - m.n0) / m.n0;
			ecs[i] = std::fabs(er) * sp + std::fabs(sp) * er;
			emag[i] = 2 * (std::fabs(er) * sm + std::fabs(sp) * (f0.ntol[i] + m.n0) / m.n0);
		}
	}
	// explicit stage and walls
	L moved = 0;
	std::vector<L> umag(a.size(), 0);
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (w.ty[i] == FLUID)
		{
			L mag; const V acc = m.Accel(f0, i, q.x, q.u, q.ty, mag);
			w.u[i] = q.u[i] + (L)h * acc; w.x[i] = q.x[i] + (L)h * w.u[i];
			umag[i] = ref::norm(q.u[i]) + h * mag;
		}
		else
		{
			double x[3] = {0, 0, 0}; s.mo(i, t1, h, x);
			V nx; for (int d = 0; d < D; d++) nx[d] = x[d];
			w.u[i] = (1 / (L)h) * (nx - q.x[i]); w.x[i] = nx;
			umag[i] = ref::norm(w.u[i]);
		}
		if (w.ty[i] != DISABLED) moved = std::max(moved, ref::norm(w.x[i] - q.x[i]));
	}
	L um = 0; for (std::size_t i = 0; i < a.size(); i++) if (w.ty[i] != DISABLED) um = std::max(um, umag[i]);
	if (!(moved < 0.499L * (s.e.NL() - s.e.Re()))) { R.S("fast"); return true; }
	m.Cc = std::max(m.Cc, (L)Model::Cond(w.x, w.ty, s.e.l0));
	const Field f = m.MakeField(w.x, w.ty);
	if (f.degenerate || f.ambRe || f.ambN0) { R.S("ambiguous"); return true; }
	cond = std::max(cond, Model::Cond(w.x, w.ty, f.rmin));
	m.Density(f, w.ty, w.n);
	const double rel = Rel(cond) * 10;
	for (std::size_t i = 0; i < a.size(); i++) if (Model::hasP(w.ty[i]) || w.ty[i] == DUMMY)
	{
		const L tol = w.ty[i] == DUMMY ? 0 : rel * (f.ntol[i] + m.n0) * (1 + (L)h * um / f.rmin);
		if (!Close(a[i].n, w.n[i], tol)) { R.V(pid, "density", "density of particle %zu (type %d) after the step is %.15g instead of %.15Lg", i, a[i].type, a[i].n, w.n[i]); return false; }
	}
#ifdef PRESSURE_EXPLICIT
	for (std::size_t i = 0; i < a.size(); i++) if (Model::hasP(w.ty[i]))
	{
		const L rho = (L)s.e.rho / m.n0 * w.n[i], dr = rho - s.e.rho, ex = dr <= 0 ? 0 : (L)s.e.c * s.e.c * dr;
		if (!Close(a[i].p, ex, (L)s.e.c * s.e.c * (rel * (f.ntol[i] + m.n0) / m.n0 * (L)s.e.rho * 4))) { R.V(pid, "pressure", "pressure of particle %zu after the step is %.15g instead of %.15Lg", i, a[i].p, ex); return false; }
	}
#else
	{
		// the solution the step used must solve the system of this state
		const auto x = sim.Vec(0);
		const auto rows = m.Assemble(f, w.u, w.ty, w.n, ecs, emag, h);
		std::vector<L> x0(a.size());
		for (std::size_t i = 0; i < a.size(); i++) x0[i] = rows[i].active ? q.p[i] : 0;
		L r0 = 0, rt = 0, tol = 0; std::size_t worst = 0; L wv = -1;
		for (std::size_t i = 0; i < a.size(); i++)
		{
			L s0 = rows[i].b - rows[i].diag * x0[i], s1 = rows[i].b - rows[i].diag * x[i];
			L mg = rel * (rows[i].bMag * 4 + rows[i].diagMag * std::fabs((L)x[i]));
			for (auto& o : rows[i].off) { s0 -= o.second * x0[o.first]; s1 -= o.second * x[o.first]; mg += rel * (std::fabs(o.second) + (ref::HL ? 0 : rows[i].diagMag)) * std::fabs((L)x[o.first]); }
			r0 += s0 * s0; rt += s1 * s1; tol += mg * mg;
			if (std::fabs(s1) > wv) { wv = std::fabs(s1); worst = i; }
		}
		r0 = std::sqrt(r0); rt = std::sqrt(rt); tol = std::sqrt(tol) * 4;
		L xm = 0, dm = 0; for (std::size_t i = 0; i < a.size(); i++) { xm += (L)x[i] * x[i]; dm = std::max(dm, rows[i].diagMag); }
		tol += 1e-15L * (20 + 6 * (L)a.size()) * dm * std::sqrt(xm) * 10;
		if (!(rt <= 3 * s.eps * r0 + tol)) { R.V(pid, "pressure-equation", "the pressures of the step do not solve the equation of its state: residual %.6Lg, initial %.6Lg, eps %.3g, rounding %.3Lg, worst row %zu (type %d)", rt, r0, s.eps, tol, worst, a[worst].type); return false; }
		if (s.eps * r0 > tol && r0 > 0) R.S("tight_residuals");
		for (std::size_t i = 0; i < a.size(); i++)
		{
			L ex = q.p[i];
			if (Model::hasP(w.ty[i])) ex = (x[i] < 0 || (!ref::SPP && m.surface(w.n[i]))) ? 0 : x[i];
			else if (w.ty[i] == DISABLED) continue;
			if (!Close(a[i].p, ex, 1e-14L * std::fabs(ex))) { R.V(pid, "pressure", "pressure of particle %zu (type %d) after the step is %.15g instead of %.15Lg", i, a[i].type, a[i].p, ex); return false; }
		}
	}
#endif
	// gradient from the pressures of the step, then repulsion
	std::vector<V> x1(w.x), u1(w.u); std::vector<L> tolU(a.size(), 0), p(a.size());
	for (std::size_t i = 0; i < a.size(); i++) p[i] = a[i].p;
	bool amb = false; L maxTolX = 0;
	for (std::size_t i = 0; i < a.size(); i++) if (w.ty[i] == FLUID)
	{
		L mag; bool am; const V du = m.Grad(f, i, w.ty, w.n, p, h, mag, am, rel);
		if (am) { amb = true; R.S("ambiguous_particles"); }
		u1[i] = w.u[i] + du; x1[i] = w.x[i] + (L)h * du;
		tolU[i] = rel * (mag + umag[i]) + 2e-15L * um;
		maxTolX = std::max(maxTolX, (L)h * tolU[i]);
	}
	if (amb) return true;
	if (ref::DS)
	{
		const L dd = (L)(s.e.l0 - s.e.MaxDx());
		std::vector<V> du(a.size());
		for (std::size_t i = 0; i < a.size(); i++) if (w.ty[i] == FLUID)
		{
			// pairs that come that close only through the step itself need not be known to the search
			for (std::size_t j = 0; j < a.size(); j++) if (j != i && Model::live(w.ty[j]) && w.ty[j] != DUMMY)
				if (ref::norm(x1[j] - x1[i]) < dd * (1 + 1e-9L) && !(ref::norm(q.x[j] - q.x[i]) < (L)s.e.NL() * (1 - 1e-9L))) { R.S("jumped"); return true; }
			L mag; du[i] = m.Repulse(i, w.x, x1, w.ty, h, mag);
			tolU[i] += rel * mag * 4 + 4 * maxTolX / (h * m.n0) * (mag > 0 ? (L)f.nb[i].size() * 100 : 0);
			if (mag > 0) R.S("repelled");
		}
		for (std::size_t i = 0; i < a.size(); i++) if (w.ty[i] == FLUID) { u1[i] = u1[i] + du[i]; x1[i] = x1[i] + (L)h * du[i]; }
	}
	for (std::size_t i = 0; i < a.size(); i++) if (w.ty[i] != DISABLED) for (int d = 0; d < D; d++)
	{
		const L tu = w.ty[i] == FLUID ? tolU[i] + 1e-9L * ref::norm(u1[i] - w.u[i]) * 1e-3L : 4e-15L * (umag[i] + (std::fabs(q.x[i][d]) + std::fabs(w.x[i][d])) / h);
		if (!Close(a[i].u[d], u1[i][d], tu)) { R.V(pid, "velocity", "velocity of particle %zu (type %d) axis %d after the step is %.15g instead of %.15Lg (before %.9g, explicit %.9Lg)", i, a[i].type, d, a[i].u[d], u1[i][d], b[i].u[d], w.u[i][d]); return false; }
		if (!Close(a[i].x[d], x1[i][d], (L)h * tu + 4e-15L * (std::fabs(q.x[i][d]) + std::fabs(x1[i][d])))) { R.V(pid, "position", "position of particle %zu (type %d) axis %d after the step is %.15g instead of %.15Lg", i, a[i].type, d, a[i].x[d], x1[i][d]); return false; }
	}
	R.S("steps"); R.S("particles", (double)a.size());
	return true;
}

static void ModeStep(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 250 : 80; o.exits = r.p(0.2);
	Scene s = gen::Make(r, o);
	if (r.p(0.1)) s.mo.kind = 4;
	R.ctx = gen::Describe(s);
	double h = StepSize(s, r);
	// the caller decides: manual steps may exceed the limit of automatic ones
	if (r.p(0.15)) { s.e.maxDt = h * r.lg(0.003, 0.9); R.S("longer_than_automatic"); }
	const double t0 = r.p(0.3) ? s.Tref * r.in(0, 50) : 0;
	Sim sim(s, s.eps, h, nullptr, true, t0);
	if (s.mo.kind == 2 || s.mo.kind == 1 || s.mo.kind == 3) h = std::min(h, 0.3 * s.Tref);
	for (int k = r.i(1, 4); k > 0; k--)
	{
		const auto b = sim.State();
		if (!Finite(b)) return;
		if (!CheckStep("N08", s, sim, b, sim.Env().T(), h * r.in(0.3, 1.0))) { if (r.p(0.5)) continue; return; }
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- trajectories for comparisons of two runs
struct Traj { std::vector<std::vector<P>> st; std::vector<double> dt; std::vector<Out> out; std::vector<double> t; };
inline Traj RunTraj(Sim& sim, int steps, const std::vector<double>* dts)
{
	Traj tr;
	for (int k = 0; k < steps; k++)
	{
		const Out o = Try([&] { if (dts) sim.Step((*dts)[k]); else sim.Step(); });
		tr.out.push_back(o); tr.st.push_back(sim.State()); tr.dt.push_back(sim.Env().Dt()); tr.t.push_back(sim.Env().T());
		if (o != Out::Ok) break;
	}
	return tr;
}
inline Scene Perturb(const Scene& s, Rng& r, double size = 1e-13)
{
	Scene p = s;
	for (auto& q : p.ps) for (int d = 0; d < D; d++) { if (q.type == FLUID) { q.x[d] += s.e.l0 * size * r.in(-1, 1) + q.x[d] * 4e-16 * r.in(-1, 1); q.u[d] += s.Uref * size * r.in(-1, 1); } }
	return p;
}
struct Dev { L x = 0, u = 0, p = 0, n = 0, dt = 0; std::size_t ix = 0, iu = 0, ip = 0, in = 0; };
struct Scale { L x, u, p, n; };
inline Scale ScaleOf(const Scene& s, const std::vector<P>& a, double dt)
{
	L um = 0, pm = 0; for (auto& q : a) if (q.type != DISABLED) { for (int d = 0; d < D; d++) um = std::max(um, std::fabs((L)q.u[d])); if (q.type != DUMMY) pm = std::max(pm, std::fabs((L)q.p)); }
	Scale k; k.x = s.e.l0; k.u = std::max({um, (L)s.Uref, (L)(s.e.MaxDx() / dt)}); k.p = std::max(pm, (L)s.e.rho * k.u * k.u); k.n = 20; return k;
}
// deviation of b (mapped through id and back-transform f) from a, relative
inline Dev Deviation(const std::vector<P>& a, const std::vector<P>& b, const Scale& k, const std::vector<int>& map)
{
	Dev d;
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (map[i] < 0) continue;
		const P& q = b[map[i]];
		if (a[i].type == DISABLED && q.type == DISABLED) continue;
		auto up = [&](L& m, std::size_t& w, L v) { if (!(v <= m)) { m = v == v ? v : 1e30L; w = i; } };
		for (int e = 0; e < D; e++) { up(d.x, d.ix, std::fabs((L)a[i].x[e] - q.x[e]) / k.x); up(d.u, d.iu, std::fabs((L)a[i].u[e] - q.u[e]) / k.u); }
		up(d.p, d.ip, std::fabs((L)a[i].p - q.p) / k.p); up(d.n, d.in, std::fabs((L)a[i].n - q.n) / k.n);
		if (a[i].type != q.type) { d.x = 1e30L; d.ix = i; }
	}
	return d;
}
// a group of particles without any free surface has a pressure equation without a unique solution (constants are free,
// and it may have none): what the solver makes of it is decided by rounding
inline bool Enclosed(const EnvP& e, const std::vector<P>& st)
{
	if (ref::EXPL || st.size() > 1500) return false;
	const Model m(e); const St q(st); const Field f = m.MakeField(q.x, q.ty);
	const L lim = 0.95L * m.n0 * (ref::SPP ? 1 : (L)e.surf);
	std::vector<char> seen(st.size(), 0);
	for (std::size_t i = 0; i < st.size(); i++)
	{
		if (seen[i] || !Model::hasP(q.ty[i])) continue;
		std::vector<std::size_t> todo{i}; seen[i] = 1; bool open = false;
		while (!todo.empty())
		{
			const std::size_t k = todo.back(); todo.pop_back();
			open = open || f.nraw[k] < lim;
			for (auto& n : f.nb[k]) if (!seen[n.j] && Model::hasP(q.ty[n.j])) { seen[n.j] = 1; todo.push_back(n.j); }
		}
		if (!open) return true;
	}
	return false;
}
// compare run B with run A, using run A2 (slightly perturbed A) as a yardstick of sensitivity; false after a violation
inline bool Judge2(const char* pid, const char* key, const Scene& s, const Traj& a, const Traj& a2, const Traj& b, const std::vector<int>& map, double base = 2e-8)
{
	std::vector<int> id(map.size()); for (std::size_t i = 0; i < id.size(); i++) id[i] = (int)i;
	for (std::size_t k = 0; k < a.st.size(); k++)
	{
		if (k >= a2.st.size() || k >= b.st.size() || a.out[k] != Out::Ok || a2.out[k] != Out::Ok || b.out[k] != Out::Ok)
		{
			const bool okA = a.out[k] == Out::Ok && k < a2.out.size() && a2.out[k] == Out::Ok, okB = k < b.out.size() && b.out[k] == Out::Ok;
			R.S(okA != okB ? "one_sided_errors" : "errors");
			return true;
		}
		if (!Finite(a.st[k])) { R.S("nonfinite"); return true; }
		if (ref::GC) // almost singular corrective matrices magnify rounding without limit
		{
			const Model m(s.e); bool ill = false;
			for (int z = 0; z < 2; z++) { const St q(z ? a.st[k] : k ? a.st[k - 1] : s.ps); ill = ill || !(m.WorstCorrection(m.MakeField(q.x, q.ty), q.ty) < 1e5L); }
			if (ill) { R.S("ill_conditioned"); return true; }
		}
		if (Enclosed(s.e, k ? a.st[k - 1] : s.ps) || Enclosed(s.e, a.st[k])) { R.S("enclosed"); return true; }
		const Scale sc = ScaleOf(s, a.st[k], a.dt[k]);
		const Dev y = Deviation(a.st[k], a2.st[k], sc, id), d = Deviation(a.st[k], b.st[k], sc, map);
		const L lim = 1e-6L;
		if (y.x > lim || y.u > lim || y.p > lim || y.n > lim) { R.S("sensitive"); return true; }
		const L worst = std::max({d.x - (base + 1000 * y.x), d.u - (base * 10 + 1000 * y.u), d.p - (base * 10 + 1000 * y.p), d.n - (base + 1000 * y.n)});
		if (!(worst <= 0))
		{
			const std::size_t i = d.x > base + 1000 * y.x ? d.ix : d.u > base * 10 + 1000 * y.u ? d.iu : d.p > base * 10 + 1000 * y.p ? d.ip : d.in;
			const P& q = b.st[k][map[i]]; const P& o = a.st[k][i];
			R.V(pid, key, "step %zu particle %zu (type %d, position %.6g,%.6g): relative differences x %.3Lg u %.3Lg p %.3Lg n %.3Lg (sensitivity x %.2Lg u %.2Lg p %.2Lg n %.2Lg): u %.12g,%.12g vs %.12g,%.12g p %.12g vs %.12g n %.12g vs %.12g", k, i, o.type, o.x[0], o.x[1], d.x, d.u, d.p, d.n, y.x, y.u, y.p, y.n, o.u[0], o.u[1], q.u[0], q.u[1], o.p, q.p, o.n, q.n);
			return false;
		}
		R.Max("deviation_x", (double)d.x); R.Max("deviation_u", (double)d.u);
		R.S("compared_steps"); R.S("compared_particles", (double)a.st[k].size());
	}
	return true;
}
inline std::vector<int> Identity(std::size_t n) { std::vector<int> m(n); for (std::size_t i = 0; i < n; i++) m[i] = (int)i; return m; }
inline std::vector<double> Steps(double h, int n, Rng& r) { std::vector<double> v(n); for (auto& q : v) q = h * r.in(0.4, 1.0); return v; }

// nothing but the public state is carried from step to step: a fresh computer in the same state behaves the same
static void ModeFresh(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 300 : 90; o.exits = r.p(0.4);
	Scene s = gen::Make(r, o);
	s.eps = 1e-12;
	if (r.p(0.1)) s.mo.kind = 4;
	R.ctx = gen::Describe(s);
	const double h = StepSize(s, r);
	Sim a(s, s.eps, h);
	// history, possibly with failed steps, other step sizes and additions
	const double epsSave = s.eps; (void)epsSave;
	for (int k = r.i(1, 5); k > 0; k--)
	{
		const Out q = Try([&] { if (r.p(0.3)) a.Step(); else a.Step(h * r.in(0.2, 1)); });
		if (q != Out::Ok) R.S("history_errors");
		if (r.p(0.15)) { std::vector<P> add(r.i(1, 3)); for (auto& p : add) { p.type = FLUID; for (int d = 0; d < D; d++) { p.x[d] = r.in(s.e.mn[d], s.e.mx[d]); p.u[d] = s.Uref * r.in(-1, 1); } } a.Add(add); }
	}
	Scene s2 = s; s2.ps = a.State();
	if (!Finite(s2.ps)) return;
	const double t = a.Env().T();
	const int steps = r.i(1, 3);
	const auto dts = Steps(h, steps, r);
	const bool autoDt = r.p(0.3);
	Sim b(s2, s.eps, h, nullptr, true, t);
	Rng r2(r.next());
	Sim y(Perturb(s2, r2), s.eps, h, nullptr, true, t);
	const Traj ta = RunTraj(a, steps, autoDt ? nullptr : &dts), tb = RunTraj(b, steps, autoDt ? nullptr : &dts), ty = RunTraj(y, steps, autoDt ? nullptr : &dts);
	// one computer fails and the other does not: only the state counts
	if (ta.out[0] != tb.out[0] && ta.out[0] == ty.out[0] && tb.out[0] != Out::Ok && ta.out[0] == Out::Ok) {}
	if (!Judge2("N08", "carried-state", s2, tb, ty, ta, Identity(s2.ps.size()))) return;
	if (std::fabs(a.Env().T() - b.Env().T()) > 1e-12 * std::fabs(b.Env().T()) + 1e-9 * h && ta.out.size() == tb.out.size() && ta.out.back() == tb.out.back()) R.V("N08", "carried-time", "time differs: %.15g and %.15g", a.Env().T(), b.Env().T());
	R.S("pairs"); if (s2.count(DISABLED)) R.S("with_disabled");
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- N07
static void ModeMomentum(Rng& r)
{
	if (ref::GC || ref::CGRAV) return;
	Options o; o.fluidOnly = true; o.maxN = r.p(0.05) ? 400 : 110; o.safe = r.p(0.7); o.exits = !o.safe && r.p(0.3); o.moving = false;
	Scene s = gen::Make(r, o);
	R.ctx = gen::Describe(s);
	if (s.ps.empty()) return;
	double h = StepSize(s, r);
	if (r.p(0.1)) s.e.nu = s.e.l0 * s.e.l0 / h * r.lg(0.02, 2); // so viscous that one step reaches the neighbours
	Sim a(s, s.eps, h);
	const int steps = r.i(1, 4);
	for (int k = 0; k < steps; k++)
	{
		const auto b = a.State();
		if (!Finite(b)) return;
		const double dt = h * r.in(0.3, 1);
		const Out out = Try([&] { a.Step(dt); });
		if (out != Out::Ok) { R.S("errors"); return; }
		const auto c = a.State();
		if (!Finite(c)) { R.S("nonfinite"); return; }
		for (auto& p : c) if (p.type == WALL || p.type == DUMMY) return;
		// in builds with free-surface filling the pressure part alone is repeated with the same pressures and taken out
		std::vector<V> gp(c.size()); L gmag = 0;
		if (ref::SPP)
		{
			Scene s2 = s; s2.ps = b; s2.setBase();
			Sim t(s2, s.eps, dt);
			if (Try([&] { X::Search(*t); X::Densities(*t); X::Explicit(*t); X::Densities(*t); }) != Out::Ok) return;
			auto mid = t.State();
			for (std::size_t i = 0; i < mid.size(); i++) { mid[i].p = c[i].p; t.Poke(i, mid[i]); }
			mid = t.State();
			X::Gradient(*t);
			const auto e = t.State();
			for (std::size_t i = 0; i < e.size(); i++) for (int d = 0; d < D; d++) gp[i][d] = (L)e[i].u[d] - mid[i].u[d];
		}
		L scale = 0; std::size_t live = 0;
		V m0, m1;
		for (std::size_t i = 0; i < c.size(); i++)
		{
			if (c[i].type == DISABLED) continue;
			live++;
			for (int d = 0; d < D; d++) { m0[d] += b[i].u[d] + gp[i][d]; m1[d] += c[i].u[d]; scale += std::fabs((L)b[i].u[d]) + std::fabs((L)c[i].u[d]) + std::fabs(gp[i][d]); }
			gmag = std::max(gmag, ref::norm(gp[i]));
		}
		m0[D - 1] -= (L)live * s.e.g * dt;
		// rounding of the pair terms
		St q(c); Model m = MakeModel(s, a);
		const Field f = m.MakeField(q.x, q.ty);
		const St q0(b); const Field fb = m.MakeField(q0.x, q.ty);
		if (f.rmin < 0.02L * s.e.l0 || fb.rmin < 0.02L * s.e.l0) { R.S("too_close"); return; }
		L pairU = 0;
		for (std::size_t i = 0; i < c.size(); i++)
		{
			for (auto& n : fb.nb[i]) pairU += dt * s.e.nu * std::fabs((L)(m.Lap(n.r))) * (ref::norm(q0.u[i]) + ref::norm(q0.u[n.j])) + (L)dt / s.e.rho * D / m.n0 * (std::fabs((L)c[i].p) + std::fabs((L)c[n.j].p)) * m.Re / n.r / n.r;
			pairU += (L)s.e.l0 / dt;
		}
		const double rel = Rel(Model::Cond(q.x, q.ty, std::min(f.rmin, fb.rmin))) * 10;
		for (int d = 0; d < D; d++) if (!Close(m1[d], m0[d], rel * (scale + pairU) + live * 1e-14L * s.e.g * dt)) { R.V("N07", ref::SPP ? "not-conserved-without-pressure" : "not-conserved", "axis %d: total velocity of %zu fluid particles after the step is %.12Lg instead of %.12Lg (step %d, allowance %.3Lg)", d, live, m1[d], m0[d], k, rel * (scale + pairU)); return; }
		R.S("steps"); R.S("particles", (double)live); if (live != c.size()) R.S("with_disabled");
		bool rep = false; for (auto& v : f.nb) for (auto& n : v) rep = rep || n.r < s.e.l0 - s.e.MaxDx();
		if (rep) R.S("close_pairs");
		L pm = 0; for (auto& p : c) pm = std::max(pm, (L)p.p); if (pm > 0) R.S("pressurised");
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- N09
static void ModeDt(Rng& r)
{
	Options o; o.maxN = r.p(0.01) ? 2500 : 40; o.exits = r.p(0.2);
	Scene s = gen::Make(r, o);
	auto& e = s.e;
	if (r.p(0.1)) s.ps.clear();
	e.maxDt = s.Tref * r.lg(1e-3, 1e3);
	if (r.p(0.3)) e.maxDt = r.lg(1e-6, 10);
	if (ref::EXPL && r.p(0.5)) e.c = s.Uref * r.lg(0.1, 100);
	const double big = r.p(0.3) ? r.lg(1e-12, 1e12) : 1;
	for (auto& p : s.ps)
	{
		if (r.p(0.1)) for (auto& v : p.u) v = 0;
		if (big != 1) for (auto& v : p.u) v *= big;
		if (p.type == DISABLED && r.p(0.7)) { for (auto& v : p.u) v = s.Uref * r.pick<double>({1e3, 1e6, 1e50, -1e8}); if (r.p(0.3)) p.u[r.i(0, D - 1)] = r.pick<double>({INFINITY, NAN}); }
	}
	if (r.p(0.1)) for (auto& p : s.ps) for (auto& v : p.u) v = 0;
	if (!s.ps.empty() && r.p(0.4)) { auto& p = s.ps[r.i(0, (int)s.ps.size() - 1)]; const int d = r.i(0, D - 1); p.u[d] = (r.p(0.5) ? 1 : -1) * s.Uref * r.lg(1, 100); if (r.p(0.3)) p.type = r.i(0, 3); }
	if (r.p(0.2)) for (auto& p : s.ps) if (r.p(0.5)) p.type = DISABLED;
	s.setBase();
	R.ctx = gen::Describe(s) + " maxDt=" + G(e.maxDt);
	Sim sim(s, s.eps, 0);
	const bool manual = r.p(0.4);
	for (int k = r.i(1, 3); k > 0; k--)
	{
		// a step of a chosen length, also longer or far shorter than the automatic one, must not leave a trace in the next automatic one
		if (manual && r.p(0.7))
		{
			const L g = ref::EXPL ? (L)e.courant * e.l0 / e.c : e.g > 0 ? std::sqrt(2 * (L)e.courant * e.l0 / e.g) : INFINITY;
			Try([&] { sim.Step((double)std::min((L)e.maxDt, g) * (r.p(0.5) ? r.in(1, 4) : r.lg(1e-3, 1))); });
			R.S("manual_before");
		}
		const auto b = sim.State();
		const double t0 = sim.Env().T();
		const Out out = Try([&] { sim.Step(); });
		const double dt = sim.Env().Dt(), t1 = sim.Env().T();
		L v = 0, vin = 0; bool fin = true; std::size_t live = 0;
		for (auto& p : b) if (p.type != DISABLED)
		{
			L q = 0; for (int d = 0; d < D; d++) { q += (L)p.u[d] * p.u[d]; fin = fin && std::fabs(p.u[d]) < 1e100; }
			v = std::max(v, std::sqrt(q)); if (!Outside(p, e)) vin = std::max(vin, std::sqrt(q)); live++;
		}
		if (!fin) { R.S("nonfinite"); return; }
		const L lim1 = e.maxDt, lim2 = ref::EXPL ? (L)e.courant * e.l0 / e.c : e.g > 0 ? std::sqrt(2 * (L)e.courant * e.l0 / e.g) : INFINITY;
		const L cap = std::min(lim1, lim2);
		auto best = [&](L u) { return u > 1e-290L ? std::min(cap, (L)e.courant * e.l0 / u) : cap; };
		R.S(v == 0 ? "at_rest" : best(v) < cap ? "limited_by_speed" : lim1 < lim2 ? "limited_by_maximum" : "limited_by_gravity_or_sound");
		if (live == 0) R.S("nothing_live");
		if (live != b.size()) R.S("with_disabled");
		if (!(dt > 0)) { R.V("N09", "not-positive", "step %.9g is not positive (fastest %.9Lg)", dt, v); return; }
		if (!(dt <= lim1 * (1 + 1e-13L))) { R.V("N09", "maximum", "step %.15g exceeds the configured maximum %.15Lg", dt, lim1); return; }
		if (!(dt <= lim2 * (1 + 1e-13L))) { R.V("N09", "gravity-or-sound", "step %.15g exceeds the gravity or sound limit %.15Lg", dt, lim2); return; }
		if (!(vin * dt <= (L)e.courant * e.l0 * (1 + 1e-13L))) { R.V("N09", "courant", "step %.15g lets the fastest particle (%.9Lg) move %.9Lg, allowed %.9g", dt, vin, vin * dt, e.courant * e.l0); return; }
		if (!(dt >= best(v) * (1 - 1e-12L))) { R.V("N09", "not-largest", "step %.15g is smaller than the largest allowed %.15Lg (fastest live %.9Lg, %zu live of %zu)", dt, best(v), v, live, b.size()); return; }
		if (!(std::fabs(t1 - (t0 + dt)) <= 4e-16 * (std::fabs(t0) + dt))) { R.V("N09", "time", "time advanced from %.15g to %.15g with step %.15g", t0, t1, dt); return; }
		if (out == Out::Other) { R.V("N09", "error", "automatic step fails with an undocumented exception"); return; }
		R.S("steps");
		if (out != Out::Ok) R.S("errors");
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- N10
static void ModeWalls(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 500 : 100; o.exits = r.p(0.15);
	Scene s = gen::Make(r, o);
	if (!s.count(WALL) && !s.count(DUMMY)) for (auto& p : s.ps) if (r.p(0.3)) p.type = r.i(1, 2);
	s.setBase();
	if (r.p(0.85)) { s.mo.kind = r.i(1, 4); s.mo.omega = r.in(0.2, 2) / s.Tref; for (auto& a : s.mo.amp) a = r.in(-0.2, 0.2) * s.e.l0; }
	SetThreads(r.i(1, 4));
	R.ctx = gen::Describe(s);
	const double h = std::min(StepSize(s, r), 0.5 * s.Tref), t0 = r.p(0.4) ? s.Tref * r.in(-20, 50) : 0;
	MoveLog log;
	Sim sim(s, s.eps, h, &log, true, t0);
	for (int k = r.i(1, 5); k > 0; k--)
	{
		const auto b = sim.State();
		if (!Finite(b)) return;
		log.Reset(b.size());
		const Out out = Try([&] { if (r.p(0.3)) sim.Step(); else sim.Step(h * r.in(0.3, 1)); });
		const auto a = sim.State();
		const double dt = sim.Env().Dt(), t = sim.Env().T();
		if (out == Out::Crowd) { R.S("crowded"); return; }
		if (log.pre != 1) { R.V("N10", "preparation", "preparation callback called %ld times in one step", (long)log.pre); return; }
		if (log.early) { R.V("N10", "order", "%ld positions requested before the preparation", (long)log.early); return; }
		if (log.preT != t || log.preDt != dt) { R.V("N10", "preparation-arguments", "preparation got time %.17g, dt %.17g but the step has %.17g, %.17g", log.preT, log.preDt, t, dt); return; }
		if (log.badArgs) { R.V("N10", "arguments", "%ld positions requested with other time or dt than the preparation (%.17g, %.17g)", (long)log.badArgs, t, dt); return; }
		if (log.badIndex) { R.V("N10", "index", "%ld positions requested for particles that do not exist", (long)log.badIndex); return; }
		for (std::size_t i = 0; i < a.size(); i++)
		{
			if (a[i].type == WALL || a[i].type == DUMMY)
			{
				double x[3] = {0, 0, 0}; s.mo(i, t, dt, x);
				if (log.calls[i] < 1) { R.V("N10", "not-asked", "position of wall or dummy %zu not requested", i); return; }
				for (int d = 0; d < D; d++)
				{
					if (!SameBits(a[i].x[d], x[d])) { R.V("N10", "position", "particle %zu (type %d) axis %d at %.17g instead of the prescribed %.17g", i, a[i].type, d, a[i].x[d], x[d]); return; }
					const L u = ((L)x[d] - b[i].x[d]) / dt;
					if (!Close(a[i].u[d], u, 4e-15L * std::fabs(u) + 4e-16L * (std::fabs((L)x[d]) + std::fabs((L)b[i].x[d])) / dt)) { R.V("N10", "velocity", "particle %zu (type %d) axis %d has velocity %.15g instead of %.15Lg", i, a[i].type, d, a[i].u[d], u); return; }
				}
				R.S("walls");
			}
			else if (a[i].type == FLUID)
			{
				if (out == Out::Ok) for (int d = 0; d < D; d++) { const L ex = (L)b[i].x[d] + (L)dt * a[i].u[d]; if (!Close(a[i].x[d], ex, 2e-15L * (std::fabs((L)b[i].x[d]) + std::fabs(ex)) + 2e-14L * dt * (std::fabs((L)a[i].u[d]) + s.Uref))) { R.V("N10", "fluid-moved", "fluid particle %zu axis %d moved to %.17g instead of %.17Lg", i, d, a[i].x[d], ex); return; } }
				R.S("fluids");
			}
		}
		R.S("steps"); if (out != Out::Ok) { R.S("unsolved"); return; }
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- N11
static void ModeTypes(Rng& r)
{
	Options o; o.maxN = 90; o.exits = r.p(0.8);
	Scene s = gen::Make(r, o);
	if (r.p(0.3)) for (auto& p : s.ps) for (int d = 0; d < D; d++) p.u[d] += s.Uref * r.in(-3, 3);
	R.ctx = gen::Describe(s);
	Sim sim(s, s.eps, 0);
	auto b = sim.State();
	const double h = StepSize(s, r);
	std::size_t gone = 0;
	for (int k = r.i(3, 25); k > 0; k--)
	{
		if (!Finite(b)) { R.S("nonfinite"); break; }
		const Out out = Try([&] { if (r.p(0.5)) sim.Step(); else sim.Step(h * r.in(0.3, 1.5)); });
		const auto a = sim.State();
		const double dt = sim.Env().Dt();
		if (a.size() != b.size()) { R.V("N11", "count", "a step changed the number of particles from %zu to %zu", b.size(), a.size()); return; }
		for (std::size_t i = 0; i < a.size(); i++)
		{
			if (b[i].type == DISABLED) { if (a[i].type != DISABLED) { R.V("N11", "resurrected", "disabled particle %zu became type %d", i, a[i].type); return; } R.S("disabled_checked"); continue; }
			if (a[i].type == DISABLED)
			{
				if (Inside(b[i], s.e)) { R.V("N11", "lost", "particle %zu (type %d) inside the area at %.17g,%.17g was disabled", i, b[i].type, b[i].x[0], b[i].x[1]); return; }
				gone++; continue;
			}
			if (a[i].type != b[i].type) { R.V("N11", "type", "particle %zu changed from type %d to %d", i, b[i].type, a[i].type); return; }
			if (out != Out::Crowd && Outside(b[i], s.e)) { R.V("N11", "kept", "particle %zu outside the area at %.17g,%.17g is still live", i, b[i].x[0], b[i].x[1]); return; }
			if (out == Out::Ok) for (int d = 0; d < D; d++)
			{
				const L ex = (L)b[i].x[d] + (L)dt * a[i].u[d];
				if (std::isfinite(a[i].x[d]) && !Close(a[i].x[d], ex, 1e-9L * s.e.l0 + 1e-12L * (std::fabs((L)b[i].x[d]) + std::fabs(ex)) + 1e-9L * std::fabs(ex - b[i].x[d]))) { R.V("N11", "swapped", "particle %zu (type %d) jumped to %.12g,%.12g from %.12g,%.12g", i, a[i].type, a[i].x[0], a[i].x[1], b[i].x[0], b[i].x[1]); return; }
			}
			if (a[i].type == DUMMY && !SameBits(a[i].n, b[i].n)) { R.V("N11", "swapped", "stored density of dummy %zu changed", i); return; }
		}
		R.S("steps"); R.S("particles", (double)a.size());
		if (out == Out::Crowd) { if (!Crowded(b, s.e)) R.V("N11", "error", "a step fails although nothing is crowded"); break; }
		if (r.p(0.08)) // explicit addition keeps what was there
		{
			std::vector<P> add(r.i(0, 3)); for (auto& p : add) { p.type = r.i(0, 3); for (int d = 0; d < D; d++) p.x[d] = r.in(s.e.mn[d], s.e.mx[d]); }
			for (auto& p : add) s.mo.base.push_back({p.x[0], p.x[1], p.x[2]});
			sim.Add(add);
			const auto c = sim.State();
			if (c.size() != a.size() + add.size()) { R.V("N11", "count", "adding %zu particles to %zu gives %zu", add.size(), a.size(), c.size()); return; }
			for (std::size_t i = 0; i < a.size(); i++) if (c[i].type != a[i].type) { R.V("N11", "type", "adding particles changed the type of particle %zu", i); return; }
			R.S("additions");
			break; // the motion function knows only the first particles
		}
		b = sim.State();
	}
	R.S("left_the_area", (double)gone);
	if (R.cur < 2) R.Sample(R.ctx + " left: " + std::to_string(gone));
}

static void ModeDisabledTwin(Rng& r)
{
	Options o; o.maxN = 80; o.exits = r.p(0.5); o.moving = false;
	Scene s = gen::Make(r, o);
	if (s.ps.empty()) return;
	s.eps = 1e-12;
	const double h = StepSize(s, r);
	std::vector<P> now = s.ps;
	double t = 0;
	std::unique_ptr<Sim> a;
	if (r.p(0.5))
	{
		// particles leave by themselves
		a.reset(new Sim(s, s.eps, h));
		for (int k = r.i(1, 12); k > 0; k--) if (Try([&] { a->Step(); }) != Out::Ok) break;
		now = a->State(); t = a->Env().T();
	}
	else
	{
		// disabled input particles at, near and far from the others
		std::vector<P> add(r.i(1, 12));
		for (auto& p : add)
		{
			p.type = DISABLED; const P& q = s.ps[r.i(0, (int)s.ps.size() - 1)];
			const int w = r.i(0, 5);
			for (int d = 0; d < D; d++) { p.x[d] = w == 0 ? q.x[d] : w == 1 ? s.e.mn[d] - r.in(0, 100) * s.e.l0 : w == 2 && r.p(0.4) ? 1e30 : q.x[d] + s.e.l0 * r.in(-1.5, 1.5); p.u[d] = s.Uref * (r.p(0.3) ? 1e4 : 1) * r.in(-2, 2); }
			p.p = s.e.rho * s.Uref * s.Uref * r.in(-2, 5) * (r.p(0.2) ? 1e3 : 1); p.n = r.in(0, 30);
		}
		std::vector<P> mix; std::size_t k = 0;
		for (auto& p : s.ps) { while (k < add.size() && r.p(0.3)) mix.push_back(add[k++]); mix.push_back(p); }
		while (k < add.size()) mix.push_back(add[k++]);
		s.ps = mix; s.setBase();
		a.reset(new Sim(s, s.eps, h));
		now = s.ps;
	}
	R.ctx = gen::Describe(s);
	if (!Finite(now)) return;
	Scene s2 = s; s2.ps.clear(); s2.mo.base.clear();
	std::vector<int> map(now.size(), -1);
	for (std::size_t i = 0; i < now.size(); i++) if (now[i].type != DISABLED) { map[i] = (int)s2.ps.size(); s2.ps.push_back(now[i]); s2.mo.base.push_back(s.mo.base[i]); }
	if (s2.ps.size() == now.size() || s2.ps.empty()) return;
	const int steps = r.i(1, 3);
	const auto dts = Steps(h, steps, r);
	const bool autoDt = r.p(0.6);
	Sim b(s2, s.eps, h, nullptr, true, t);
	Rng r2(r.next()); Scene s3 = s2;
	Sim y(Perturb(s3, r2), s.eps, h, nullptr, true, t);
	const Traj ta = RunTraj(*a, steps, autoDt ? nullptr : &dts), tb = RunTraj(b, steps, autoDt ? nullptr : &dts), ty = RunTraj(y, steps, autoDt ? nullptr : &dts);
	// reference: the run without the disabled ones
	std::vector<int> back(s2.ps.size()); for (std::size_t i = 0; i < map.size(); i++) if (map[i] >= 0) back[map[i]] = (int)i;
	for (std::size_t k = 0; k < ta.dt.size() && k < tb.dt.size(); k++) if (autoDt && k == 0 && !(std::fabs(ta.dt[k] - tb.dt[k]) <= 1e-13 * tb.dt[k])) { R.V("N11", "step-choice", "%zu disabled particles change the chosen step from %.15g to %.15g", now.size() - s2.ps.size(), tb.dt[k], ta.dt[k]); return; }
	if (tb.out[0] == Out::Ok && ty.out[0] == Out::Ok && ta.out[0] != Out::Ok && (ta.out[0] == Out::Crowd || s2.ps.size() > 30)) { R.V("N11", "disabled-error", "disabled particles make the step fail"); return; }
	if (!Judge2("N11", "disabled-influence", s2, tb, ty, ta, back)) return;
	R.S("twins"); R.S("disabled", (double)(now.size() - s2.ps.size()));
	if (R.cur < 2) R.Sample(R.ctx);
}
