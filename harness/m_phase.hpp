// N03 explicit stage, N04 assembly, N06 implicit stage, N24 repulsion, N20 inversion.
#pragma once
static bool Finite(const std::vector<P>& v, double lim = 1e100);

// a computer with some history, ready for manual phases; returns false if nothing can be checked
struct Prepared { std::unique_ptr<Sim> sim; double dt = 0; std::vector<P> st; };
static bool Prepare(const Scene& s, Rng& r, Prepared& p, int maxSteps = 3)
{
	p.dt = StepSize(s, r);
	p.sim.reset(new Sim(s, s.eps, p.dt));
	int k = r.p(0.4) ? 0 : r.i(1, maxSteps);
	double h = p.dt;
	for (; k > 0; k--) { h = p.dt * r.in(0.3, 1.0); if (Try([&] { p.sim->Step(h); }) != Out::Ok) { R.S("history_errors"); break; } }
	p.dt = p.sim->Env().Dt();
	p.st = p.sim->State();
	for (auto& q : p.st) for (int d = 0; d < D; d++) if (!(std::fabs(q.x[d]) < 1e200 && std::fabs(q.u[d]) < 1e200)) return false;
	return true;
}

static void ModeExplicit(Rng& r)
{
	Options o; o.maxN = r.p(0.04) ? 500 : 110; o.exits = r.p(0.15);
	Scene s = gen::Make(r, o);
	R.ctx = gen::Describe(s);
	Prepared p;
	if (!Prepare(s, r, p)) return;
	Sim& sim = *p.sim;
	if (Try([&] { X::Search(*sim); X::Densities(*sim); }) != Out::Ok) { R.S("skipped"); return; }
	const auto b = sim.State();
	X::Explicit(*sim);
	const auto a = sim.State();
	const St q(b);
	Model m = MakeModel(s, sim);
	m.Cc = Model::Cond(q.x, q.ty, s.e.l0);
	const Field f = m.MakeField(q.x, q.ty);
	if (f.degenerate || (ref::HL && f.ambRe)) { R.S("ambiguous"); return; }
	const double rel = Rel(Model::Cond(q.x, q.ty, f.rmin));
	const L um = Vmax(q);
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (!SameBits(a[i].p, b[i].p)) { R.V("N03", "pressure-changed", "explicit stage changed the pressure of particle %zu (type %d)", i, b[i].type); return; }
		if (!SameBits(a[i].n, b[i].n)) { R.V("N03", "density-changed", "explicit stage changed the density of particle %zu (type %d)", i, b[i].type); return; }
		if (a[i].type != b[i].type) { R.V("N03", "type-changed", "explicit stage changed the type of particle %zu", i); return; }
		if (b[i].type != FLUID) continue;
		L mag; const V acc = m.Accel(f, i, q.x, q.u, q.ty, mag);
		for (int d = 0; d < D; d++)
		{
			const L eu = q.u[i][d] + (L)p.dt * acc[d];
			const L tu = rel * ((L)p.dt * mag + std::fabs(q.u[i][d])) + 4e-16L * um;
			if (!Close(a[i].u[d], eu, tu)) { R.V("N03", "velocity", "particle %zu axis %d: velocity %.15g instead of %.15Lg (before %.9g, dt %.6g, %zu neighbours)", i, d, a[i].u[d], eu, b[i].u[d], p.dt, f.nb[i].size()); return; }
			const L ex = q.x[i][d] + (L)p.dt * a[i].u[d];
			if (!Close(a[i].x[d], ex, 1e-15L * (std::fabs(q.x[i][d]) + std::fabs(ex)) + 1e-14L * (L)p.dt * std::fabs(a[i].u[d]))) { R.V("N03", "position", "particle %zu axis %d: position %.15g instead of %.15Lg", i, d, a[i].x[d], ex); return; }
		}
		R.S("particles"); R.S("interactions", (double)f.nb[i].size());
	}
	R.S("stages");
	if (R.cur < 2) R.Sample(R.ctx);
}

// physical monitors of the explicit stage: uniform motion, reciprocity, dissipation
static void ModeExplicitPhys(Rng& r)
{
	Options o; o.fluidOnly = true; o.noDisabled = true; o.maxN = 130; o.zeroG = r.p(0.5); o.safe = true; o.moving = false;
	Scene s = gen::Make(r, o);
	if (ref::CGRAV) s.e.g = 0;
	const bool uniform = r.p(0.3);
	s.e.nu = r.lg(1e-4, 0.5) * s.e.l0 * s.e.l0 / s.Tref;
	if (uniform) for (auto& p : s.ps) for (int d = 0; d < D; d++) p.u[d] = s.ps[0].u[d];
	R.ctx = gen::Describe(s);
	Model m0(s.e);
	const St q0(s.ps);
	m0.Cc = Model::Cond(q0.x, q0.ty, s.e.l0);
	const Field f = m0.MakeField(q0.x, q0.ty);
	if (f.degenerate || f.ambRe) { R.S("ambiguous"); return; }
	// small enough step: dt * sum of coefficients <= 1
	L deg = 0; for (std::size_t i = 0; i < s.ps.size(); i++) { L c = 0; for (auto& q : f.nb[i]) c += s.e.nu * m0.Lap(q.r); deg = std::max(deg, c); }
	double dt = StepSize(s, r);
	if (deg > 0) dt = std::min(dt, (double)(0.95 / deg));
	Sim sim(s, s.eps, dt);
	if (Try([&] { X::Search(*sim); X::Densities(*sim); }) != Out::Ok) { R.S("skipped"); return; }
	const auto b = sim.State();
	X::Explicit(*sim);
	const auto a = sim.State();
	const std::size_t n = a.size();
	if (!n) return;
	const double rel = Rel(Model::Cond(q0.x, q0.ty, f.rmin));
	L um = Vmax(q0), amax = std::fabs((L)s.e.g) + deg * 2 * um;
	for (int d = 0; d < D; d++)
	{
		L mb = 0, ma = 0;
		for (std::size_t i = 0; i < n; i++) { mb += b[i].u[d]; ma += a[i].u[d]; }
		const L ex = mb + (d == D - 1 ? -(L)n * s.e.g * dt : 0);
		if (!Close(ma, ex, rel * n * (um + dt * amax))) { R.V("N03", "reciprocity", "axis %d: total velocity %.15Lg instead of %.15Lg for %zu fluid particles", d, ma, ex, n); return; }
	}
	if (uniform)
	{
		for (std::size_t i = 0; i < n; i++) for (int d = 0; d < D; d++)
		{
			const L ex = (L)b[i].u[d] - (d == D - 1 ? (L)s.e.g * dt : 0);
			if (!Close(a[i].u[d], ex, 1e-14L * (um + dt * s.e.g))) { R.V("N03", "uniform", "uniform motion: velocity of particle %zu axis %d changed to %.15g instead of %.15Lg", i, d, a[i].u[d], ex); return; }
		}
		R.S("uniform");
	}
	// relative kinetic energy
	auto ke = [&](const std::vector<P>& v) { L k = 0; for (int d = 0; d < D; d++) { L c = 0; for (auto& p : v) c += p.u[d]; c /= n; for (auto& p : v) k += (p.u[d] - c) * (p.u[d] - c); } return k; };
	const L kb = ke(b), ka = ke(a);
	if (!(ka <= kb * (1 + 1e-9L) + 1e-12L * n * (um + dt * amax) * (um + dt * amax))) { R.V("N03", "dissipation", "relative kinetic energy rises from %.12Lg to %.12Lg", kb, ka); return; }
	if (ka < kb * 0.999L) R.S("dissipated");
	R.S("stages"); R.S("particles", (double)n);
	if (R.cur < 2) R.Sample(R.ctx + " ke " + G((double)kb) + " -> " + G((double)ka));
}

#ifndef PRESSURE_EXPLICIT
// compare A, b of the computer with the model; returns false after a violation
static bool CheckSystem(const char* pid, Sim& sim, const Scene& s, const St& q, const std::vector<L>& ecs, const std::vector<L>& ecsMag, double dt, const std::vector<double>* x0, const char* what)
{
	Model m = MakeModel(s, sim);
	m.Cc = Model::Cond(q.x, q.ty, s.e.l0);
	const Field f = m.MakeField(q.x, q.ty);
	if (f.degenerate || f.ambRe || f.ambN0) { R.S("ambiguous"); return true; }
	const double rel = Rel(Model::Cond(q.x, q.ty, f.rmin)) * 4;
	const auto rows = m.Assemble(f, q.u, q.ty, q.n, ecs, ecsMag, dt);
	const std::size_t n = q.ty.size();
	const auto A = sim.DenseA();
	const auto b = sim.Vec(1);
	if (b.size() != n) { R.V(pid, "size", "%s: right-hand side has %zu entries for %zu particles", what, b.size(), n); return false; }
	for (std::size_t i = 0; i < n; i++)
	{
		std::vector<L> ex(n, 0), tol(n, 0);
		ex[i] = rows[i].diag; tol[i] = rel * rows[i].diagMag;
		for (auto& o : rows[i].off) { ex[o.first] = o.second; tol[o.first] = rel * std::fabs(o.second) + (ref::HL ? 0 : rel * rows[i].diagMag); }
		for (std::size_t j = 0; j < n; j++)
		{
			if (!Close(A[i][j], ex[j], tol[j])) { R.V(pid, i == j ? "diagonal" : "off-diagonal", "%s: A(%zu,%zu)=%.15g instead of %.15Lg (types %d,%d, %zu neighbours, n=%.9Lg, n0=%.9Lg)", what, i, j, A[i][j], ex[j], q.ty[i], q.ty[j], f.nb[i].size(), f.nraw[i], m.n0); return false; }
		}
		if (!Close(b[i], rows[i].b, rel * rows[i].bMag * 4)) { R.V(pid, "rhs", "%s: b(%zu)=%.15g instead of %.15Lg (type %d)", what, i, b[i], rows[i].b, q.ty[i]); return false; }
		R.S("rows"); if (rows[i].active) R.S("active_rows"); if (rows[i].b != 0) R.S("nonzero_rhs"); if (f.spp[i].on) R.S("filled_rows");
		R.S("entries", (double)rows[i].off.size());
	}
	// symmetry on the particles that carry pressure
	for (std::size_t i = 0; i < n; i++) if (rows[i].active) for (std::size_t j = i + 1; j < n; j++) if (rows[j].active)
		if (!Close(A[i][j], A[j][i], 1e-13L * std::fabs(A[i][j]) + 1e-300L)) { R.V(pid, "asymmetric", "%s: A(%zu,%zu)=%.15g but A(%zu,%zu)=%.15g", what, i, j, A[i][j], j, i, A[j][i]); return false; }
	if (x0)
		for (std::size_t i = 0; i < n; i++)
		{
			const L ex = rows[i].active ? q.p[i] : 0;
			if (!Close((*x0)[i], ex, 0)) { R.V(pid, "guess", "%s: initial guess x(%zu)=%.15g instead of %.15Lg", what, i, (*x0)[i], ex); return false; }
		}
	R.S("systems");
	return true;
}

static void ErrorCorrection(const Model& m, const Field& f, const St& q, double dt, std::vector<L>& ecs, std::vector<L>& mag)
{
	const std::size_t n = q.ty.size();
	ecs.assign(n, 0); mag.assign(n, 0);
	for (std::size_t i = 0; i < n; i++) if (Model::hasP(q.ty[i]))
	{
		L sm; const L sp = m.Speed(f, i, q.u, q.n, dt, sm);
		const L er = (q.n[i] - m.n0) / m.n0;
		ecs[i] = std::fabs(er) * sp + std::fabs(sp) * er;
		mag[i] = 2 * (std::fabs(er) * sm + std::fabs(sp) * (f.ntol[i] + m.n0) / m.n0 * 1.0L);
	}
}

static void ModeAssembly(Rng& r)
{
	Options o; o.maxN = 80; o.exits = r.p(0.2); o.padMax = 1030; o.pad = 0.004;
	Scene s = gen::Make(r, o);
	R.ctx = gen::Describe(s);
	Prepared p;
	// (1) manual assembly on a computer with history
	if (r.p(0.5))
	{
		const bool history = r.p(0.5);
		p.dt = StepSize(s, r);
		p.sim.reset(new Sim(s, s.eps, p.dt));
		if (history)
		{
			// history of other systems (manual, so that the error correction stays zero): other positions, other sizes
			for (int k = r.i(1, 2); k > 0; k--)
			{
				auto st = p.sim->State();
				for (std::size_t i = 0; i < st.size(); i++) { auto v = st[i]; for (int d = 0; d < D; d++) v.x[d] += s.e.l0 * r.in(-0.3, 0.3) * (r.p(0.1) ? 6 : 1); p.sim->Poke(i, v); }
				if (Try([&] { X::Search(**p.sim); X::Densities(**p.sim); X::SetPpe(**p.sim); }) != Out::Ok) return;
				auto now = p.sim->State();
				for (std::size_t i = 0; i < st.size(); i++) p.sim->Poke(i, st[i]);
				(void)now;
			}
			if (r.p(0.4))
			{
				std::vector<P> add(r.i(1, 6)); double base[3]; for (int d = 0; d < D; d++) base[d] = s.e.mn[d];
				for (auto& a : add) { a.type = r.i(0, 2); for (int d = 0; d < D; d++) { a.x[d] = r.in(s.e.mn[d], s.e.mx[d]); a.u[d] = r.in(-1, 1) * s.Uref; } }
				p.sim->Add(add);
			}
		}
		if (Try([&] { X::Search(**p.sim); X::Densities(**p.sim); X::SetPpe(**p.sim); }) != Out::Ok) { R.S("skipped"); return; }
		const St q(p.sim->State());
		const std::vector<L> zero(q.ty.size(), 0);
		const auto x0 = p.sim->Vec(0);
		if (q.ty.empty()) return;
		if (!CheckSystem("N04", *p.sim, s, q, zero, zero, p.dt, &x0, "manual")) return;
		if (R.cur < 4) R.Sample(R.ctx);
		return;
	}
	// (2) the system a whole step used: reproduce the state before assembly with the real earlier stages
	{
		if (s.ps.empty()) return;
		double h = StepSize(s, r);
		Sim a(s, s.eps, h);
		double t = 0;
		for (int k = r.i(0, 3); k > 0; k--) { const double g = h * r.in(0.3, 1); if (Try([&] { a.Step(g); }) != Out::Ok) { R.S("history_errors"); break; } }
		t = a.Env().T(); (void)t;
		Scene s2 = s; s2.ps = a.State(); s2.t0 = 0;
		for (auto& q : s2.ps) for (int d = 0; d < D; d++) if (!(std::fabs(q.x[d]) < 1e100 && std::fabs(q.u[d]) < 1e100)) return;
		// walls: same motion function; the twin must be at the same time, so use static walls at the current place
		if (s2.mo.kind != 0)
		{
			s2.mo.kind = 0; s2.setBase();
			if (r.p(0.5)) { s2.mo.kind = 3; s2.mo.omega = 1; for (int d = 0; d < D; d++) s2.mo.amp[d] = r.in(-0.1, 0.1) * s.e.l0 / h; }
			Sim a2(s2, s.eps, h);
			Sim b2(s2, s.eps, h);
			(void)a2; (void)b2;
		}
		else s2.setBase();
		const bool cont = s.mo.kind == 0 && s2.mo.base.size() == s.mo.base.size();
		std::unique_ptr<Sim> fresh;
		Sim* run = &a;
		if (!cont) { fresh.reset(new Sim(s2, s.eps, h)); run = fresh.get(); }
		if (cont) s2.mo = s.mo;
		// the reproduction starts at time 0: a moving wall kind 3 in "fresh" starts at 0 too
		struct Pre { const gen::MotionP* m; } pre{&s2.mo}; (void)pre;
		Sim b(s2, s.eps, h);
		std::vector<L> ecs, emag;
		St q1(s2.ps);
		// stage 1 by the real code at time t+h: emulate by an environment whose time is already advanced
		if (Try([&] { X::Search(*b); X::Densities(*b); }) != Out::Ok) { R.S("skipped"); return; }
		q1 = St(b.State());
		Model m = MakeModel(s2, b);
		m.Cc = Model::Cond(q1.x, q1.ty, s.e.l0);
		const Field f1 = m.MakeField(q1.x, q1.ty);
		if (f1.degenerate || f1.ambRe || f1.ambN0) { R.S("ambiguous"); return; }
		ErrorCorrection(m, f1, q1, h, ecs, emag);
		if (s2.mo.kind == 3) { // b is at time 0 in the explicit stage: place the walls itself afterwards
		}
		X::Explicit(*b);
		auto mid = b.State();
		if (s2.mo.kind == 3)
			for (std::size_t i = 0; i < mid.size(); i++) if (mid[i].type != FLUID)
			{
				double x[3]; s2.mo(i, h, h, x);
				for (int d = 0; d < D; d++) { mid[i].u[d] = (x[d] - s2.ps[i].x[d]) / h; mid[i].x[d] = x[d]; }
				b.Poke(i, mid[i]);
			}
		X::Densities(*b);
		const St q(b.State());
		for (std::size_t i = 0; i < q.ty.size(); i++) if (q.ty[i] != DISABLED && !(ref::norm(q.x[i] - q1.x[i]) < 0.499L * (s.e.NL() - s.e.Re()))) { R.S("fast"); return; }
		const Out out = Try([&] { run->Step(h); });
		if (out == Out::Crowd || out == Out::Other) { R.S("skipped"); return; }
		if (out == Out::Solver) R.S("unsolved"); // the assembled system is still there
		if (!CheckSystem("N04", *run, s2, q, ecs, emag, h, nullptr, cont ? "step after history" : "first step")) return;
		bool any = false; for (auto e : ecs) any = any || e != 0;
		if (any) R.S("with_error_correction");
		if (R.cur < 4) R.Sample(R.ctx);
	}
}
#else
static void ModeAssembly(Rng&) {}
#endif

// N06: implicit stage (clip, gradient) from the observed pressures
static void ModeImplicit(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 400 : 100; o.exits = r.p(0.15);
	Scene s = gen::Make(r, o);
	R.ctx = gen::Describe(s);
	Prepared p;
	if (!Prepare(s, r, p, 2)) return;
	Sim& sim = *p.sim;
	const int mode = r.i(0, 2);
	const auto start = sim.State();
	if (Try([&] { X::Search(*sim); X::Densities(*sim); if (mode == 0) { X::Explicit(*sim); X::Densities(*sim); } }) != Out::Ok) { R.S("skipped"); return; }
	auto b = sim.State();
	const bool gradOnly = mode == 2;
	if (gradOnly) // arbitrary (non-negative and negative) pressures, densities as computed
		for (std::size_t i = 0; i < b.size(); i++) { b[i].p = s.e.rho * s.Uref * s.Uref * (r.p(0.2) ? 0 : r.in(r.p(0.3) ? -1 : 0, 3)); sim.Poke(i, b[i]); }
	for (auto& q : b) for (int d = 0; d < D; d++) if (!(std::fabs(q.x[d]) < 1e100 && std::fabs(q.u[d]) < 1e100)) return;
	if (mode == 0) for (std::size_t i = 0; i < b.size(); i++) if (b[i].type != DISABLED && !(DistP(b[i], start[i]) < 0.499 * (s.e.NL() - s.e.Re()))) { R.S("fast"); return; }
	const Out out = Try([&] { if (gradOnly) X::Gradient(*sim); else X::Implicit(*sim); });
	if (out != Out::Ok)
	{
		R.S("unsolved");
		return;
	}
	const auto a = sim.State();
	const St q(b); St qa(a);
	Model m = MakeModel(s, sim);
	m.Cc = Model::Cond(q.x, q.ty, s.e.l0);
	const Field f = m.MakeField(q.x, q.ty);
	if (f.degenerate) { R.S("ambiguous"); return; }
	const double rel = Rel(Model::Cond(q.x, q.ty, f.rmin)) * 2;
#ifndef PRESSURE_EXPLICIT
	std::vector<double> x; if (!gradOnly && a.size()) x = sim.Vec(0);
#endif
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (a[i].type != b[i].type) { R.V("N06", "type-changed", "implicit stage changed the type of particle %zu", i); return; }
		if (!SameBits(a[i].n, b[i].n)) { R.V("N06", "density-changed", "implicit stage changed the density of particle %zu", i); return; }
		if (gradOnly) { if (!SameBits(a[i].p, b[i].p)) { R.V("N06", "pressure-changed", "gradient changed the pressure of particle %zu", i); return; } }
#ifdef PRESSURE_EXPLICIT
		else if (Model::hasP(a[i].type))
		{
			const L rho = (L)s.e.rho / m.n0 * b[i].n, dr = rho - (L)s.e.rho;
			const L ex = dr <= 0 ? 0 : (L)s.e.c * s.e.c * dr;
			R.S(dr > 0 ? "compressed" : "uncompressed");
			if (!Close(a[i].p, ex, 1e-14L * s.e.c * s.e.c * (s.e.rho + rho))) { R.V("N06", "state-equation", "pressure of particle %zu (type %d) is %.15g instead of %.15Lg (n=%.9g, n0=%.9Lg)", i, a[i].type, a[i].p, ex, b[i].n, m.n0); return; }
		}
#else
		else if (Model::hasP(a[i].type))
		{
			L ex = x[i] < 0 ? 0 : x[i];
			if (!ref::SPP && f.ambN0) { if (a[i].p == 0) ex = 0; }
			else if (!ref::SPP && m.surface(b[i].n)) ex = 0;
			R.S(x[i] < 0 ? "clipped" : x[i] > 0 ? "positive" : "zero");
			if (!(a[i].p >= 0)) { R.V("N06", "negative", "pressure of particle %zu (type %d) is %.9g", i, a[i].type, a[i].p); return; }
			if (!Close(a[i].p, ex, 1e-14L * std::fabs(ex))) { R.V("N06", "clip", "pressure of particle %zu (type %d) is %.15g instead of %.15Lg (solved %.15g)", i, a[i].type, a[i].p, ex, x[i]); return; }
		}
		else if (!SameBits(a[i].p, b[i].p)) { R.V("N06", "dummy-pressure", "implicit stage changed the pressure of particle %zu of type %d from %.9g to %.9g", i, a[i].type, b[i].p, a[i].p); return; }
#endif
	}
	if (ref::SPP && f.ambN0) { R.S("ambiguous"); return; }
	const L um = Vmax(q);
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (a[i].type != FLUID)
		{
			for (int d = 0; d < D; d++) if (!SameBits(a[i].x[d], b[i].x[d]) || !SameBits(a[i].u[d], b[i].u[d])) { R.V("N06", "moved", "implicit stage moved particle %zu of type %d", i, a[i].type); return; }
			continue;
		}
		L mag; bool amb; const V du = m.Grad(f, i, q.ty, q.n, qa.p, p.dt, mag, amb, rel);
		if (amb) { R.S("ambiguous_particles"); continue; }
		for (int d = 0; d < D; d++)
		{
			const L eu = q.u[i][d] + du[d];
			if (!Close(a[i].u[d], eu, rel * mag + 1e-15L * (std::fabs(q.u[i][d]) + um))) { R.V("N06", "gradient", "velocity of particle %zu axis %d is %.15g instead of %.15Lg (before %.9g, change %.9Lg, mode %d)", i, d, a[i].u[d], eu, b[i].u[d], du[d], mode); return; }
			const L ex = q.x[i][d] + (L)p.dt * du[d];
			if (!Close(a[i].x[d], ex, (L)p.dt * rel * mag + 1e-15L * std::fabs(q.x[i][d]))) { R.V("N06", "position", "position of particle %zu axis %d is %.15g instead of %.15Lg", i, d, a[i].x[d], ex); return; }
		}
		R.S("particles"); R.S("interactions", (double)f.nb[i].size()); if (f.spp[i].on && qa.p[i] != 0) R.S("filled_particles");
	}
	R.S("stages");
	if (R.cur < 2) R.Sample(R.ctx);
}

// N24: repulsion on resting overlapping arrangements: nothing else can act
static void ModeRepulse(Rng& r)
{
	Scene s; auto& e = s.e;
	Options o; o.maxN = 40; o.zeroG = true; o.moving = false; o.safe = true;
	s = gen::Make(r, o);
	auto& l0 = e.l0;
	e.g = 0;
	const double d = l0 - e.MaxDx();
	const int style = r.i(0, 3);
	if (style != 0)
	{
		s.ps.clear();
		double off[3]; for (int k = 0; k < D; k++) off[k] = l0 * r.in(-20, 20);
		const int pairs = style == 1 ? 1 : r.i(2, 6);
		for (int k = 0; k < pairs; k++)
		{
			double c[3]; for (int q = 0; q < D; q++) c[q] = off[q] + (q == 0 ? k * e.NL() * (style == 3 ? r.in(0.25, 0.8) : r.in(1.5, 2.5)) : l0 * r.in(-1, 1));
			const int members = r.p(0.6) ? 2 : r.i(2, 5);
			for (int mbr = 0; mbr < members; mbr++)
			{
				double v[3], nn = 0; for (int q = 0; q < D; q++) { v[q] = r.in(-1, 1); nn += v[q] * v[q]; } nn = std::sqrt(nn) + 1e-9;
				if (r.p(0.2)) { for (int q = 0; q < D; q++) v[q] = 0; v[r.i(0, D - 1)] = r.p(0.5) ? 1 : -1; nn = 1; }
				const double dist = mbr == 0 ? 0 : d * (r.p(0.15) ? 1.0 : r.p(0.2) ? r.in(0.97, 1.03) : r.in(0.2, 1.2));
				double x[3]; for (int q = 0; q < D; q++) x[q] = c[q] + v[q] / nn * dist;
				gen::addP(s, r.p(0.7) ? FLUID : r.i(0, 3), x);
			}
		}
		for (int q = 0; q < D; q++) { e.mn[q] = 1e300; e.mx[q] = -1e300; for (auto& p : s.ps) { e.mn[q] = std::min(e.mn[q], p.x[q]); e.mx[q] = std::max(e.mx[q], p.x[q]); } e.mn[q] -= 3 * l0; e.mx[q] += 3 * l0; }
		if (r.p(0.5)) std::reverse(s.ps.begin(), s.ps.end());
		s.tag = "pairs"; s.setBase();
	}
	if (s.ps.empty()) return;
	const bool moving = r.p(0.3);
	double drift[3]; for (auto& v : drift) v = moving ? r.in(-1, 1) * s.Uref : 0;
	for (auto& p : s.ps) { p.p = 0; for (int q = 0; q < D; q++) p.u[q] = 0; }
	if (moving) // everything translates together (fluid and walls alike): still no relative motion
	{
		bool walls = false; for (auto& p : s.ps) walls = walls || p.type != FLUID;
		if (!walls) for (auto& p : s.ps) for (int q = 0; q < D; q++) p.u[q] = drift[q];
	}
	R.ctx = gen::Describe(s);
	double dt = std::min(StepSize(s, r), s.Tref);
	Sim sim(s, 1e-10, dt);
	const St q(s.ps);
	Model m = MakeModel(s, sim);
	m.Cc = Model::Cond(q.x, q.ty, l0);
	const Field f = m.MakeField(q.x, q.ty);
	if (f.degenerate) { R.S("ambiguous"); return; }
	const Out out = Try([&] { sim.Step(dt); });
	if (out != Out::Ok) { if (out == Out::Crowd && !Crowded(s.ps, e)) R.V("N24", "error", "step fails on a resting arrangement"); R.S("skipped"); return; }
	const auto a = sim.State();
	for (auto& p : a) if (p.type != DUMMY && p.type != DISABLED && p.p != 0) { R.S("pressure_present"); return; } // e.g. weakly compressible or divergence source
	const double rel = Rel(Model::Cond(q.x, q.ty, f.rmin)) * 10;
	std::vector<V> x0(q.x), x1(q.x);
	for (std::size_t i = 0; i < a.size(); i++) if (q.ty[i] == FLUID) x0[i] = q.x[i] + (L)dt * q.u[i];
	x1 = x0;
	V sum; L sumTol = 0; bool onlyFluid = true;
	for (std::size_t i = 0; i < a.size(); i++)
	{
		if (q.ty[i] == WALL) onlyFluid = false;
		if (q.ty[i] != FLUID) continue;
		L mag; const V du = ref::DS ? m.Repulse(i, x0, x1, q.ty, dt, mag) : V();
		if (!ref::DS) mag = 0;
		bool push = false;
		for (int k = 0; k < D; k++)
		{
			const L eu = q.u[i][k] + du[k];
			push = push || du[k] != 0;
			const L tol = rel * (mag + (L)l0 / dt * 1e-3L) + 1e-14L * std::fabs(q.u[i][k]);
			if (!Close(a[i].u[k], eu, tol)) { R.V("N24", du[k] == 0 ? "unaffected" : "size", "particle %zu axis %d: velocity %.12g instead of %.12Lg after a step at rest (threshold %.9g, closest pair %.9Lg)", i, k, a[i].u[k], eu, d, f.rmin); return; }
			const L ex = x0[i][k] + (L)dt * du[k];
			if (!Close(a[i].x[k], ex, tol * dt + 4e-16L * std::fabs(ex))) { R.V("N24", "position", "particle %zu axis %d: position %.15g instead of %.15Lg", i, k, a[i].x[k], ex); return; }
		}
		sum = sum + du; sumTol += mag;
		R.S(push ? "pushed" : "unpushed");
	}
	if (onlyFluid && ref::DS)
	{
		V s2; for (std::size_t i = 0; i < a.size(); i++) if (q.ty[i] == FLUID) for (int k = 0; k < D; k++) s2[k] += (L)a[i].u[k] - q.u[i][k];
		for (int k = 0; k < D; k++) if (!Close(s2[k], 0, rel * sumTol + 1e-14L * a.size() * (Vmax(q)) + rel * 1e-3L * l0 / dt * a.size())) { R.V("N24", "reciprocal", "sum of pushes between fluid particles is %.9Lg", s2[k]); return; }
		R.S("reciprocal_sets");
	}
	R.S("stages");
	if (R.cur < 2) R.Sample(R.ctx);
}

// N24: repulsion in motion: the rest of the step is repeated with the real stages and the observed pressures and taken out
static void ModePush(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 250 : 60; o.safe = true; o.moving = false; o.kind = r.pick<int>({2, 3, 3, 4, 5, 5, 0, 1, 6, 6});
	Scene s = gen::Make(r, o);
	auto& e = s.e; const double l0 = e.l0, d = l0 - e.MaxDx();
	if (r.p(0.35))
	{
		// clusters far too close, which the pressure throws apart or through each other
		s.ps.clear(); s.tag = "cluster";
		const int n = r.i(2, 6); const double size = d * r.lg(0.05, 1.5);
		for (int k = 0; k < n; k++) { double x[3]; for (int q = 0; q < D; q++) x[q] = l0 * 3 + size * (k * (q == 0) * r.in(0.3, 1) + r.in(-1, 1) * (r.p(0.5) ? 0.05 : 1)); gen::addP(s, r.p(0.8) ? FLUID : r.i(0, 3), x); }
		for (auto& p : s.ps) for (int q = 0; q < D; q++) p.u[q] = s.Uref * r.in(-1, 1) * (r.p(0.3) ? 0 : 1);
		for (int q = 0; q < D; q++) { e.mn[q] = 1e300; e.mx[q] = -1e300; for (auto& p : s.ps) { e.mn[q] = std::min(e.mn[q], p.x[q]); e.mx[q] = std::max(e.mx[q], p.x[q]); } e.mn[q] -= 5 * l0; e.mx[q] += 5 * l0; }
	}
	s.setBase();
	if (r.p(0.2)) { s.mo.kind = 4; s.mo.omega = 1 / s.Tref; for (auto& v : s.mo.amp) v = r.in(-0.1, 0.1) * l0; }
	if (s.ps.empty()) return;
	R.ctx = gen::Describe(s);
	const double h = r.p(0.6) ? StepSize(s, r) : s.Tref * r.lg(0.02, 0.6);
	Sim a(s, s.eps, h);
	const int steps = r.i(1, 3);
	for (int k = 0; k < steps; k++)
	{
		const auto b = a.State();
		if (!Finite(b)) return;
		if (Try([&] { a.Step(h); }) != Out::Ok) { R.S("no_answer"); return; }
		const auto c = a.State();
		if (!Finite(c)) { R.S("nonfinite"); return; }
		Scene s2 = s; s2.ps = b;
		Sim t(s2, s.eps, h);
		if (Try([&] { X::Search(*t); X::Densities(*t); X::Explicit(*t); X::Densities(*t); }) != Out::Ok) return;
		auto mid = t.State();
		for (std::size_t i = 0; i < mid.size(); i++) { mid[i].p = c[i].p; t.Poke(i, mid[i]); }
		X::Gradient(*t);
		const auto f = t.State();
		const St q0(b), qm(mid), qf(f);
		Model m = MakeModel(s, a);
		const Field fm = m.MakeField(qm.x, qm.ty), ff = m.MakeField(qf.x, qf.ty);
		if (fm.degenerate || ff.degenerate || ff.rmin < 1e-4L * l0 || fm.rmin < 1e-4L * l0) { R.S("ambiguous"); return; }
		const double rel = Rel(std::max(Model::Cond(qm.x, qm.ty, fm.rmin), Model::Cond(qf.x, qf.ty, ff.rmin))) * 20;
		const L um = std::max(Vmax(qf), Vmax(qm));
		for (std::size_t i = 0; i < c.size(); i++)
		{
			L mag = 0; V du; L tie = 0;
			if (qf.ty[i] == FLUID && ref::DS)
			{
				du = m.Repulse(i, qm.x, qf.x, qf.ty, h, mag);
				for (std::size_t j = 0; j < c.size(); j++) if (j != i && qf.ty[j] != DISABLED && qf.ty[j] != DUMMY)
				{
					const V x = qf.x[j] - qf.x[i]; const L dist = ref::norm(x);
					if (std::fabs(dist - (L)d) < 1e-9L * d) tie += (L)d;
					if (dist < (L)d * (1 + 1e-9L))
					{
						if (!(ref::norm(q0.x[j] - q0.x[i]) < (L)e.NL() * (1 - 1e-9L))) { R.S("jumped"); return; }
						R.S("close_pairs"); if (ref::dot(x, qm.x[j] - qm.x[i]) < 0) R.S("passed_through");
						const V y = qm.x[j] - qm.x[i], z = q0.x[j] - q0.x[i];
						if (std::fabs(ref::dot(y, z)) < 0.999L * ref::norm(y) * ref::norm(z)) R.S("turned");
						if (std::fabs(ref::dot(y, x)) < 0.999L * ref::norm(y) * ref::norm(x)) R.S("turned_by_pressure");
					}
				}
			}
			for (int q = 0; q < D; q++)
			{
				const L eu = qf.u[i][q] + du[q];
				const L tol = qf.ty[i] == FLUID ? rel * (mag + um + 1e-3L * l0 / h) + tie / h : 1e-13L * (um + (std::fabs(qm.x[i][q]) + l0) / h * 1e-2L);
				if (!Close(c[i].u[q], eu, tol)) { R.V("N24", du[q] == 0 ? "unaffected" : "size", "step %d particle %zu (type %d) axis %d: push %.12Lg instead of %.12Lg (velocity %.12g, threshold %.9g, closest pair %.9Lg)", k, i, qf.ty[i], q, (L)c[i].u[q] - qf.u[i][q], du[q], c[i].u[q], d, ff.rmin); return; }
				if (qf.ty[i] == FLUID && !Close(c[i].x[q], qf.x[i][q] + (L)h * du[q], tol * h + 4e-15L * (std::fabs(qf.x[i][q]) + l0))) { R.V("N24", "position", "step %d particle %zu axis %d: position %.15g instead of %.15Lg", k, i, q, c[i].x[q], qf.x[i][q] + (L)h * du[q]); return; }
			}
			R.S(mag > 0 ? "pushed" : "unpushed");
		}
		R.S("steps");
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

static void ModeInvert(Rng& r)
{
	(void)r;
#ifdef MPS_GC
	using OpenMps::Detail::InvertMatrix;
	for (int rep = 0; rep < 60; rep++)
	{
		double a[D][D];
		const int kind = r.i(0, 6);
		const double sc = r.lg(1e-12, 1e12);
		auto fill = [&] { for (auto& row : a) for (auto& v : row) v = sc * r.in(-1, 1); };
		fill();
		bool singular = false;
		if (kind == 1) { double v[D]; for (auto& q : v) q = r.in(-1, 1); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) a[i][j] = sc * (v[i] * v[j] + (i == j ? r.in(0.1, 1) : 0)); }
		if (kind == 2) { for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) a[i][j] = r.i(-5, 5); }
		if (kind == 3) { // exactly singular with exact arithmetic: small integers scaled by a power of two
			const double p2 = std::ldexp(1.0, r.i(-60, 60));
			int v[D], w[D]; for (auto& q : v) q = r.i(-4, 4); for (auto& q : w) q = r.i(-4, 4);
			for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) a[i][j] = p2 * v[i] * w[j];
			singular = true;
		}
		if (kind == 4) { const int z = r.i(0, D - 1); for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (r.p(0.5) || i == z) { } for (int j = 0; j < D; j++) a[z][j] = 0; singular = true; }
		if (kind == 5) { for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (j < i) a[i][j] = 0; }
		if (kind == 6) { for (auto& row : a) for (auto& v : row) v = 0; singular = true; if (r.p(0.5)) { int perm[3] = {0, 1, 2}; for (int i = D - 1; i > 0; i--) std::swap(perm[i], perm[r.i(0, i)]); for (int i = 0; i < D; i++) a[i][perm[i]] = sc * r.in(0.1, 2) * (r.p(0.5) ? 1 : -1); singular = false; } }
		OpenMps::Detail::CorrectiveMatrix m;
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) m(i, j) = a[i][j];
		L M[D][D], O[D][D]; L nm = 0;
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) { M[i][j] = a[i][j]; nm = std::max(nm, std::fabs(M[i][j])); }
		const bool sg = ref::Model::Invert(M, O);
		L cm = 0; if (!sg) for (auto& row : O) for (auto v : row) cm = std::max(cm, std::fabs(v));
		const L cond = sg ? 1e30L : nm * cm * D;
		const double val = r.in(-3, 3);
		if (kind == 2)
		{
			// exact determinant decides
			long long d; auto A = [&](int i, int j) { return (long long)a[i][j]; };
			if (D == 2) d = A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0);
			else d = A(0, 0) * (A(1, 1) * A(D - 1, D - 1) - A(1, D - 1) * A(D - 1, 1)) - A(0, 1) * (A(1, 0) * A(D - 1, D - 1) - A(1, D - 1) * A(D - 1, 0)) + A(0, D - 1) * (A(1, 0) * A(D - 1, 1) - A(1, 1) * A(D - 1, 0));
			singular = d == 0;
		}
		R.ctx = "kind " + std::to_string(kind);
		const auto o = InvertMatrix(std::move(m), val);
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) R.ctx += " " + G(a[i][j]);
		if (singular)
		{
			for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) if (!(o(i, j) == (i == j ? val : 0))) { R.V("N20", "singular", "singular matrix: entry (%d,%d) is %.15g instead of %.15g", i, j, (double)o(i, j), i == j ? val : 0.0); return; }
			R.S("singular"); continue;
		}
		if (cond > 1e9) { R.S("ill_conditioned"); continue; }
		for (int i = 0; i < D; i++) for (int j = 0; j < D; j++)
		{
			L l = 0, q = 0; for (int k = 0; k < D; k++) { l += (L)a[i][k] * o(k, j); q += (L)o(i, k) * a[k][j]; }
			const L ex = i == j ? 1 : 0, tol = 1e-14L * cond * cond + 1e-12L * cond;
			if (!Close(l, ex, tol) || !Close(q, ex, tol)) { R.V("N20", "inverse", "entry (%d,%d) of matrix times inverse is %.12Lg / %.12Lg (condition %.3Lg)", i, j, l, q, cond); return; }
		}
		R.S("inverted"); R.Max("condition", (double)cond);
	}
	if (R.cur < 2) R.Sample(R.ctx);
#endif
}
