// N26 collapse of a water column against the shipped reference data, N27 drop under central gravity.
#pragma once

// front position Z/L over t sqrt(2g/L) for a column twice as high as wide: shipped in Benchmark/DamBreak (experiments and other programs)
static L DamReference(L t)
{
	static const double tab[][2] = {{0, 1}, {0.4, 1.09}, {0.7, 1.26}, {0.95, 1.47}, {1.2, 1.71}, {1.45, 1.98}, {1.7, 2.25}, {1.95, 2.52}, {2.2, 2.80}, {2.45, 3.10}, {2.7, 3.40}, {2.9, 3.65}};
	const int n = sizeof tab / sizeof *tab;
	for (int i = 1; i < n; i++) if (t <= tab[i][0]) return tab[i - 1][1] + (tab[i][1] - tab[i - 1][1]) * (t - tab[i - 1][0]) / (tab[i][0] - tab[i - 1][0]);
	return tab[n - 1][1];
}

static void ModeDam(Rng& r)
{
	const double l0 = r.pick<double>({0.004, 0.008, 0.02, 0.1, 1.0});
	double off[3]; for (auto& v : off) v = r.p(0.5) ? 0 : l0 * r.in(-20, 20);
#if defined(PRESSURE_EXPLICIT) || !defined(USE_VIENNACL)
	const int L0 = r.i(10, 11);
#else
	const int L0 = r.i(11, 16);
#endif
	const int w = L0 * 4, wy = 3;
	const bool mirrored = r.p(0.5);
	Scene s = Tank(w, wy, 2 * L0 + 6, L0, wy, 2 * L0, l0, off);
	auto& e = s.e;
	e.g = r.p(0.5) ? 9.8 : r.in(1, 30); e.rho = r.p(0.5) ? 998.2 : r.lg(0.5, 3e4); e.nu = 1e-6 * std::sqrt(e.g * l0) * l0 / 1e-4; e.re = r.p(0.6) ? 2.4 : r.in(2.2, 2.6); e.courant = 0.1;
	if (mirrored) { for (auto& p : s.ps) p.x[0] = -p.x[0]; const double a = e.mn[0]; e.mn[0] = -e.mx[0]; e.mx[0] = -a; s.setBase(); }
	const double T = std::sqrt(L0 * l0 / (2 * e.g));
	e.maxDt = T * r.in(0.004, 0.01); e.c = 10 * std::sqrt(e.g * 2 * L0 * l0); s.eps = 1e-8;
	s.Uref = std::sqrt(e.g * L0 * l0); s.Tref = T;
	R.ctx = gen::Describe(s) + " column " + std::to_string(L0) + "x" + std::to_string(2 * L0) + (mirrored ? " mirrored" : "");
	Sim sim(s, s.eps, 0);
	L worst = 0, at = 0; int steps = 0;
	std::string trace;
	const L tEnd = 2.6L;
	L nextT = 0.4L;
	while (sim.Env().T() / T < tEnd)
	{
		if (Try([&] { sim.Step(); }) != Out::Ok) { R.V("N26", "failed", "step %d of the collapse cannot be computed", steps); return; }
		steps++;
		const L t = sim.Env().T() / T;
		L front = -1e30L;
		for (auto& p : sim.State()) if (p.type == FLUID) front = std::max(front, (L)(mirrored ? -p.x[0] : p.x[0]));
		const L z = (front - off[0] + l0) / (L0 * l0);
		if (t >= nextT) { trace += " " + G((double)t) + ":" + G((double)z) + "/" + G((double)DamReference(t)); nextT += 0.2L; }
		if (t > 0.4L) { const L d = z - DamReference(t); if (std::fabs(d) > std::fabs(worst)) { worst = d; at = t; } if (!(std::fabs(d) < 0.15L + 0.1L * t)) { R.V("N26", "front", "the front is at %.3Lf column widths at t sqrt(2g/L) = %.2Lf, the reference at %.3Lf", z, t, DamReference(t)); return; } }
		if (steps > 6000) { R.V("N26", "slow", "the collapse does not end within %d steps", steps); return; }
	}
	R.S("runs"); R.S("steps", steps); if (mirrored) R.S("mirrored_runs");
	if (R.cur < 3) R.Sample(R.ctx + " worst " + G((double)worst) + ":" + trace);
	R.Max("ahead", (double)worst); R.Max("behind", -(double)worst);
	if (getenv("MON_DEBUG")) printf("# dam worst %.3Lf at %.2Lf steps %d [%s]%s\n", worst, at, steps, R.ctx.c_str(), trace.c_str());
}

static void ModeDrop(Rng& r)
{
#ifdef CENTRAL_GRAVITY
	const double l0 = r.pick<double>({0.0005, 0.01, 0.1, 1.0});
	const int nx = D == 3 ? r.i(2, 3) : r.i(5, 9), nz = D == 3 ? nx : r.i(5, 9);
	Scene s; s.e.l0 = l0; s.tag = "drop";
	for (int i = -nx; i <= nx; i++) for (int j = (D == 3 ? -nx : 0); j <= (D == 3 ? nx : 0); j++) for (int k = -nz; k <= nz; k++)
	{
		const double x[3] = {i * l0, D == 3 ? j * l0 : k * l0, k * l0};
		gen::addP(s, FLUID, x);
	}
	auto& e = s.e;
	const double half = l0 * std::max(nx, nz);
	for (int d = 0; d < D; d++) { e.mn[d] = -half * r.in(2, 5); e.mx[d] = half * r.in(2, 5); } // the origin is not the middle of the area
	s.setBase();
	const double nAll = (double)s.ps.size();
	const double Rad = l0 * (D == 3 ? std::cbrt(nAll * 3 / (4 * M_PI)) : std::sqrt(nAll / M_PI));
	e.g = r.p(0.5) ? 9.8 : r.in(1, 30); e.rho = r.p(0.5) ? 998.2 : r.lg(0.5, 3e4); e.nu = r.p(0.5) ? 1e-6 : r.lg(1e-6, 1e-3) * std::sqrt(e.g * l0) * l0; e.re = r.p(0.6) ? 2.4 : r.in(2.1, 2.6); e.courant = 0.1;
	const double T = std::sqrt(Rad / e.g);
	e.maxDt = T * r.in(0.005, 0.01); s.eps = 1e-8;
	s.Uref = std::sqrt(e.g * Rad); s.Tref = T;
	R.ctx = gen::Describe(s) + " square " + std::to_string(2 * nx + 1) + "x" + std::to_string(2 * nz + 1);
	Sim sim(s, s.eps, 0);
	int steps = 0; L pc = 0, rmax = 0; int cnt = 0; L umax = 0, cmax = 0, uend = 0;
	std::string trace; L nextT = 1;
	while (sim.Env().T() / T < 8 && steps < 4000)
	{
		if (Try([&] { sim.Step(); }) != Out::Ok) { R.V("N27", "failed", "step %d of the drop cannot be computed", steps); return; }
		steps++;
		const L t = sim.Env().T() / T;
		const auto a = sim.State();
		L com[3] = {0, 0, 0}, far = 0, u2 = 0, pin = 0; int nin = 0;
		for (auto& p : a)
		{
			L q = 0; for (int d = 0; d < D; d++) { q += (L)p.x[d] * p.x[d]; com[d] += p.x[d] / nAll; u2 += (L)p.u[d] * p.u[d]; }
			q = std::sqrt(q); far = std::max(far, q);
			if (q < 0.35L * Rad) { pin += p.p; nin++; }
		}
		u2 = std::sqrt(u2 / nAll) / s.Uref;
		L c = 0; for (int d = 0; d < D; d++) c += com[d] * com[d]; c = std::sqrt(c) / l0;
		for (std::size_t i = 0; i < a.size(); i++) if (a[i].type != FLUID || !Finite({a[i]})) { R.V("N27", "lost", "particle %zu of the drop is lost or not finite in step %d", i, steps); return; }
		cmax = std::max(cmax, c); if (t >= 5) uend = std::max(uend, u2);
		if (t >= 5) { pc += nin ? pin / nin : 0; cnt++; rmax = std::max(rmax, far); }
		umax = std::max(umax, u2);
		if (t >= nextT) { trace += " | t " + G((double)t) + " com " + G((double)c) + " far/R " + G((double)(far / Rad)) + " (" + G((double)((far - Rad) / l0)) + ") u " + G((double)u2) + " pin " + G((double)(pin / std::max(nin, 1) / (e.rho * e.g * Rad))); nextT += 1; }
	}
	if (getenv("MON_DEBUG")) printf("# drop pc %.3Lf far %.3Lf steps %d [%s]%s\n", pc / cnt / (e.rho * e.g * Rad), (rmax - Rad) / l0, steps, R.ctx.c_str(), trace.c_str());
	const L want = D == 3 ? 0.78L : 0.735L, q = cnt ? pc / cnt / (e.rho * e.g * Rad) : 0, far = (rmax - Rad) / l0;
	R.S("runs"); R.S("steps", steps);
	R.Max("inner_pressure", (double)q); R.Max("minus_inner_pressure", -(double)q); R.Max("farthest", (double)far); R.Max("speed", (double)uend); R.Max("speed_any", (double)umax); R.Max("centre", (double)cmax);
	if (R.cur < 3) R.Sample(R.ctx + " inner pressure " + G((double)q) + " farthest " + G((double)far));
	if (steps >= 4000) R.V("N27", "slow", "the drop does not settle within %d steps", steps);
	else if (!(std::fabs(q / want - 1) < (D == 3 ? 0.3L : 0.2L))) R.V("N27", "pressure", "the pressure inside the drop is %.3Lf rho g R, expected %.3Lf", q, want);
	else if (!(far < 1.6L)) R.V("N27", "round", "a particle of the settled drop is %.2Lf spacings outside the circle of equal volume", far);
	else if (!(umax < 0.35L && uend < 0.2L)) R.V("N27", "speed", "the drop keeps moving: %.3Lf of the free-fall speed (%.3Lf at the end)", umax, uend);
	else if (!(cmax < 0.3L)) R.V("N27", "centre", "the centre of mass of the drop moved by %.2Lf spacings", cmax);
#else
	(void)r;
#endif
}

// N30: the water of a tank keeps its volume
static void ModeVolume(Rng& r)
{
	const double l0 = r.pick<double>({0.005, 0.01, 0.02, 0.1, 1.0});
	double off[3]; for (auto& v : off) v = r.p(0.4) ? 0 : l0 * r.in(-30, 30);
	const int kind = r.i(0, 3); // 0 column 1 block falling 2 level 3 level with a sideways velocity
	const int w = D == 3 ? r.i(4, 5) : r.i(8, 16), wy = r.i(3, 4);
	const int fx = kind >= 2 ? w : kind == 1 ? r.i(3, w - 2) : r.i(std::max(3, w / 3), w - 2), fz = D == 3 ? r.i(3, 6) : r.i(5, kind == 0 ? 16 : 12);
	const int lift = kind == 1 ? r.i(1, 4) : 0, fy = D == 3 ? (kind == 1 ? r.i(2, wy) : wy) : 1;
	Scene s = Tank(w, wy, fz * 2 + 8 + lift, fx, fy, fz, l0, off);
	auto& e = s.e;
	e.g = r.p(0.5) ? 9.8 : r.in(1, 40); e.rho = r.p(0.5) ? 1000 : r.lg(0.5, 3e4); e.nu = r.p(0.5) ? 1e-6 : r.lg(1e-6, 1e-3) * std::sqrt(e.g * l0) * l0; e.re = r.p(0.6) ? 2.4 : r.in(2.1, D == 3 ? 2.5 : 3.1); e.courant = r.p(0.7) ? 0.1 : r.in(0.05, 0.15);
	const double H = (fz + lift) * l0, U = std::sqrt(e.g * H), T = std::sqrt(H / e.g);
	const double right = kind == 1 ? l0 * r.i(0, w - fx) : 0, side = kind == 3 ? U * r.in(-0.3, 0.3) : 0;
	for (auto& p : s.ps) if (p.type == FLUID) { p.x[D - 1] += lift * l0; p.x[0] += right; p.u[0] += side; }
	e.maxDt = T * r.in(0.004, 0.01); e.c = 10 * U; s.eps = 1e-8; s.Uref = U; s.Tref = T;
	s.setBase();
	R.ctx = gen::Describe(s) + " kind " + std::to_string(kind) + " water " + std::to_string(fx) + "x" + std::to_string(fz) + " in " + std::to_string(w);
	Sim sim(s, s.eps, 0);
	const double nf = (double)s.count(FLUID), flat = nf / (D == 3 ? w * wy : w);
	const int maxSteps = D == 3 ? r.i(100, 250) : r.i(300, 900);
	int steps = 0; L low = 1e30L, mean = 0, most = 0; const double tEnd = 8 * T;
	const L n0 = ref::Lattice(e.re, 1).n0;
	std::vector<L> n(s.ps.size());
	while (steps < maxSteps && sim.Env().T() < tEnd)
	{
		if (Try([&] { sim.Step(); }) != Out::Ok) { R.V("N30", "failed", "step %d cannot be computed", steps); return; }
		steps++;
		const auto a = sim.State();
		L c = 0, over = 0, mx = 0;
		std::vector<int> id; for (std::size_t i = 0; i < a.size(); i++) if (a[i].type != DISABLED) id.push_back((int)i);
		std::sort(id.begin(), id.end(), [&](int p, int q) { return a[p].x[0] < a[q].x[0]; });
		std::fill(n.begin(), n.end(), 0);
		const double Re = e.re * l0;
		for (std::size_t i = 0; i < id.size(); i++) for (std::size_t j = i + 1; j < id.size() && a[id[j]].x[0] - a[id[i]].x[0] < Re; j++)
		{
			if (a[id[i]].type != FLUID && a[id[j]].type != FLUID) continue;
			double q = 0; for (int d = 0; d < D; d++) { const double v = a[id[i]].x[d] - a[id[j]].x[d]; q += v * v; }
			if (q < Re * Re) { const L wgt = Re / std::sqrt(q) - 1; n[id[i]] += wgt; n[id[j]] += wgt; }
		}
		for (std::size_t i = 0; i < a.size(); i++) if (a[i].type == FLUID)
		{
			c += (a[i].x[D - 1] - off[D - 1]) / l0; const L v = n[i] / n0 - 1; if (v > 0) over += v; mx = std::max(mx, v);
		}
		c = c / nf - (flat - 1) / 2; over /= nf;
		low = std::min(low, c); mean = std::max(mean, over); most = std::max(most, mx);
	}
	R.S("runs"); R.S("steps", steps); R.Max("minus_lowest", -(double)low); R.Max("mean_excess", (double)mean); R.Max("largest_excess", (double)most);
#ifdef MPS_SPP
	const L okMean = 0.11L, okMost = 0.28L, okLow = 0.10L;
#else
	const L okMean = 0.17L, okMost = 0.33L, okLow = 0.12L; // surface particles carry no pressure there
#endif
	if (!(low > -okLow * flat - 0.15L)) R.V("N30", "sinks", "the centre of mass of the water is %.3Lf spacings lower than that of the same water lying flat (%.2f rows)", -low, flat);
	else if (!(mean < okMean)) R.V("N30", "squeezed", "the water is compressed: number density %.3Lf above the reference on average", mean);
	else if (!(most < okMost)) R.V("N30", "squeezed-locally", "the number density reaches %.3Lf times the reference", 1 + most);
	if (getenv("MON_DEBUG")) printf("# volume kind %d low %.3Lf mean %.4Lf most %.3Lf steps %d t/T %.2f [%s]\n", kind, low, mean, most, steps, sim.Env().T() / T, R.ctx.c_str());
	if (R.cur < 3) R.Sample(R.ctx + " lowest " + G((double)low) + " mean excess " + G((double)mean) + " largest " + G((double)most));
}
