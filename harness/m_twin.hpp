// Comparisons of two runs: N12 frames and units, N13 groups, N14 threads, N22 portions, N23 dump for cross-build comparison.
#pragma once

struct Affine { double a = 1, tau = 1, m = 1; double shift[3] = {0, 0, 0}, boost[3] = {0, 0, 0}; int sgn[3] = {1, 1, 1}; int ax[3] = {0, 1, 2}; };

static void ModeFrames(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 250 : 70; o.safe = true; o.noDisabled = true; o.ordinaryOffset = true;
	const int what0 = r.i(0, 6);
	int what = what0; // 0 permutation 1 shift 2 mirror 3 boost 4 units 5 axis exchange 6 several
	if (what == 5 && D == 2) what = 1;
	if (ref::CGRAV && (what == 1 || what == 3 || what == 6)) what = 0;
	const bool boost = what == 3 || (what == 6 && r.p(0.4));
	if (boost) { o.fluidOnly = true; o.moving = false; }
	Scene s = gen::Make(r, o);
	if (s.ps.empty()) return;
	s.eps = 1e-12;
	if (s.mo.kind == 2) s.mo.kind = 1;
	const int steps = r.i(1, 3);
	const double h = StepSize(s, r);
	auto dts = Steps(h, steps, r);
	bool autoDt = !boost && r.p(0.4);
	const std::size_t n = s.ps.size();
	Affine t;
	std::vector<int> perm(n); for (std::size_t i = 0; i < n; i++) perm[i] = (int)i; // new index of old i
	if (what == 0 || (what == 6 && r.p(0.5))) for (std::size_t k = n; k > 1; k--) std::swap(perm[k - 1], perm[r.i(0, (int)k - 1)]);
	if (what == 1 || (what == 6 && r.p(0.5)))
	{
		// far shifts only with resting walls: the velocity of a moving wall is a difference of positions and loses digits far away
		const double far = (s.mo.kind == 0 && r.p(0.25)) ? r.lg(1e2, 3e4) : 1;
		if (far > 1) R.S("far_shifts");
		for (int d = 0; d < D; d++) t.shift[d] = far * s.e.l0 * (r.p(0.3) ? r.i(-50, 50) : r.in(-30, 30));
	}
	if (what == 2 || (what == 6 && r.p(0.5))) { t.sgn[0] = -1; if (D == 3 && r.p(0.5)) { t.sgn[1] = -1; if (r.p(0.5)) t.sgn[0] = 1; } if (ref::CGRAV && r.p(0.5)) t.sgn[D - 1] = -1; }
	if (boost) for (int d = 0; d < D; d++) t.boost[d] = s.Uref * r.in(-3, 3);
	if (what == 4 || (what == 6 && r.p(0.5))) { t.a = r.p(0.3) ? std::ldexp(1.0, r.i(-6, 6)) : r.p(0.2) ? r.lg(1e-5, 1e5) : r.lg(0.01, 100); t.tau = r.p(0.3) ? r.lg(1e-9, 1e9) : r.lg(0.01, 100); t.m = r.lg(1e-3, 1e3); if (r.p(0.3)) { const int k = r.i(0, 2); if (k != 0) t.a = 1; if (k != 1) t.tau = 1; if (k != 2) t.m = 1; }
		// very small models; very large ones only without filling, which compares a length with a constant
		if (r.p(0.15)) { t.a = (ref::SPP || r.p(0.5) ? r.lg(1e-9, 1e-6) : r.lg(1e6, 1e9)) / s.e.l0; R.S("extreme_lengths"); } }
	if (D == 3 && (what == 5 || (what == 6 && r.p(0.5)))) std::swap(t.ax[0], t.ax[1]);
	// total time for the boosted area
	double T = 0; for (auto v : dts) T += v;
	Scene q = s; q.ps.assign(n, P()); q.mo.base.assign(n, {0, 0, 0});
	const double us = t.a / t.tau, psc = t.m / (t.a * t.tau * t.tau);
	q.e.l0 = s.e.l0 * t.a; q.e.g = s.e.g * t.a / (t.tau * t.tau); q.e.nu = s.e.nu * t.a * t.a / t.tau; q.e.rho = s.e.rho * t.m / (t.a * t.a * t.a); q.e.maxDt = s.e.maxDt * t.tau; q.e.c = s.e.c * us;
	q.Uref = s.Uref * us; q.Tref = s.Tref * t.tau;
	for (int d = 0; d < D; d++)
	{
		const int z = t.ax[d]; // new axis d is old axis z
		double lo = s.e.mn[z], hi = s.e.mx[z];
		if (t.sgn[z] < 0) { std::swap(lo, hi); lo = -lo; hi = -hi; }
		lo += t.shift[z]; hi += t.shift[z];
		if (t.boost[z] < 0) lo += t.boost[z] * T * 2; else hi += t.boost[z] * T * 2;
		q.e.mn[d] = lo * t.a; q.e.mx[d] = hi * t.a;
		q.mo.amp[d] = s.mo.amp[z] * t.sgn[z] * t.a;
	}
	q.mo.omega = s.mo.omega / t.tau;
	for (std::size_t i = 0; i < n; i++)
	{
		P& w = q.ps[perm[i]]; const P& v = s.ps[i]; w.type = v.type; w.p = v.p * psc; w.n = v.n;
		for (int d = 0; d < D; d++)
		{
			const int z = t.ax[d];
			w.x[d] = (v.x[z] * t.sgn[z] + t.shift[z]) * t.a; w.u[d] = (v.u[z] * t.sgn[z] + t.boost[z]) * us;
			q.mo.base[perm[i]][d] = (s.mo.base[i][z] * t.sgn[z] + t.shift[z]) * t.a;
		}
	}
	static const char* names[] = {"numbering", "origin", "mirror", "moving-frame", "units", "axis-exchange", "several"};
	R.ctx = std::string(names[what]) + " " + gen::Describe(s) + " a=" + G(t.a) + " tau=" + G(t.tau) + " m=" + G(t.m) + " boost=" + G(t.boost[0]) + " shift=" + G(t.shift[0]);
	Sim A(s, s.eps, h), B(q, s.eps, h * t.tau);
	Rng r2(r.next());
	double most = 0; for (double v : t.shift) most = std::max(most, std::fabs(v) / s.e.l0);
	Sim Y(Perturb(s, r2, std::max(1e-13 * (1 + std::min(most, 50.0) / 3), 1e-15 * most)), s.eps, h);
	auto dq = dts; for (auto& v : dq) v *= t.tau;
	const Traj ta = RunTraj(A, steps, autoDt ? nullptr : &dts), ty = RunTraj(Y, steps, autoDt ? nullptr : &dts);
	Traj tb = RunTraj(B, steps, autoDt ? nullptr : &dq);
	// which particles leave depends on the area, which is not moved with the frame: compare while all are inside in both
	std::size_t valid = 0;
	for (; valid < std::min(ta.st.size(), tb.st.size()); valid++)
	{
		bool in = true;
		for (int z = 0; z < 2 && in; z++)
		{
			const auto& e = z ? q.e : s.e; const double mg = 1e-7 * e.l0;
			for (auto& p : valid == 0 ? (z ? q.ps : s.ps) : (z ? tb.st : ta.st)[valid - 1]) if (p.type != DISABLED) for (int d = 0; d < D; d++) in = in && p.x[d] > e.mn[d] + mg && p.x[d] < e.mx[d] - mg;
		}
		if (!in) { R.S("left_area"); break; }
	}
	Traj tA = ta;
	for (Traj* w : {&tA, &tb}) { w->st.resize(std::min(w->st.size(), valid)); }
	// transform back
	for (std::size_t k = 0; k < tb.st.size(); k++)
	{
		std::vector<P> back(n); const double time = tb.t[k] / t.tau;
		for (std::size_t i = 0; i < n; i++)
		{
			const P& w = tb.st[k][perm[i]]; P& v = back[i]; v.type = w.type; v.p = w.p / psc; v.n = w.n;
			for (int d = 0; d < D; d++) { const int z = t.ax[d]; v.x[z] = (w.x[d] / t.a - t.shift[z] - t.boost[z] * time) * t.sgn[z]; v.u[z] = (w.u[d] / us - t.boost[z]) * t.sgn[z]; }
		}
		tb.st[k] = back;
	}
	if (autoDt && !ta.dt.empty() && !tb.dt.empty() && !(std::fabs(tb.dt[0] / t.tau - ta.dt[0]) <= 1e-11 * ta.dt[0])) { R.V("N12", "step-choice", "%s: chosen step %.15g becomes %.15g", names[what], ta.dt[0], tb.dt[0] / t.tau); return; }
	double bmax = 0; for (auto v : t.boost) bmax = std::max(bmax, std::fabs(v));
	if (!Judge2("N12", names[what], s, tA, ty, tb, Identity(n), 5e-8 * (1 + bmax / s.Uref))) return;
	R.S(std::string("pairs.") + names[what]);
	if (R.cur < 4) R.Sample(R.ctx);
}

static void ModeGroups(Rng& r)
{
	Options o; o.maxN = 50; o.safe = true; o.ordinaryOffset = true; o.noDisabled = r.p(0.8);
	if (ref::CGRAV) return;
	Scene a = gen::Make(r, o);
	if (a.ps.empty()) return;
	if (a.mo.kind == 2) a.mo.kind = 1;
	Scene b;
	for (int k = 0; k < 5 && b.ps.empty(); k++) { Rng rb(r.next()); b = gen::Make(rb, o); }
	if (b.ps.empty()) return;
	a.eps = 1e-12;
	// second group: same environment, scaled to the same spacing and speed, placed beside
	const double k = a.e.l0 / b.e.l0, ku = a.Uref / b.Uref * r.in(0.3, 1);
	const double NL = a.e.NL();
	const int axis = r.i(0, D - 1), side = r.p(0.5) ? 1 : -1;
	double alo[3], ahi[3], blo[3], bhi[3];
	for (int d = 0; d < D; d++) { alo[d] = blo[d] = 1e300; ahi[d] = bhi[d] = -1e300; for (auto& p : a.ps) { alo[d] = std::min(alo[d], p.x[d]); ahi[d] = std::max(ahi[d], p.x[d]); } for (auto& p : b.ps) { blo[d] = std::min(blo[d], p.x[d] * k); bhi[d] = std::max(bhi[d], p.x[d] * k); } }
	const int steps = r.i(1, 3);
	const double h = std::min(StepSize(a, r), 0.4 * a.Tref);
	const auto dts = Steps(h, steps, r);
	// room for the movement of both groups during the steps
	double ua = 0, ub = 0; for (auto& p : a.ps) for (int d = 0; d < D; d++) ua = std::max(ua, std::fabs(p.u[d])); for (auto& p : b.ps) for (int d = 0; d < D; d++) ub = std::max(ub, std::fabs(p.u[d]) * ku);
	const double gap = NL * r.in(1.0001, 1.02) + steps * h * (ua + ub) * 2.5 + a.e.l0 * 0.6 * steps;
	std::vector<P> bp = b.ps;
	for (auto& p : bp)
	{
		for (int d = 0; d < D; d++) { p.x[d] = p.x[d] * k + (d == axis ? (side > 0 ? ahi[d] - blo[d] + gap : alo[d] - bhi[d] - gap) : alo[d] - blo[d]); p.u[d] *= ku; }
		p.p = p.p / (b.e.rho * b.Uref * b.Uref) * a.e.rho * a.Uref * a.Uref;
	}
	for (int d = 0; d < D; d++) for (auto& p : bp) { a.e.mn[d] = std::min(a.e.mn[d], p.x[d] - 3 * a.e.l0); a.e.mx[d] = std::max(a.e.mx[d], p.x[d] + 3 * a.e.l0); }
	Scene c = a; c.ps.clear(); c.mo.base.clear();
	std::vector<int> map(a.ps.size()); std::size_t i = 0, j = 0;
	const bool inter = r.p(0.5); const bool first = r.p(0.5);
	while (i < a.ps.size() || j < bp.size())
	{
		const bool takeA = j >= bp.size() || (i < a.ps.size() && (inter ? r.p(0.5) : first));
		if (takeA) { map[i] = (int)c.ps.size(); c.ps.push_back(a.ps[i]); c.mo.base.push_back(a.mo.base[i]); i++; }
		else { c.ps.push_back(bp[j]); c.mo.base.push_back({bp[j].x[0], bp[j].x[1], bp[j].x[2]}); j++; }
	}
	R.ctx = gen::Describe(a) + " with " + std::to_string(bp.size()) + " others along axis " + std::to_string(axis);
	Sim A(a, a.eps, h), C(c, a.eps, h);
	Rng r2(r.next());
	Sim Y(Perturb(a, r2), a.eps, h);
	const Traj ta = RunTraj(A, steps, &dts), tc = RunTraj(C, steps, &dts), ty = RunTraj(Y, steps, &dts);
	// the groups must really have stayed apart before every step
	std::size_t valid = 0;
	std::vector<char> inA(c.ps.size(), 0); for (auto m : map) inA[m] = 1;
	for (std::size_t q = 0; q < tc.st.size(); q++)
	{
		bool apart = true;
		const auto& st = q == 0 ? c.ps : tc.st[q - 1];
		for (std::size_t x = 0; x < st.size() && apart; x++) if (inA[x] && st[x].type != DISABLED) for (std::size_t y = 0; y < st.size(); y++) if (!inA[y] && st[y].type != DISABLED) { double r2s = 0; for (int d = 0; d < D; d++) r2s += (st[x].x[d] - st[y].x[d]) * (st[x].x[d] - st[y].x[d]); if (!(std::sqrt(r2s) > NL * 1.00001)) { apart = false; break; } }
		if (!apart) break;
		valid = q + 1;
	}
	Traj tt = tc; tt.st.resize(valid); tt.out.resize(valid); Traj t2 = ta;
	if (t2.st.size() > valid) { t2.st.resize(valid); t2.out.resize(valid); t2.dt.resize(valid); }
	if (!Judge2("N13", "group-influence", a, t2, ty, tt, map, 1e-7)) return;
	R.S("pairs"); R.S("valid_steps", (double)valid);
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- N22
static bool SameState(const std::vector<P>& a, const std::vector<P>& b, std::size_t off, std::size_t cnt, std::size_t& bad)
{
	for (std::size_t i = 0; i < cnt; i++)
	{
		const P &x = a[i], &y = b[off + i];
		bool same = x.type == y.type && SameBits(x.p, y.p) && SameBits(x.n, y.n);
		for (int d = 0; d < D; d++) same = same && SameBits(x.x[d], y.x[d]) && SameBits(x.u[d], y.u[d]);
		if (!same) { bad = i; return false; }
	}
	return true;
}

static void ModePortions(Rng& r)
{
	Options o; o.maxN = r.p(0.05) ? 300 : 90; o.exits = r.p(0.2);
	Scene s = gen::Make(r, o);
	if (s.ps.empty()) return;
	s.eps = 1e-12;
	if (s.mo.kind == 2) s.mo.kind = 3;
	if (r.p(0.4)) // disabled particles at the places of others: added before or after them
	{
		for (int k = r.i(1, 4); k > 0; k--)
		{
			P q = s.ps[r.i(0, (int)s.ps.size() - 1)]; const bool was = q.type == DISABLED;
			q.type = DISABLED; if (was || r.p(0.5)) { q.p += 1; q.n += 1; for (int d = 0; d < D; d++) q.u[d] += s.Uref; }
			s.ps.insert(s.ps.begin() + r.i(0, (int)s.ps.size()), q);
		}
		s.setBase(); R.S("coincident");
	}
	R.ctx = gen::Describe(s);
	const double h = StepSize(s, r);
	Sim a(s, s.eps, h, nullptr, false);
	std::size_t done = 0; std::vector<std::size_t> cuts;
	std::size_t stepsDone = 0;
	while (done < s.ps.size())
	{
		std::size_t c = r.p(0.1) ? 0 : r.p(0.3) ? 1 : (std::size_t)r.i(1, (int)s.ps.size());
		c = std::min(c, s.ps.size() - done);
		const auto b = a.State();
		std::vector<P> part(s.ps.begin() + done, s.ps.begin() + done + c);
		a.Add(part);
		const auto n = a.State();
		if (n.size() != b.size() + c) { R.V("N22", "count", "adding %zu particles to %zu gives %zu", c, b.size(), n.size()); return; }
		std::size_t bad;
		if (!SameState(b, n, 0, b.size(), bad)) { R.V("N22", "existing-changed", "adding %zu particles changed existing particle %zu of %zu", c, bad, b.size()); return; }
		if (!SameState(part, n, b.size(), c, bad)) { R.V("N22", "appended-wrong", "particle %zu of the portion of %zu is not appended as given", bad, c); return; }
		done += c; cuts.push_back(c); R.S("portions");
		// steps between the portions; the state at the last addition is what counts
		if (done < s.ps.size() && r.p(0.5)) for (int k = r.i(1, 3); k > 0; k--) { if (Try([&] { if (r.p(0.3)) a.Step(); else a.Step(h * r.in(0.3, 1)); }) != Out::Ok) { R.S("history_errors"); break; } stepsDone++; }
		if (!Finite(a.State())) return;
	}
	Scene s2 = s; s2.ps = a.State();
	const double t = a.Env().T();
	const int steps = r.i(1, 3); const auto dts = Steps(h, steps, r); const bool autoDt = r.p(0.3);
	Sim b(s2, s.eps, h, nullptr, true, t);
	Rng r2(r.next()); Sim y(Perturb(s2, r2), s.eps, h, nullptr, true, t);
	const Traj ta = RunTraj(a, steps, autoDt ? nullptr : &dts), tb = RunTraj(b, steps, autoDt ? nullptr : &dts), ty = RunTraj(y, steps, autoDt ? nullptr : &dts);
	if (ta.out[0] != Out::Ok && tb.out[0] == Out::Ok && ty.out[0] == Out::Ok && ta.out[0] != Out::Solver) { R.V("N22", "error", "a step fails after adding in portions but not when added at once"); return; }
	R.ctx += " portions=" + std::to_string(cuts.size()) + " steps between=" + std::to_string(stepsDone);
	if (!Judge2("N22", "portions-differ", s2, tb, ty, ta, Identity(s2.ps.size()))) return;
	R.S("pairs"); R.S("steps_between", (double)stepsDone);
	if (R.cur < 2) R.Sample(R.ctx);
}

// ---- N29: several computations in one process
struct Script { Scene s; double h; std::vector<double> dts; std::size_t first; std::vector<int> moveBefore; };
struct Record { std::vector<std::vector<P>> st; std::vector<Out> out; std::vector<double> t; };
static void OneStep(Sim& a, const Script& c, std::size_t k, Record& o)
{
	if (k == c.first && c.first > 0) a.Add(std::vector<P>(c.s.ps.begin() + (long)(c.s.ps.size() / 2), c.s.ps.end()));
	const double dt = c.dts[k];
	o.out.push_back(Try([&] { if (dt > 0) a.Step(dt); else a.Step(); }));
	o.st.push_back(a.State()); o.t.push_back(a.Env().T());
}
static std::unique_ptr<Sim> Begin(const Script& c)
{
	auto a = std::make_unique<Sim>(c.s, c.s.eps, c.h, nullptr, false);
	a->Add(c.first > 0 ? std::vector<P>(c.s.ps.begin(), c.s.ps.begin() + (long)(c.s.ps.size() / 2)) : c.s.ps);
	return a;
}
static bool SameRecord(const Record& a, const Record& b, const char* key, const char* how)
{
	for (std::size_t k = 0; k < a.st.size() && k < b.st.size(); k++)
	{
		if (a.out[k] != b.out[k]) { R.V("N29", "outcome", "%s: step %zu ends with %s, alone with %s", how, k, b.out[k] == Out::Ok ? "success" : "an error", a.out[k] == Out::Ok ? "success" : "an error"); return false; }
		std::size_t bad = 0;
		if (a.st[k].size() != b.st[k].size() || !SameState(a.st[k], b.st[k], 0, a.st[k].size(), bad)) { R.V("N29", key, "%s: after step %zu particle %zu differs from the same computation alone", how, k, bad); return false; }
		if (!SameBits(a.t[k], b.t[k])) { R.V("N29", key, "%s: after step %zu the time is %.17g, alone %.17g", how, k, b.t[k], a.t[k]); return false; }
	}
	return true;
}

static void ModeSeveral(Rng& r)
{
	const int n = r.p(0.7) ? 2 : 3;
	std::vector<Script> c(n);
	for (int k = 0; k < n; k++)
	{
		auto& q = c[k];
		Options o; o.maxN = 70; o.exits = r.p(0.3);
		if (k > 0 && r.p(0.4)) // as many particles at the same places with other parameters, or exactly the same
		{
			q.s = c[k - 1].s;
			if (r.p(0.8)) { const int w = r.i(0, 4); auto& e = q.s.e; if (w == 0) e.g *= 2; if (w == 1) e.rho *= 3; if (w == 2) e.nu *= 10; if (w == 3) q.s.eps *= 1e-3; if (w == 4) e.maxDt *= 0.5; }
			if (r.p(0.3)) for (auto& p : q.s.ps) for (int d = 0; d < D; d++) p.u[d] += q.s.Uref * r.in(-0.1, 0.1);
		}
		else { q.s = gen::Make(r, o); q.s.eps = std::pow(10.0, -r.in(4, 12)); if (r.p(0.08)) q.s.eps = 1e-60; }
		q.h = StepSize(q.s, r); q.first = q.s.ps.size() > 3 && r.p(0.25) ? (std::size_t)r.i(1, 2) : 0;
		for (int m = r.i(2, 4); m > 0; m--) { q.dts.push_back(r.p(0.3) ? -1 : q.h * r.in(0.3, 1)); q.moveBefore.push_back(r.p(0.2)); }
	}
	R.ctx = std::to_string(n) + " computations, " + gen::Describe(c[0].s) + " and " + gen::Describe(c[1].s);
	const bool concurrent = r.p(0.4);
	std::vector<Record> alone(n), mixed(n);
	SetThreads(1);
	for (int k = 0; k < n; k++) { auto a = Begin(c[k]); for (std::size_t m = 0; m < c[k].dts.size(); m++) OneStep(*a, c[k], m, alone[k]); }
	if (concurrent)
	{
		std::vector<std::thread> t;
		for (int k = 0; k < n; k++) t.emplace_back([&, k] { SetThreads(1); auto a = Begin(c[k]); for (std::size_t m = 0; m < c[k].dts.size(); m++) OneStep(*a, c[k], m, mixed[k]); });
		for (auto& q : t) q.join();
		R.S("concurrent");
	}
	else
	{
		std::vector<std::unique_ptr<Sim>> a(n); std::vector<int> left, order;
		for (int k = 0; k < n; k++) for (std::size_t m = 0; m < c[k].dts.size(); m++) order.push_back(k);
		for (std::size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[r.i(0, (int)k - 1)]);
		if (r.p(0.5)) for (int k = 0; k < n; k++) a[k] = Begin(c[k]);
		for (int k : order)
		{
			if (!a[k]) a[k] = Begin(c[k]);
			const std::size_t m = mixed[k].st.size();
			if (c[k].moveBefore[m]) { a[k]->Move(); R.S("moved"); }
			OneStep(*a[k], c[k], m, mixed[k]);
			if (mixed[k].st.size() == c[k].dts.size() && r.p(0.5)) a[k].reset();
			R.S("switches");
		}
	}
	for (int k = 0; k < n; k++)
	{
		if (mixed[k].st.size() != alone[k].st.size()) { R.V("N29", "steps", "steps are missing"); return; }
		if (!SameRecord(alone[k], mixed[k], concurrent ? "concurrent-differs" : "alternating-differs", concurrent ? "advanced at the same time as another" : "advanced in turn with another")) return;
		for (auto q : mixed[k].out) R.S(q == Out::Ok ? "compared_steps" : "failed_steps");
	}
	R.S("groups"); if (R.cur < 3) R.Sample(R.ctx);
}

// the same computation in a process of its own, and in one where others ran before, in between or inside its wall callbacks.
// Every variant runs in a child of this process, which itself never touches the code under test.
template<typename F> static bool InChild(F f, std::vector<char>& out)
{
	int fd[2]; if (pipe(fd)) return false;
	fflush(stdout);
	const pid_t pid = fork();
	if (pid < 0) { close(fd[0]); close(fd[1]); return false; }
	if (pid == 0)
	{
		close(fd[0]);
		for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGTERM}) std::signal(sig, SIG_DFL);
		std::vector<char> b; f(b);
		for (std::size_t k = 0; k < b.size();) { const auto w = write(fd[1], b.data() + k, b.size() - k); if (w <= 0) _exit(4); k += (std::size_t)w; }
		_exit(0);
	}
	close(fd[1]);
	char buf[65536]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) out.insert(out.end(), buf, buf + k);
	close(fd[0]);
	int st = 0; waitpid(pid, &st, 0);
	return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
template<typename T> static void Put(std::vector<char>& b, const T& v) { const auto* q = (const char*)&v; b.insert(b.end(), q, q + sizeof v); }
template<typename T> static bool Get(const std::vector<char>& b, std::size_t& at, T& v) { if (at + sizeof v > b.size()) return false; std::memcpy(&v, b.data() + at, sizeof v); at += sizeof v; return true; }
static void PutRecord(std::vector<char>& b, const Record& o)
{
	Put(b, o.st.size());
	for (std::size_t k = 0; k < o.st.size(); k++) { Put(b, o.out[k]); Put(b, o.t[k]); Put(b, o.st[k].size()); for (auto& p : o.st[k]) Put(b, p); }
}
static bool GetRecord(const std::vector<char>& b, Record& o)
{
	std::size_t at = 0, n = 0; if (!Get(b, at, n)) return false;
	for (std::size_t k = 0; k < n; k++)
	{
		Out u; double t; std::size_t c; if (!Get(b, at, u) || !Get(b, at, t) || !Get(b, at, c)) return false;
		std::vector<P> v(c); for (auto& p : v) if (!Get(b, at, p)) return false;
		o.out.push_back(u); o.t.push_back(t); o.st.push_back(v);
	}
	return true;
}
static void ModeAfter(Rng& r)
{
	const int n = r.i(2, 4);
	std::vector<Script> c(n);
	for (int k = 0; k < n; k++)
	{
		auto& q = c[k];
		Options o; o.maxN = k > 0 && r.p(0.2) ? 250 : 60; o.exits = r.p(0.3); o.pad = 0;
		if (k > 0 && r.p(0.4)) { q.s = c[0].s; const int w = r.i(0, 4); auto& e = q.s.e; if (w == 0) e.g *= 2; if (w == 1) e.rho *= 3; if (w == 2) e.nu *= 10; if (w == 3) e.re = r.in(1.6, 2.4); if (w == 4) e.maxDt *= 0.5; if (r.p(0.5)) { for (auto& p : q.s.ps) { p.p = r.in(0, 1) * e.rho * 10; for (int d = 0; d < D; d++) p.u[d] += q.s.Uref * r.in(-0.1, 0.1); } } }
		else q.s = gen::Make(r, o);
		q.s.eps = k > 0 && r.p(0.12) ? 1e-60 : std::pow(10.0, -r.in(3, 12));
		q.h = StepSize(q.s, r); q.first = q.s.ps.size() > 3 && r.p(0.25) ? (std::size_t)r.i(1, 2) : 0;
		for (int m = r.i(2, 4); m > 0; m--) { q.dts.push_back(r.p(0.3) ? -1 : q.h * r.in(0.3, 1)); q.moveBefore.push_back(0); }
	}
	const int how = r.i(0, 2), th = r.p(0.6) ? 1 : 2; const bool keep = r.p(0.5);
	const auto order = r.next();
	static const char* const names[] = {"after others", "in turn with others", "with others advanced from its wall callback"};
	R.ctx = std::string(names[how]) + ", " + std::to_string(n) + " computations, " + gen::Describe(c[0].s) + " and " + gen::Describe(c[1].s);
	std::vector<char> ba, bb;
	const bool oa = InChild([&](std::vector<char>& b) { SetThreads(1); Record o; auto a = Begin(c[0]); for (std::size_t m = 0; m < c[0].dts.size(); m++) OneStep(*a, c[0], m, o); PutRecord(b, o); }, ba);
	const bool ob = InChild([&](std::vector<char>& b)
	{
		Rng q(order); SetThreads(th);
		std::vector<std::unique_ptr<Sim>> a(n); std::vector<Record> o(n);
		auto one = [&](int k) { if (!a[k]) a[k] = Begin(c[k]); if (o[k].st.size() < c[k].dts.size()) { SetThreads(k == 0 ? 1 : th); OneStep(*a[k], c[k], o[k].st.size(), o[k]); SetThreads(1); } };
		if (how == 0) for (int k = 1; k < n; k++) { for (std::size_t m = 0; m < c[k].dts.size(); m++) one(k); if (!keep) a[k].reset(); }
		if (how == 2) { a[0] = Begin(c[0]); a[0]->Hook([&] { one(q.i(1, n - 1)); }); }
		for (std::size_t m = 0; m < c[0].dts.size(); m++)
		{
			if (how == 1) for (int z = q.i(1, 3); z > 0; z--) one(q.i(1, n - 1));
			one(0);
		}
		PutRecord(b, o[0]);
	}, bb);
	Record ra, rb;
	if (!oa || !GetRecord(ba, ra)) { R.S("died"); return; }
	if (!ob || !GetRecord(bb, rb)) { R.V("N29", "died", "a computation that runs through alone ends the process %s", names[how]); return; }
	if (ra.st.size() != rb.st.size()) { R.V("N29", "steps", "steps are missing"); return; }
	if (!SameRecord(ra, rb, how == 0 ? "after-differs" : how == 1 ? "turn-differs" : "nested-differs", names[how])) return;
	for (auto q : ra.out) R.S(q == Out::Ok ? "compared_steps" : "failed_steps");
	R.S(how == 0 ? "after" : how == 1 ? "in_turn" : "nested"); if (R.cur < 3) R.Sample(R.ctx);
}

// ---- N14
static bool ThreadPair(const Scene& s, double h, int steps, int k, Rng& r, bool autoDt)
{
	const auto dts = Steps(h, steps, r);
	Rng r2(r.next());
	SetThreads(1);
	Sim a(s, s.eps, h); const Traj ta = RunTraj(a, steps, autoDt ? nullptr : &dts);
	Sim y(Perturb(s, r2), s.eps, h); const Traj ty = RunTraj(y, steps, autoDt ? nullptr : &dts);
	SetThreads(k);
	Sim b(s, s.eps, h); const Traj tb = RunTraj(b, steps, autoDt ? nullptr : &dts);
	SetThreads(1);
	if (ta.out[0] == Out::Ok && ty.out[0] == Out::Ok && tb.out[0] != Out::Ok) { R.V("N14", "error", "with %d threads the first step fails, with one it does not", k); return false; }
	return Judge2("N14", "threads-differ", s, ta, ty, tb, Identity(s.ps.size()));
}

static void ModeThreads(Rng& r)
{
	Options o; o.maxN = r.p(0.1) ? 600 : 130; o.exits = r.p(0.2);
	Scene s = gen::Make(r, o);
	if (s.ps.empty()) return;
	s.eps = 1e-12;
	const int k = r.pick<int>({2, 3, 4, 5, 7, 8, 13, 16});
	R.ctx = gen::Describe(s) + " threads=" + std::to_string(k);
	if (!ThreadPair(s, StepSize(s, r), r.i(1, 3), k, r, r.p(0.3))) return;
	R.S("pairs");
	if (R.cur < 2) R.Sample(R.ctx);
}

// a large block of water above the parallel threshold of the vector library
static Scene BigScene(Rng& r, int target)
{
	Scene s; auto& e = s.e;
	e.l0 = r.p(0.5) ? 0.01 : r.lg(0.01, 1); e.re = D == 3 ? r.in(1.6, 2.1) : r.in(2.0, 2.6); e.courant = 0.1; e.g = r.p(0.5) ? 9.8 : 0; e.nu = 1e-6; e.maxDt = 1; e.rho = 1000;
	s.Uref = std::sqrt(9.8 * e.l0); s.Tref = e.l0 / s.Uref; e.maxDt = 0.1 * s.Tref; e.c = 10 * s.Uref; s.eps = 1e-5;
	int nx, ny = 1, nz;
	if (D == 2) { nx = r.i(50, 120); nz = target / nx + 1; } else { nx = r.i(14, 20); ny = r.i(14, 20); nz = target / (nx * ny) + 1; }
	const double jit = r.in(0.01, 0.1);
	for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++)
	{
		const int c[3] = {i, D == 3 ? j : k, k};
		double x[3]; for (int d = 0; d < D; d++) x[d] = e.l0 * (0.97 * c[d] + jit * r.in(-1, 1));
		gen::addP(s, k == 0 ? DUMMY : k == 1 ? WALL : FLUID, x);
		if (k > 1) for (int d = 0; d < D; d++) s.ps.back().u[d] = s.Uref * r.in(-0.3, 0.3);
	}
	const int top[3] = {nx, D == 3 ? ny : nz, nz};
	for (int d = 0; d < D; d++) { e.mn[d] = -3 * e.l0; e.mx[d] = top[d] * e.l0 + 3 * e.l0; }
	s.setBase(); s.tag = "big";
	return s;
}

static void ModeThreadsBig(Rng& r)
{
	Scene s = BigScene(r, r.pick<int>({5100, 5600, 7000}));
	s.eps = 1e-11;
	const int k = r.pick<int>({2, 3, 4, 6, 8});
	R.ctx = gen::Describe(s) + " threads=" + std::to_string(k);
	if (!ThreadPair(s, 0.05 * s.Tref, 2, k, r, false)) return;
	R.S("big_pairs"); R.Max("particles", (double)s.ps.size());
	if (R.cur < 2) R.Sample(R.ctx);
}

// workload for the race detector
static void ModeRace(Rng& r)
{
	bool big = r.p(0.12);
#ifndef USE_VIENNACL
	big = false; // nothing depends on the size there, and it is very slow
#endif
	Options o; o.maxN = r.p(0.3) ? 400 : 120; o.exits = r.p(0.3);
	Scene s = big ? BigScene(r, 5100) : gen::Make(r, o);
	if (big) s.eps = 0.05;
	const int k = r.pick<int>({2, 3, 4, 6, 8});
	SetThreads(k);
	R.ctx = gen::Describe(s) + " threads=" + std::to_string(k);
	MoveLog log; log.Reset(s.ps.size() + 16);
	Sim a(s, s.eps, 0, &log);
	const double h = StepSize(s, r);
	for (int q = big ? 1 : r.i(2, 5); q > 0; q--)
	{
		log.Reset(a.Size() + 16);
		const Out out = Try([&] { if (r.p(0.5)) a.Step(); else a.Step(h * r.in(0.3, 1)); });
		R.S(out == Out::Ok ? "steps" : "errors");
		if (out == Out::Other) { R.V("N14", "error", "undocumented exception in a parallel run"); return; }
		if (!big && r.p(0.15)) { std::vector<P> add(3); for (auto& p : add) for (int d = 0; d < D; d++) p.x[d] = r.in(s.e.mn[d], s.e.mx[d]); a.Add(add); for (auto& p : add) s.mo.base.push_back({p.x[0], p.x[1], p.x[2]}); }
	}
	R.S("runs"); R.S("thread_sum", k); R.S("particles", (double)a.Size());
	if (R.cur < 3) R.Sample(R.ctx);
}

// ---- N23: states for the comparison of builds
static void ModeDump(Rng& r)
{
	Options o; o.padMax = 1000; o.maxN = r.p(0.08) ? 200 : 50; o.exits = r.p(0.2);
	Scene s = gen::Make(r, o);
	s.eps = 1e-12;
	R.ctx = gen::Describe(s);
	const double h = StepSize(s, r); const int steps = r.i(1, 3); const bool autoDt = r.p(0.4);
	const auto dts = Steps(h, steps, r);
	Rng r2(r.next());
	Sim a(s, s.eps, h), y(Perturb(s, r2), s.eps, h);
	const Traj ta = RunTraj(a, steps, autoDt ? nullptr : &dts), ty = RunTraj(y, steps, autoDt ? nullptr : &dts);
	for (std::size_t k = 0; k < ta.st.size(); k++)
	{
		if (ta.out[k] != Out::Ok || k >= ty.out.size() || ty.out[k] != Out::Ok) { printf("D %ld %zu error\n", R.cur, k); R.S("errors"); break; }
		if (!Finite(ta.st[k])) break;
		const Scale sc = ScaleOf(s, ta.st[k], ta.dt[k]);
		const Dev d = Deviation(ta.st[k], ty.st[k], sc, Identity(s.ps.size()));
		const bool closed = Enclosed(s.e, k ? ta.st[k - 1] : s.ps) || Enclosed(s.e, ta.st[k]);
		const L sens = closed ? 1e9L : std::max({d.x, d.u, d.p, d.n});
		printf("D %ld %zu ok %.3Le %.17g %.6Le %.6Le %.6Le %.6Le", R.cur, k, sens, ta.dt[k], sc.x, sc.u, sc.p, sc.n);
		for (auto& p : ta.st[k]) { printf(" %d", p.type); for (int e = 0; e < D; e++) printf(" %.17g %.17g", p.x[e], p.u[e]); printf(" %.17g %.17g", p.p, p.n); }
		printf("\n");
		R.S("states");
	}
	if (R.cur < 2) R.Sample(R.ctx);
}
