// N01: grid and neighbour lists against brute force.  N02: densities.
#pragma once

static double NearBorder(Rng& r, double lo, double NL, double hi)
{
	// a coordinate on or next to a block border or an edge
	const int k = r.i(0, (int)std::min(40.0, std::ceil((hi - lo) / NL)));
	double b = r.p(0.15) ? hi : r.p(0.1) ? lo : lo + k * NL;
	switch (r.i(0, 4))
	{
	case 0: break;
	case 1: b = std::nextafter(b, 1e300); break;
	case 2: b = std::nextafter(b, -1e300); break;
	case 3: b += NL * r.in(-1e-9, 1e-9); break;
	default: b += NL * r.in(-0.05, 0.05); break;
	}
	return b;
}

static EnvP RandomBox(Rng& r)
{
	EnvP e;
	e.l0 = r.lg(1e-3, 10); e.re = r.in(1.2, D == 3 ? 2.6 : 4.0); e.courant = r.in(0.01, 0.5);
	const double NL = e.NL();
	for (int d = 0; d < D; d++)
	{
		e.mn[d] = r.p(0.2) ? 0 : r.p(0.2) ? -NL * r.i(0, 6) : NL * r.in(-20, 20) * (r.p(0.1) ? 50 : 1);
		const double ext = r.p(0.15) ? NL * r.in(0, 1) : r.p(0.2) ? NL * r.i(1, 6) : NL * r.in(0.2, D == 3 ? 5 : 9);
		e.mx[d] = e.mn[d] + ext;
	}
	return e;
}

static void ModeGrid(Rng& r)
{
	const EnvP e = RandomBox(r);
	const double NL = e.NL();
	R.ctx = "NL=" + G(NL) + " l0=" + G(e.l0) + " min=" + G(e.mn[0]) + "," + G(e.mn[1]) + (D == 3 ? "," + G(e.mn[2]) : "") + " max=" + G(e.mx[0]) + "," + G(e.mx[1]) + (D == 3 ? "," + G(e.mx[2]) : "");
	OpenMps::Grid grid(NL, e.l0, ToV(e.mn), ToV(e.mx));
	const int rounds = r.i(1, 5);
	for (int q = 0; q < rounds; q++)
	{
		grid.Clear();
		struct E { P p; std::size_t id; };
		std::vector<E> in;
		const int n = r.p(0.1) ? 0 : r.i(1, D == 3 ? 120 : 90);
		std::size_t id = r.p(0.5) ? 0 : r.i(0, 100000);
		const bool clustered = r.p(0.2);
		bool threw = false;
		P c; for (int d = 0; d < D; d++) c.x[d] = r.in(e.mn[d], e.mx[d]);
		for (int k = 0; k < n && !threw; k++)
		{
			P p;
			for (int d = 0; d < D; d++)
			{
				p.x[d] = r.p(0.4) ? NearBorder(r, e.mn[d], NL, e.mx[d]) : r.p(0.1) ? r.in(e.mn[d] - 2 * NL, e.mx[d] + 5 * NL) : r.in(e.mn[d], e.mx[d]);
				if (clustered && r.p(0.9)) p.x[d] = c.x[d] + NL * r.in(-0.4, 0.4);
			}
			if (r.p(0.02)) p.x[r.i(0, D - 1)] = r.pick<double>({1e6 * NL, -1e6 * NL, 1e30, -1e30, 1e300, -1e300});
			id += r.i(1, 3);
			bool ok = false;
			try { ok = grid.Store(ToV(p.x), id); }
			catch (const std::runtime_error&) { threw = true; }
			if (threw)
			{
				// legitimate only if really crowded
				std::vector<P> all; for (auto& s : in) all.push_back(s.p); all.push_back(p);
				if (!Crowded(all, e)) R.V("N01", "spurious-overflow", "store refused with an error although at most the guaranteed number of particles is near (%zu stored)", in.size());
				R.S("overflows");
				break;
			}
			if (!ok && Inside(p, e)) R.V("N01", "inside-refused", "position %.17g,%.17g inside the area refused", p.x[0], p.x[1]);
			if (ok && Outside(p, e)) R.V("N01", "outside-accepted", "position %.17g,%.17g outside the area accepted", p.x[0], p.x[1]);
			R.S(ok ? "stored" : "refused");
			if (ok) in.push_back({p, id});
		}
		if (threw) continue;
		for (auto& s : in)
		{
			const auto x = ToV(s.p.x);
			std::multiset<std::size_t> got;
			const auto end = grid.cend();
			std::size_t guard = 0; const std::size_t lim = 64 * (in.size() + 64) + 1000;
			for (auto it = grid.cbegin(x); !(it == end); ++it)
			{
				got.insert(*it);
				if (++guard > lim) break;
			}
			R.S("queries");
			if (guard > lim) { R.V("N01", "no-end", "iteration around %.17g,%.17g yields more than %zu ids for %zu stored particles", s.p.x[0], s.p.x[1], lim, in.size()); return; }
			std::map<std::size_t, const E*> byId; for (auto& o : in) byId[o.id] = &o;
			for (auto g : got)
			{
				if (!byId.count(g)) { R.V("N01", "ghost", "id %zu reported but not stored since the last clear (round %d)", g, q); return; }
				if (got.count(g) > 1) { R.V("N01", "duplicate", "id %zu reported %zu times around %.17g,%.17g", g, got.count(g), s.p.x[0], s.p.x[1]); return; }
			}
			for (auto& o : in)
			{
				L r2 = 0; for (int d = 0; d < D; d++) r2 += ((L)o.p.x[d] - s.p.x[d]) * ((L)o.p.x[d] - s.p.x[d]);
				if (std::sqrt(r2) < (L)NL * (1 - 1e-12L))
				{
					R.S("pairs");
					if (!got.count(o.id)) { R.V("N01", "missed", "neighbour at %.17g,%.17g distance %.3Lg NL not reported around %.17g,%.17g (round %d)", o.p.x[0], o.p.x[1], std::sqrt(r2) / (L)NL, s.p.x[0], s.p.x[1], q); return; }
				}
			}
		}
	}
	// overfilling one place
	if (r.p(0.3))
	{
		grid.Clear();
		P c; for (int d = 0; d < D; d++) c.x[d] = r.in(e.mn[d], e.mx[d]);
		std::size_t k = 0; bool threw = false;
		const std::size_t many = 4 * (std::size_t)std::pow(std::ceil(NL / e.l0) + 1, D) + 50;
		for (; k < many; k++)
		{
			try { if (!grid.Store(ToV(c.x), k)) { R.V("N01", "inside-refused", "inside position refused when crowded"); break; } }
			catch (const std::runtime_error&) { threw = true; break; }
			catch (...) { R.V("N01", "overflow-type", "overfilling raises something else than a runtime error"); return; }
		}
		if (!threw)
		{
			// accepted everything: then everything must be reported
			std::set<std::size_t> got; std::size_t guard = 0;
			const auto end = grid.cend();
			for (auto it = grid.cbegin(ToV(c.x)); !(it == end) && guard < 10 * many; ++it, ++guard) got.insert(*it);
			if (got.size() != many || guard != many) R.V("N01", "overflow-silent", "%zu particles stored at one place without error, %zu reported", many, got.size());
		}
		else R.S("overfill_errors");
		grid.Clear();
		if (!grid.Store(ToV(c.x), 7)) R.V("N01", "after-overflow", "grid unusable after an overflow and clear");
		std::size_t cnt = 0; bool good = true;
		const auto end = grid.cend();
		for (auto it = grid.cbegin(ToV(c.x)); !(it == end) && cnt < 100; ++it) { cnt++; good = good && *it == 7; }
		if (cnt != 1 || !good) R.V("N01", "after-overflow", "after an overflow and clear %zu ids reported instead of 1", cnt);
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

// neighbour lists of the computer against brute force
static bool CheckLists(const char* pid, Sim& sim, const Scene& s, const std::vector<P>& before)
{
	const auto st = sim.State();
	const double NL = s.e.NL();
	for (std::size_t i = 0; i < st.size(); i++)
	{
		if (before[i].type != DISABLED)
		{
			if (Inside(before[i], s.e) && st[i].type == DISABLED) { R.V(pid, "inside-refused", "particle %zu inside the area disabled at %.17g,%.17g", i, before[i].x[0], before[i].x[1]); return false; }
			if (Outside(before[i], s.e) && st[i].type != DISABLED) { R.V(pid, "outside-accepted", "particle %zu outside the area still live at %.17g,%.17g", i, before[i].x[0], before[i].x[1]); return false; }
		}
	}
	for (std::size_t i = 0; i < st.size(); i++)
	{
		if (st[i].type == DISABLED) continue;
		std::multiset<std::size_t> got;
		const std::size_t c = X::NbCount(*sim, i);
		if (c > st.size() * 2 + 10) { R.V(pid, "count", "particle %zu has %zu neighbours of %zu particles", i, c, st.size()); return false; }
		for (std::size_t k = 0; k < c; k++) got.insert(X::Nb(*sim, i, k));
		for (auto g : got)
		{
			if (g >= st.size()) { R.V(pid, "ghost", "neighbour id %zu of %zu", g, st.size()); return false; }
			if (g == i) { R.V(pid, "self", "particle %zu is its own neighbour", i); return false; }
			if (st[g].type == DISABLED) { R.V(pid, "dead-neighbour", "disabled particle %zu is a neighbour of %zu", g, i); return false; }
			if (got.count(g) > 1) { R.V(pid, "duplicate", "neighbour %zu of %zu listed %zu times", g, i, got.count(g)); return false; }
		}
		for (std::size_t j = 0; j < st.size(); j++)
		{
			if (j == i || st[j].type == DISABLED) continue;
			L r2 = 0; for (int d = 0; d < D; d++) r2 += ((L)st[j].x[d] - st[i].x[d]) * ((L)st[j].x[d] - st[i].x[d]);
			const L q = std::sqrt(r2) / (L)NL;
			if (q < 1 - 1e-11L && !got.count(j)) { R.V(pid, "missed", "neighbour %zu of %zu at distance %.6Lg NL missing (%.9g,%.9g)-(%.9g,%.9g)", j, i, q, st[i].x[0], st[i].x[1], st[j].x[0], st[j].x[1]); return false; }
			if (q > 1 + 1e-11L && got.count(j)) { R.V(pid, "too-far", "particle %zu at distance %.6Lg NL is a neighbour of %zu", j, q, i); return false; }
			if (q < 1) R.S("pairs");
		}
		R.S("lists");
	}
	return true;
}

static void ModeSearch(Rng& r)
{
	Scene s;
	if (r.p(0.6)) { Options o; o.exits = r.p(0.3); o.maxN = r.p(0.05) ? 900 : 140; s = gen::Make(r, o); }
	else
	{
		s.e = RandomBox(r); s.tag = "box";
		const int n = r.i(0, D == 3 ? 150 : 120);
		for (int k = 0; k < n; k++)
		{
			P p; p.type = r.p(0.8) ? FLUID : r.i(0, 3);
			for (int d = 0; d < D; d++) p.x[d] = r.p(0.4) ? NearBorder(r, s.e.mn[d], s.e.NL(), s.e.mx[d]) : r.in(s.e.mn[d] - 0.2 * s.e.NL(), s.e.mx[d] + r.pick<double>({0.1, 1, 4}) * s.e.NL());
			s.ps.push_back(p);
		}
		s.setBase();
	}
#ifndef SANITIZED
	if (D == 2 && s.ps.size() < 200 && s.e.re < 2.7 && r.p(0.0015)) { gen::Pad(s, r, (std::size_t)r.i(66000, 68000)); s.setBase(); R.S("more_than_65536"); }
#endif
	R.ctx = gen::Describe(s);
	Sim sim(s, 1e-8, 0.001);
	auto st = s.ps;
	const int rounds = s.ps.size() > 60000 ? 1 : r.i(1, 4);
	for (int q = 0; q < rounds; q++)
	{
		const Out o = Try([&] { X::Search(*sim); });
		if (o == Out::Crowd)
		{
			if (!Crowded(st, s.e)) R.V("N01", "spurious-overflow", "search fails although no place is crowded");
			R.S("overflows");
		}
		else if (o != Out::Ok) { R.V("N01", "error", "search raises an unexpected error"); return; }
		else if (!CheckLists("N01", sim, s, st)) return;
		R.S("searches");
		st = sim.State();
		// new positions, some new particles
		for (std::size_t i = 0; i < st.size(); i++) if (r.p(0.7)) { for (int d = 0; d < D; d++) st[i].x[d] += s.e.NL() * r.in(-1, 1) * (r.p(0.2) ? 3 : 0.3); sim.Poke(i, st[i]); }
		if (r.p(0.4))
		{
			std::vector<P> add(r.i(1, 10));
			for (auto& p : add) { p.type = r.i(0, 3); for (int d = 0; d < D; d++) p.x[d] = r.in(s.e.mn[d], s.e.mx[d]); }
			sim.Add(add); st.insert(st.end(), add.begin(), add.end());
		}
	}
	if (R.cur < 2) R.Sample(R.ctx);
}

// reference density (and lambda) for all radii and spacings
static void ModeN0(Rng& r)
{
	EnvP e;
	e.l0 = r.p(0.3) ? r.pick<double>({0.1, 1.0, 0.008, 0.05}) : r.lg(1e-6, 1e4);
	e.re = r.p(0.2) ? r.pick<double>({1.5, 2.0, 2.1, 2.4, 2.5, 3.0, 3.1, 4.0, 4.1, 1.8}) : r.in(1.05, D == 3 ? 4 : 6);
	e.courant = r.in(0.01, 0.5); e.g = r.in(0, 20);
	for (int d = 0; d < D; d++) { e.mn[d] = r.in(-10, 0) * e.l0; e.mx[d] = r.in(0, 10) * e.l0; }
	R.ctx = "re=" + G(e.re) + " l0=" + G(e.l0);
	const auto env = MakeEnv(e);
	const auto q = ref::Lattice(e.re, e.l0);
	if (!Close(env.N0(), q.n0, 1e-11L * (1 + q.n0))) R.V("N02", "n0", "reference density %.15g instead of %.15Lg", env.N0(), q.n0);
#ifndef MPS_HL
	if (!Close(env.Lambda(), q.lambda, 1e-10L * q.lambda)) R.V("N02", "lambda", "lambda %.15g instead of %.15Lg", env.Lambda(), q.lambda);
#endif
	// weight function
	for (int k = 0; k < 10; k++)
	{
		const double re = r.lg(1e-4, 1e4), x = r.p(0.1) ? re : r.p(0.1) ? re * (1 + 1e-15) : re * r.lg(1e-6, 1.3);
		const double w = OpenMps::Particle::W(x, re);
		const L ex = ref::W(x, re);
		if (!Close(w, ex, 4e-15L * (re / x))) R.V("N02", "weight", "W(%.17g,%.17g)=%.17g instead of %.17Lg", x, re, w, ex);
	}
	R.S("envs");
	if (R.cur < 2) R.Sample(R.ctx + " n0=" + G(env.N0()));
}

static bool CheckDensity(const char* pid, const Scene& s, Sim& sim, const std::vector<P>& before, const char* what)
{
	auto after = sim.State();
	const St a(after);
	Model m = MakeModel(s, sim);
	m.Cc = Model::Cond(a.x, a.ty, s.e.l0);
	const Field f = m.MakeField(a.x, a.ty);
	const double rel = Rel(Model::Cond(a.x, a.ty, f.rmin));
	for (std::size_t i = 0; i < after.size(); i++)
	{
		if (after[i].type == FLUID || after[i].type == WALL)
		{
			const L ex = ref::SPP ? std::max(f.nraw[i], m.n0) : f.nraw[i];
			R.S("densities"); if (ex > m.n0) R.S("above_n0"); else R.S("filled_or_sparse");
			if (!Close(after[i].n, ex, rel * (f.ntol[i] + m.n0) + (f.ambRe ? 1e-8L : 0))) { R.V(pid, "density", "%s: density of particle %zu (type %d) is %.15g instead of %.15Lg (n0 %.9Lg)", what, i, after[i].type, after[i].n, ex, m.n0); return false; }
		}
		else if (!SameBits(after[i].n, before[i].n)) { R.V(pid, "kept", "%s: stored density of particle %zu (type %d) changed from %.15g to %.15g", what, i, after[i].type, before[i].n, after[i].n); return false; }
	}
	return true;
}

static void ModeDensity(Rng& r)
{
	Options o; o.maxN = r.p(0.005) ? 2500 : r.p(0.05) ? 600 : 120; o.exits = r.p(0.2);
	Scene s = gen::Make(r, o);
#ifndef SANITIZED
	if (s.ps.size() < 300 && r.p(0.006)) { gen::Pad(s, r, (std::size_t)r.i(6000, 12500)); R.S("distant_indices"); }
#endif
	R.ctx = gen::Describe(s);
	const double dt = StepSize(s, r);
	Sim sim(s, s.eps, dt);
	auto st = s.ps;
	for (int q = r.p(0.3) ? 0 : r.i(0, 3); q > 0; q--) if (Try([&] { sim.Step(dt * r.in(0.3, 1)); }) != Out::Ok) break;
	for (int round = r.i(1, 3); round > 0; round--)
	{
		if (Try([&] { X::Search(*sim); }) != Out::Ok) { R.S("skipped"); return; }
		st = sim.State();
		X::Densities(*sim);
		if (!CheckDensity("N02", s, sim, st, "after search")) return;
		R.S("passes");
		// move everybody by up to half the margin and recompute without a new search
		st = sim.State();
		const double lim = 0.499 * (s.e.NL() - s.e.Re());
		for (std::size_t i = 0; i < st.size(); i++)
		{
			double v[3], m = 0; for (int d = 0; d < D; d++) { v[d] = r.in(-1, 1); m += v[d] * v[d]; }
			m = std::sqrt(m); if (m == 0) continue;
			const double k = lim * (r.p(0.7) ? 0.999 : r.u());
			for (int d = 0; d < D; d++) st[i].x[d] += v[d] / m * k;
			st[i].n = r.in(0, 30);
			sim.Poke(i, st[i]);
		}
		X::Densities(*sim);
		if (!CheckDensity("N02", s, sim, st, "after motion within the margin")) return;
		R.S("moved_passes");
	}
	// density stored by a whole step belongs to the positions after the explicit stage: reproduce these with the real stages
	{
		Scene s2 = s; s2.ps = sim.State(); s2.mo.kind = 0; s2.setBase();
		for (auto& p : s2.ps) if (p.type == DISABLED) {}
		const double h = StepSize(s2, r) * 0.5;
		Sim a(s2, 1e-8, h), b(s2, 1e-8, h);
		if (Try([&] { X::Search(*b); X::Densities(*b); X::Explicit(*b); }) != Out::Ok) return;
		if (Try([&] { a.Step(h); }) != Out::Ok) return;
		const auto fb = b.State(), fa = a.State();
		const St q(fb);
		Model m = MakeModel(s2, a);
		m.Cc = Model::Cond(q.x, q.ty, s2.e.l0);
		const Field f = m.MakeField(q.x, q.ty);
		// only if nobody moved farther than the margin allows
		for (std::size_t i = 0; i < fb.size(); i++) if (fb[i].type != DISABLED)
		{
			double v = 0; for (int d = 0; d < D; d++) v += (fb[i].x[d] - s2.ps[i].x[d]) * (fb[i].x[d] - s2.ps[i].x[d]);
			if (std::sqrt(v) > 0.499 * (s2.e.NL() - s2.e.Re())) return;
		}
		const double rel = Rel(Model::Cond(q.x, q.ty, f.rmin)) * 10;
		for (std::size_t i = 0; i < fa.size(); i++)
		{
			if (fa[i].type == FLUID || fa[i].type == WALL)
			{
				const L ex = ref::SPP ? std::max(f.nraw[i], m.n0) : f.nraw[i];
				if (!Close(fa[i].n, ex, rel * (f.ntol[i] + m.n0) + (f.ambRe ? 1e-8L : 0))) { R.V("N02", "step-density", "after a step the density of particle %zu is %.15g instead of %.15Lg", i, fa[i].n, ex); return; }
			}
			else if (!SameBits(fa[i].n, s2.ps[i].n)) { R.V("N02", "step-kept", "after a step the stored density of particle %zu (type %d) changed", i, fa[i].type); return; }
		}
		R.S("step_passes");
	}
	if (R.cur < 2) R.Sample(R.ctx);
}
