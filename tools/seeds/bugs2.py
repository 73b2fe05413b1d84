C = "src/OpenMps/Computer.hpp"; G = "src/OpenMps/Grid.hpp"; EN = "src/OpenMps/Environment.hpp"; M = "src/OpenMps/Main.cpp"; PA = "src/OpenMps/Particle.hpp"
B = []
def bug(id, prop, file, edits, needs, breaks, cpp=None, flags="", py=None, omp=True):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, cpp=cpp, flags=flags, py=py, omp=omp))

bug("N11-wallstays", "N11", C, [("					if(!ok)\n					{", "					if(!ok && (particles[i].TYPE() != Particle::Type::Wall))\n					{")],
 "a wall particle that is moved outside the area", "A wall outside the area stays enabled with whatever neighbour list it had before.",
 r'''int main() { E e; auto ps = Block(e.l0, 3, 1, 3, 1, 1, 1); ps.push_back(Mk(WL, V(0.05, 1, 1))); S s(e, ps); s.wall = [&s](std::size_t i, double t, double) { return Vector(s.x0[i] - V(300 * t, 0, 0)); };
 for (int k = 0; k < 3; k++) s->ForwardTime(0.001); return s.P().back().TYPE() == DI ? 0 : Fail("wall outside the area is not disabled"); }''')

bug("N11-comeback", "N11", C, [("				// 無効粒子は格納しない\n				if(particles[i].TYPE() != Particle::Type::Disabled)\n				{", "				// 無効粒子は領域外にあるので格納されない\n				{"),
  ("						if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled))", "						if(j != i)")],
 "a disabled particle that lies inside the area (after a restart, or one carried back by the motion function)", "Disabled particles inside the area take part again as neighbours.",
 r'''int main() { E e; auto ps = Block(e.l0, 4, 1, 4, 1, 1, 1); auto q = ps; q.push_back(Mk(DI, V(1.15, 1, 1.15))); S s(e, ps), t(e, q); s->ForwardTime(0.001); t->ForwardTime(0.001);
 for (std::size_t i = 0; i < ps.size(); i++) if (Dist(s.P()[i].X(), t.P()[i].X()) > 1e-9 || !Near(s.P()[i].N(), t.P()[i].N(), 1e-9)) return Fail("a disabled particle has influence"); return 0; }''')

bug("N11-addfilter", "N11", C, [("""			const auto n = particles.size();

			neighbor.resize(boost::extents""", """			// 既に無効な粒子は計算に関与しないので取り除く
			while(!particles.empty() && (particles.back().TYPE() == Particle::Type::Disabled))
			{
				particles.pop_back();
			}

			const auto n = particles.size();

			neighbor.resize(boost::extents""")],
 "an addition whose last particles are disabled", "Trailing disabled particles are dropped, so the number of particles changes.",
 r'''int main() { E e; auto ps = Block(e.l0, 2, 1, 2, 1, 1, 1); ps.push_back(Mk(DI, V(1.5, 1, 1.15))); S s(e, ps); s->ForwardTime(0.001); return s.P().size() == ps.size() ? 0 : Fail("particle lost"); }''')

bug("N12-absgap", "N12", C, [("if (r_g > std::numeric_limits<double>::epsilon())", "if (r_g > 1e-6)")],
 "small spacing (or small length units), or nearly symmetric surroundings of a surface particle", "Whether the free-surface particle acts depends on an absolute length.",
 r'''int main() { double n[2], u[2]; for (int k = 0; k < 2; k++) { const double L = k ? 1e-5 : 1; E e; e.l0 *= L; e.g = 0; e.nu = 0; for (int d = 0; d < 3; d++) e.hi[d] *= L; auto ps = Block(0.1 * L, 5, 1, 5, L, L, L); Rnd r{3}; for (auto& q : ps) { q.X() += V(0.01 * L * r(), 0, 0.01 * L * r()); q.U() = V(-L * r(), 0, -L * r()); }
 S s(e, ps); s->ForwardTime(0.001); n[k] = s.P()[12].P() / (L * L); u[k] = s.P()[7].U()[0] / L; }
 return Near(n[0], n[1], 1e-6 * std::abs(n[0])) && Near(u[0], u[1], 1e-6 * std::abs(u[0])) ? 0 : Fail("depends on the unit of length"); }''')

bug("N12-gsds", "N12", C, [("					du[i] = result;\n				}\n			}\n\n			// 全粒子で\n			OMP_PARALLEL_FOR\n#ifdef SIGNED_LOOP_COUNTER\n			for (auto ii = std::make_signed_t<decltype(n)>{0}; ii < static_cast<std::make_signed_t<decltype(n)>>(n); ii++)\n			{\n				const auto i = static_cast<decltype(n)>(ii);\n#else\n			for (auto i = decltype(n){0}; i < n; i++)\n			{\n#endif\n				// 水粒子のみ\n				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)\n				{\n					// 位置・速度を修正\n					const auto thisDu = du[i];\n					particles[i].U() += thisDu;\n					particles[i].X() += thisDu * dt;\n				}\n			}",
 "					du[i] = result;\n					particles[i].U() += result;\n					particles[i].X() += result * dt;\n				}\n			}")],
 "two or more particles that are too close, in a particular order", "Pushes are applied while others are still being computed: the result depends on the numbering (and on the schedule).",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.05, 1, 1.01)), Mk(F, V(1.09, 1, 1.02))}, qs(ps.rbegin(), ps.rend()); 
#ifdef _OPENMP
 omp_set_num_threads(1);
#endif
 S s(e, ps), t(e, qs); s->ForwardTime(0.001); t->ForwardTime(0.001); for (int i = 0; i < 3; i++) if (Dist(s.P()[i].U(), t.P()[2 - i].U()) > 1e-6) return Fail("depends on the numbering"); return 0; }''')

bug("N12-originr", "N12", C, [("				// 影響半径内のみ\n					const auto dx = particles[j].X() - thisX;".replace("				//", "					//"), "					// 影響半径内のみ\n					const Vector dx = VectorZero + particles[j].X() - thisX;")] if False else
 [("			const auto r = x1 - x2;\n			return std::sqrt(boost::numeric::ublas::inner_prod(r, r));", "			// 内積3回で計算（差のベクトルを作らない）\n			namespace ublas = boost::numeric::ublas;\n			const auto r2 = ublas::inner_prod(x1, x1) - 2 * ublas::inner_prod(x1, x2) + ublas::inner_prod(x2, x2);\n			return std::sqrt(std::max(r2, 0.0));")],
 "particles far from the origin compared with their spacing", "Distances lose their digits away from the origin, so shifting everything changes the result.",
 r'''int main() { E e; e.g = 0; auto run = [](double off, std::vector<double>& o) { E e; for (int d = 0; d < 3; d++) { e.lo[d] += off; e.hi[d] += off; } auto ps = Block(0.1, 4, 1, 4, 1 + off, 1 + off, 1 + off); Rnd r{3}; for (auto& q : ps) q.U() = V(-r(), 0, -r());
 S s(e, ps); s->ForwardTime(0.001); for (auto& q : s.P()) o.push_back(q.N()); };
 std::vector<double> a, b; run(0, a); run(65536, b); for (std::size_t i = 0; i < a.size(); i++) if (!Near(a[i], b[i], 1e-6)) return Fail("depends on the origin"); return 0; }''', "-DD_NOSPP")

bug("N13-relclip", "N13", C, [("			// 得た圧力を代入する\n", "			// 最大圧力に対して無視できる圧力は0とみなす\n			double maxP = 0;\n			for (auto i = decltype(n){0}; i < n; i++)\n			{\n				const double p = ppe.x(i);\n				maxP = std::max(maxP, p);\n			}\n			const auto negligibleP = maxP * 1e-3;\n\n			// 得た圧力を代入する\n"),
  ("					particles[i].P() = ((p < 0)\n", "					particles[i].P() = ((p < negligibleP)\n")],
 "a gentle group of particles together with a distant violent one", "Small pressures are dropped when some distant group has much larger ones.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.eps = 1e-12; auto a = Block(0.085, 5, 1, 5, 0.5, 1, 0.5); for (auto& q : a) q.U() = V(-0.0001 * q.X()[0], 0, 0); auto b = Block(0.085, 5, 1, 5, 3, 1, 3); for (auto& q : b) q.U() = V(-5 * (q.X()[0] - 3), 0, 0);
 auto ab = a; ab.insert(ab.end(), b.begin(), b.end()); S s(e, a), t(e, ab); s->ForwardTime(0.001); t->ForwardTime(0.001); double big = 0; for (auto& q : s.P()) big = std::max(big, q.P());
 for (std::size_t i = 0; i < a.size(); i++) if (!Near(s.P()[i].P(), t.P()[i].P(), 1e-5 * big)) return Fail("a distant group changes the pressure"); return big > 0 ? 0 : Fail("no pressure"); }''')

bug("N13-errmean", "N13", C, [("			const auto n0 = environment.N0();\n#ifndef MPS_SPP\n			const auto surfaceRatio = environment.SurfaceRatio;\n#endif\n\n			// 全粒子で\n			const auto n = particles.size();\n			OMP_PARALLEL_FOR", "			const auto n0 = environment.N0();\n#ifndef MPS_SPP\n			const auto surfaceRatio = environment.SurfaceRatio;\n#endif\n\n			// 全粒子で\n			const auto n = particles.size();\n			double maxN = 0;\n			for(const auto& p : particles)\n			{\n				maxN = std::max(maxN, p.N());\n			}\n			const auto limit = 0.3 * maxN / n0; // 誤差の上限\n			OMP_PARALLEL_FOR"),
  ("					const auto error = (thisN - n0) / n0;\n					ecs", "					const auto error = std::min((thisN - n0) / n0, limit);\n					ecs")],
 "a strongly compressed group together with an even denser distant one", "The error correction is limited by the densest particle anywhere.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.eps = 1e-11; auto a = Block(0.08, 5, 1, 5, 0.5, 1, 0.5); for (auto& q : a) q.U() = V(-0.5 * q.X()[0], 0, 0); auto b = Block(0.07, 5, 1, 5, 3, 1, 3); for (auto& q : b) q.U() = V(-0.5 * (q.X()[0] - 3), 0, 0);
 auto ab = a; ab.insert(ab.end(), b.begin(), b.end()); S s(e, a), t(e, ab); s->ForwardTime(0.001); t->ForwardTime(0.001); double big = 0; for (auto& q : s.P()) big = std::max(big, q.P());
 for (std::size_t i = 0; i < a.size(); i++) if (!Near(s.P()[i].P(), t.P()[i].P(), 1e-5 * big)) return Fail("a distant group changes the pressure"); return big > 0 ? 0 : Fail("no pressure"); }''')

bug("N14-shared", "N14", C, [("			// 加速度\n			auto& a = du;\n", "			// 加速度\n			auto& a = du;\n\n			// 粘性（繰り返しごとに作らない）\n			Vector vis = VectorZero;\n"),
  ("					const auto vis = AccumulateNeighbor<Detail::Field::Name::U", "					vis = AccumulateNeighbor<Detail::Field::Name::U")],
 "two or more threads working on viscous fluid at the same time", "A temporary is shared between the threads of the explicit stage.",
 r'''int main() { omp_set_num_threads(8); E e; e.hi[0] = 20; e.hi[2] = 20; e.nu = 0.01; auto ps = Block(0.1, 60, 1, 60, 1, 1, 1); Rnd r{3}; for (auto& q : ps) q.U() = V(r(), 0, r());
 S ref(e, ps, 0.001); omp_set_num_threads(1); X::Search(*ref); X::Densities(*ref); X::Explicit(*ref); omp_set_num_threads(8);
 for (int k = 0; k < 150; k++) { S s(e, ps, 0.001); X::Search(*s); X::Densities(*s); X::Explicit(*s); for (std::size_t i = 0; i < ps.size(); i++) if (s.P()[i].U()[0] != ref.P()[i].U()[0]) return Fail("threads disagree"); } return 0; }''')

bug("N14-cachew", "N14", PA, [("			return ((0 < r) && (r < r_e)) ? (r_e / r - 1) : 0;", "			static double lastR = -1, lastRe = -1, lastW = 0; // 同じ距離で続けて呼ばれることが多いので\n			if((r != lastR) || (r_e != lastRe))\n			{\n				lastR = r;\n				lastRe = r_e;\n				lastW = ((0 < r) && (r < r_e)) ? (r_e / r - 1) : 0;\n			}\n			return lastW;")],
 "two or more threads evaluating the weight at the same time", "The weight function keeps unprotected state shared by all threads.",
 r'''int main() { omp_set_num_threads(8); E e; e.hi[0] = 20; e.hi[2] = 20; auto ps = Block(0.1, 60, 1, 60, 1, 1, 1); Rnd r{3}; for (auto& q : ps) q.X() += V(0.03 * r(), 0, 0.03 * r());
 S ref(e, ps, 0.001); omp_set_num_threads(1); X::Search(*ref); X::Densities(*ref); omp_set_num_threads(8);
 for (int k = 0; k < 60; k++) { S s(e, ps, 0.001); X::Search(*s); X::Densities(*s); for (std::size_t i = 0; i < ps.size(); i++) if (s.P()[i].N() != ref.P()[i].N()) return Fail("threads disagree"); } return 0; }''')

bug("N14-gridlock", "N14", C, [("				// ダミー粒子と無効粒子を除く\n				if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))\n				{\n					// 粒子数密度を計算する", "				// ダミー粒子と無効粒子を除く\n				if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))\n				{\n					if((n > 2) && (i + 1 < n) && (particles[i + 1].TYPE() == Particle::Type::Dummy))\n					{\n						particles[i + 1].P() = 0; // ダミー粒子に圧力はない\n					}\n\n					// 粒子数密度を計算する")] if False else
 [("				auto& particle = particles[i];\n#ifdef MPS_SPP\n				nWithoutSpp[i] = n0;\n#endif", "				auto& particle = particles[i];\n#ifdef MPS_SPP\n				nWithoutSpp[i] = n0;\n				if(i + 1 < n)\n				{\n					nWithoutSpp[i + 1] = n0; // 先に初期化しておく\n				}\n#endif")],
 "two or more threads, at the border between the ranges of two threads", "A thread initialises an element that another thread computes: a race that can lose the value.",
 r'''int main() { omp_set_num_threads(8); E e; e.hi[0] = 20; e.hi[2] = 20; e.g = 0; e.nu = 0; std::vector<Particle> ps;
 for (int k = 0; k < 16; k++) { ps.push_back(Mk(F, V(1 + 0.5 * k, 1, 1))); ps.push_back(Mk(F, V(1.1 + 0.5 * k, 1, 1.02))); } for (auto& q : ps) q.P() = 0;
 auto e2 = e; S s(e2, ps, 0.001); for (int k = 0; k < 20000; k++) { X::Search(*s); X::Densities(*s); X::SetPpe(*s); auto& A = X::Ppe(*s).tempA; for (std::size_t i = 0; i < ps.size(); i++) { double off = 0; const std::size_t j = i ^ 1; off = A(i, j); if (!(A(i, i) < -off * 1.5)) return Fail("lost update"); } if (k % 50 == 0) omp_set_num_threads(2 + k / 50 % 7); } return 0; }''')

bug("N15-nb3d", "N15", C, [("grid.MaxParticles()*Grid::MAX_NEIGHBOR_BLOCK)]", "grid.MaxParticles()*Grid::MAX_NEIGHBOR_BLOCK1)]")],
 "an area where the particles are crowded (more neighbours than three full blocks)", "The neighbour list is too short for crowded particles and is written past its end.",
 r'''int main() { E e; std::vector<Particle> ps; Rnd r{5}; const double c = 4 * e.Make().NeighborLength; for (int i = 0; i < 300; i++) ps.push_back(Mk(F, V(c - 0.1 + 0.2 * r(), c - 0.1 + 0.2 * r(), c - 0.1 + 0.2 * r()))); S s(e, ps); try { X::Search(*s); } catch (const std::exception&) { return 0; }
 for (std::size_t i = 0; i < ps.size(); i++) { std::size_t n = 0; for (std::size_t j = 0; j < ps.size(); j++) n += j != i && Dist(ps[i].X(), ps[j].X()) < s->GetEnvironment().NeighborLength; if (X::NbCount(*s, i) != n) return Fail("neighbours lost"); } return 0; }''', "-D_GLIBCXX_ASSERTIONS")

bug("N15-reserve", "N15", C, [("			ecs.resize(n);", "			ecs.reserve(n);")] , 
 "any step of the default build under a memory checker", "The error-correction storage is never sized: every access is out of bounds.",
 r'''int main() { E e; auto ps = Block(e.l0, 4, 1, 4, 1, 1, 1); S s(e, ps); s->ForwardTime(0.001); return 0; }''', "-D_GLIBCXX_ASSERTIONS")

bug("N15-initpos", "N15", M, [("	auto initialPosition = std::make_unique<OpenMps::Vector[]>(particles.size());\n	std::transform(particles.cbegin(), particles.cend(), initialPosition.get(),",
 "	// （流体の初期位置は使わないので、最後の壁・ダミー粒子までで良い）\n	auto last = particles.cend();\n	while((last != particles.cbegin()) && ((last - 1)->TYPE() == OpenMps::Particle::Type::IncompressibleNewton))\n	{\n		--last;\n	}\n	auto initialPosition = std::make_unique<OpenMps::Vector[]>(static_cast<std::size_t>(last - particles.cbegin()));\n	std::transform(particles.cbegin(), last, initialPosition.get(),")],
 "a fluid particle listed after the last wall that leaves the area", "The position of such a particle is read past the end of the stored initial positions once it is disabled.",
 py='''r = run(xml(table([(1, 0.5, 0.5, 0, 0, 0, 0)] + [(0, 1.0 + 0.1 * (k % 10), 0.1 * (k // 10), 0, 0, 0, 0) for k in range(200)] + [(0, 77.25 + k, 33.5, 0, 0, 0, 0) for k in range(40)])))
check(r.rc == 0, "run ended with %s" % r.rc)
for k, v in enumerate(rows(r.frames[frame(2)])[201:]): check(v[:3] == [3, 77.25 + k, 33.5], "disabled particle at %s" % v[:3])''')

bug("N16-tab", "N16", M, [("					return (c == ' ') || (c == '\\t');", "					return (c == ' ');")],
 "tables that separate their header columns with tabs", "Tabs in the table are no longer ignored.",
 py='''a = run(xml(table([(0, 0.5, 0.5, 0.1, 0, 0, 0)])))
b = run(xml(table([(0, 0.5, 0.5, 0.1, 0, 0, 0)], "Type,\\tx,\\tz,\\tu, w,p,\\tn")))
check(a.rc == 0 and b.rc == 0 and a.frames == b.frames, "a table with tabs is read differently")''')

bug("N16-emptyline", "N16", M, [("			if (data.size() > 0) // 空行は飛ばす\n			{", "			if (data.size() == 0) // 空行で終わり\n			{\n				if (particles.size() > 0)\n				{\n					break;\n				}\n			}\n			else\n			{")],
 "a particle table with an empty line between the rows", "Rows after an empty line are lost.",
 py='''r = run(xml("\\n" + HEAD + "\\n0, 0.5, 0.5, 0, 0, 0, 0\\n\\n1, 1, 1, 0, 0, 0, 0\\n"))
check(r.rc == 0 and len(rows(r.frames[frame(0)])) == 2, "rows after an empty line are missing")''')

bug("N16-maxz", "N16", M, [('const double maxX = xml.get<double>("openmps.environment.maxX.<xmlattr>.value");', 'const double maxX = std::max(xml.get<double>("openmps.environment.maxX.<xmlattr>.value"), minX + 20 * l_0);')],
 "an area narrower than twenty spacings", "The horizontal limit of a narrow area is not the given one.",
 py='''r = run(xml(table([(0, 2.5, 0.5, 0, 0, 0, 0), (0, 0.5, 0.5, 0, 0, 0, 0)]), minX=0, maxX=1))
check(r.rc == 0, "run"); check([int(x[0]) for x in rows(r.frames[frame(1)])] == [3, 0], "a particle beyond the right limit is still simulated")''')

bug("N16-signed", "N16", M, [("				particle.U()[OpenMps::AXIS_X] = stov<double>(data.at(header[\"u\"]));", "				particle.U()[OpenMps::AXIS_X] = stov<double>(data.at(header[\"u\"]));"), ("		// 粒子数を表示", "		// 圧力は非負\n		for (auto& particle : particles)\n		{\n			particle.P() = std::abs(particle.P());\n		}\n\n		// 粒子数を表示")],
 "an input with a negative pressure value", "Pressures lose their sign while loading.",
 py='''r = run(xml(table([(2, 0.5, 0.5, 0, 0, -3.5, 0)])))
check(r.rc == 0 and rows(r.frames[frame(0)])[0][5] == -3.5, "pressure column")''')

bug("N17-count", "N17", M, [("			if (particle.TYPE() != OpenMps::Particle::Type::Disabled)\n			{", "			if (particle.TYPE() != OpenMps::Particle::Type::Dummy)\n			{")],
 "inputs with dummy particles, or particles that have left the area", "The progress lines count disabled particles and leave out dummies.",
 py='''import re
r = run(xml(table([(0, 0.5, 0.5, 0, 0, 0, 0), (2, 1, 1, 0, 0, 0, 0), (0, 50, 1, 0, 0, 0, 0), (0, -50, 1, 0, 0, 0, 0)])))
n = [int(x) for x in re.findall(r"(\\d+) particles, @", r.out)]
check(n == [4, 2, 2], "live particles %s" % n)''')

bug("N17-drift", "N17", M, [("			nextOutputT += condition.OutputInterval;", "			nextOutputT = tComputer + condition.OutputInterval;")],
 "steps that do not divide the output interval (fast flow), over several intervals", "Output times drift by the overshoot of every interval.",
 py='''import re
r = run(xml(table([(0, 0.0, 0.5, 3.0, 0, 0, 0)]), g=0, endTime=0.1, minX=-1, maxX=30, courant=0.13, minStepCountPerOutput=1))
t = [float(x) for x in re.findall(r"t=\\s*([0-9.eE+-]+)", r.out)]
check(len(t) == 11, "frames")
dt = 0.13 * 0.1 / 3.0
for k, v in enumerate(t):
    check(k * 0.01 - 1e-3 <= v < k * 0.01 + dt + 1e-4, "frame %d at %s" % (k, v))''')

bug("N17-steps", "N17", M, [("				iteration++;\n", "				if(tComputer < nextOutputT)\n				{\n					iteration++;\n				}\n")],
 "more than one output interval", "The step that completes an interval is not counted, so fewer steps than configured are reported.",
 py='''import re
r = run(xml(table([(0, 0.5, 0.5, 0, 0, 0, 0)]), endTime=0.05, minStepCountPerOutput=3, outputInterval=0.01))
n = [int(x) for x in re.findall(r"t=\\s*[0-9.eE+-]+ \\((\\d+)\\)", r.out)]
check(len(n) == 6 and all(v >= 3 * k for k, v in enumerate(n)), "steps %s" % n)''')

bug("N18-skipdisabled", "N18", M, [("				particles.push_back(std::move(particle));", "				// 領域外に出た粒子は計算しない\n				if ((particle.TYPE() != OpenMps::Particle::Type::Disabled) || (particle.N() == 0))\n				{\n					particles.push_back(std::move(particle));\n				}")],
 "restarting from a frame in which a particle has been disabled after having had neighbours", "Disabled particles of a frame are lost when it is used as input.",
 py='''t = xml(table([(0, 0.5, 0.5, 0, 0, 0, 0), (0, 50, 1, 0, 0, 0, 2.5), (0, 0.6, 0.5, 0, 0, 0, 0)]))
r = run(t); f = r.frames[frame(1)]
s = run(xml("\\n" + f, startTime=0.01, endTime=0.02)); check(s.rc == 0 and s.frames[frame(1)] == f, "initial frame of the continued run differs")''')

bug("N18-offset", "N18", M, [("		const auto count = OutputToCsv(computer, outputIterationOffset);", "		const auto count = OutputToCsv(computer, (condition.StartTime > 0) ? std::max<std::size_t>(1, outputIterationOffset) - 1 + (outputIterationOffset > 9 ? 0 : 1) : outputIterationOffset);")],
 "continuing from the tenth frame or later", "The initial frame of a continued run gets the previous number.",
 py='''r = run(xml(table([(0, 0.5, 0.5, 0, 0, 0, 0)]), endTime=0.12))
s = run(xml("\\n" + r.frames[frame(11)], startTime=0.11, endTime=0.12)); check(sorted(s.frames) == [frame(11), frame(12)], "frames %s" % sorted(s.frames))''')

bug("N18-wallp", "N18", M, [("	// 粒子を追加\n	computer.AddParticles(std::move(particles));", "	// 流体以外の圧力は計算で求まるので初期値は使わない\n	for (auto& particle : particles)\n	{\n		if (particle.TYPE() == OpenMps::Particle::Type::Wall)\n		{\n			particle.P() = std::max(particle.P(), 0.0) * (condition.StartTime > 0 ? 0 : 1);\n		}\n	}\n\n	// 粒子を追加\n	computer.AddParticles(std::move(particles));")],
 "a continued run whose frame has wall pressures", "Wall pressures of a frame are dropped on restart.",
 py='''t = xml(table([(1, 0.5, 0.5, 0, 0, 12.5, 0), (0, 0.6, 0.5, 0, 0, 3.5, 0)]), startTime=0.01, endTime=0.01)
r = run(t); check(rows(r.frames[frame(1)])[0][5] == 12.5, "wall pressure of the initial frame")''')

bug("N19-continue", "N19", M, [("				<< ex.what() << std::endl;\n			break;", "				<< ex.what() << std::endl;\n			if (tComputer >= nextOutputT - condition.OutputInterval / 2)\n			{\n				continue;\n			}\n			break;")],
 "a step that fails in the second half of an output interval", "The run goes on after the failure and writes later frames.",
 py='''import re
seen = 0
for k in range(14):
    gap = 0.150 + 0.004 * k
    a = [(0, 0.5 + 0.092 * i, 0.2 + 0.092 * j, 0, 0, 0, 0) for i in range(6) for j in range(5)]
    b = [(0, 0.5 + 0.092 * i, 0.2 + 0.092 * 4 + gap + 0.092 * j, 0, -2.0, 0, 0) for i in range(6) for j in range(5)]
    r = run(xml(table(a + b), g=0, nu=0, endTime=0.06, minStepCountPerOutput=10, eps=1e-150))
    if "!!!!ERROR!!!!" not in r.out: continue
    seen += 1
    n = int(re.search(r"#(\\d+): t=", r.out.split("!!!!ERROR!!!!")[1]).group(1))
    check(r.out.count("!!!!ERROR!!!!") == 1, "several failures reported in one run")
    check(sorted(r.frames) == [frame(q) for q in range(n)], "frames %s, failed interval %d" % (sorted(r.frames), n))
check(seen > 0, "no failing run")''')

bug("N19-logic", "N19", C, [("		struct Exception : public std::runtime_error\n		{\n			template<typename... T>\n			Exception(T&&... v)\n				: std::runtime_error{ std::forward<T>(v)... }", "		struct Exception : public std::logic_error\n		{\n			template<typename... T>\n			Exception(T&&... v)\n				: std::logic_error{ std::forward<T>(v)... }")],
 "a pressure equation that cannot be solved within the tolerance", "The solver's error is no longer a runtime error, so the program dies instead of reporting it.",
 py='''r = run(xml(table([(0, 0.5 + 0.09 * i, 0.5 + 0.09 * k, -0.3 * i, 0.2 * k * (i - 2), 0, 0) for i in range(6) for k in range(6)]), eps=1e-150))
check(r.rc == 0 and "!!!!ERROR!!!!" in r.out and "finished" in r.out, "the failure is not reported: %s %s" % (r.rc, r.err[-200:]))''')

bug("N19-early", "N19", M, [("			// 次の出力時間まで\n", "			// 書き込めることを先に確認しておく\n			OutputToCsv(computer, outputCount + outputIterationOffset);\n\n			// 次の出力時間まで\n")],
 "a step that fails", "A frame for the failed interval is left behind.",
 py='''r = run(xml(table([(0, 0.5 + 0.09 * i, 0.5 + 0.09 * k, -0.3 * i, 0.2 * k * (i - 2), 0, 0) for i in range(6) for k in range(6)]), eps=1e-150))
check(r.rc == 0 and "!!!!ERROR!!!!" in r.out and sorted(r.frames) == [frame(0)], "frames after a failure: %s" % sorted(r.frames))''')

bug("N20-det", "N20", C, [("						- a01 * a10 * a22\n", "						- a10 * a01 * a22 * ((a01 == a10) ? 1 : (a22 / (a22 + (a01 - a10) * 1e-3)))\n")] if False else [("					if (det == 0)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						// 余因子行列式", "					if (std::abs(det) < 1e-9)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						// 余因子行列式")],
 "3D build, a matrix with small elements", "Regular matrices with a small determinant are treated as singular.",
 r'''int main() { for (double s : {1.0, 1e-2, 1e-4, 1e4}) { auto m = OpenMps::Detail::CreateMatrix(2 * s, 0.3 * s, -0.2 * s, 0.1 * s, 1.5 * s, 0.4 * s, 0.2 * s, -0.6 * s, 1.2 * s); auto c = m; const auto v = OpenMps::Detail::InvertMatrix(std::move(c), 0.5);
 for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = 0; for (int k = 0; k < 3; k++) x += v(i, k) * m(k, j); if (!Near(x, i == j, 1e-9)) return Fail("inverse"); } } return 0; }''', "-DD_3D -DD_GC")

bug("N20-cof", "N20", C, [("						const auto A21 = InvertMatrix<2>::Det(\n							a00, a02,\n							a10, a12);", "						const auto A21 = InvertMatrix<2>::Det(\n							a00, a02,\n							a01, a12);")],
 "3D build, an asymmetric matrix", "One cofactor uses the transposed element.",
 r'''int main() { auto m = OpenMps::Detail::CreateMatrix(2.0, 0.3, -0.2, 0.1, 1.5, 0.4, 0.2, -0.6, 1.2); auto c = m; const auto v = OpenMps::Detail::InvertMatrix(std::move(c), 0.5);
 for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = 0; for (int k = 0; k < 3; k++) x += v(i, k) * m(k, j); if (!Near(x, i == j, 1e-9)) return Fail("inverse"); } return 0; }''', "-DD_3D -DD_GC")

bug("N22-portion", "N22", C, [("#ifdef MPS_SPP\n			nWithoutSpp.resize(n);\n#endif\n		}", "#ifdef MPS_SPP\n			nWithoutSpp.resize(n);\n#endif\n\n			// 圧力は次のステップで解き直す\n			if(environment.T() > 0)\n			{\n				for(auto& particle : particles)\n				{\n					if(particle.TYPE() == Particle::Type::Dummy)\n					{\n						particle.U() = VectorZero;\n					}\n				}\n			}\n		}")],
 "particles added after a step while dummies are moving", "Adding particles between steps alters existing dummies.",
 r'''int main() { E e; auto ps = Block(e.l0, 3, 1, 3, 1, 1, 1); ps.push_back(Mk(DU, V(1.4, 1, 1))); S s(e, ps); s.wall = [&s](std::size_t i, double t, double) { return Vector(s.x0[i] + V(t, 0, 0)); }; s->ForwardTime(0.001); const double u = s.P().back().U()[0]; s.Add({Mk(F, V(3, 3, 3))});
 return s.P()[ps.size() - 1].U()[0] == u && u != 0 ? 0 : Fail("existing particle altered"); }''')

bug("N22-frontins", "N22", C, [("			particles.insert(particles.end(),", "			// 容量が足りている間は末尾の無効粒子の前に詰める\n			auto pos = particles.end();\n			while((pos != particles.begin()) && ((pos - 1)->TYPE() == Particle::Type::Disabled))\n			{\n				--pos;\n			}\n			particles.insert(pos,")],
 "an addition after the last existing particles have become disabled", "New particles are not appended but inserted before trailing disabled ones.",
 r'''int main() { E e; auto ps = Block(e.l0, 2, 1, 2, 1, 1, 1); ps.push_back(Mk(F, V(-5, 1, 1))); S s(e, ps); s->ForwardTime(0.001); s.Add({Mk(F, V(3, 3, 3))}); return s.P()[4].TYPE() == DI && s.P()[5].TYPE() == F ? 0 : Fail("order"); }''')

bug("N23-novclstale", "N23", C, [("			auto& A = ppe.tempA;\n#else\n			auto& A = ppe.A;\n#endif\n			A.clear();", "			auto& A = ppe.tempA;\n			A.clear();\n#else\n			auto& A = ppe.A; // 全要素を上書きするのでクリア不要\n#endif")],
 "the uBLAS build, a pair of particles that separates between two steps", "The uBLAS build keeps coefficients of pairs that are no longer neighbours.",
 r'''int main() { E e; e.g = 0; e.nu = 0; auto ps = Block(0.085, 6, 1, 5, 1, 1, 1); for (auto& q : ps) q.U() = V(-0.1 * q.X()[0], 0, 0); S s(e, ps); s->ForwardTime(0.001);
 for (std::size_t i = 0; i < ps.size(); i++) { const int c = i / 5, r = i % 5; s.P()[i] = Mk(F, V(1 + 0.085 * r, 1, 1 + 0.085 * c + (c > 2 ? 0.5 : 0)), V(-0.1 * r, 0, -0.1 * c)); }
 std::vector<Particle> now(s.P()); S t(e, now); bool a = true, b = true; try { s->ForwardTime(0.001); } catch (const std::exception&) { a = false; } try { t->ForwardTime(0.001); } catch (const std::exception&) { b = false; }
 if (!b) return Fail("fresh run fails"); if (a != b) return Fail("one fails"); double big = 0; for (auto& q : t.P()) big = std::max(big, q.P()); if (!(big > 0)) return Fail("no pressure"); for (std::size_t i = 0; i < ps.size(); i++) if (!Near(s.P()[i].P(), t.P()[i].P(), 1e-6 * big)) return Fail("old coefficients"); return 0; }''', "-DD_NOVCL")

bug("N23-ompstale", "N23", C, [("				auto& a_i = ppe.a_ij[i];\n				a_i.clear();", "				auto& a_i = ppe.a_ij[i]; // 同じ列は後から上書きされる")],
 "the build with OpenMP, a pair of particles that separates between two steps", "The OpenMP build keeps coefficients of pairs that are no longer neighbours.",
 r'''int main() { E e; e.g = 0; e.nu = 0; auto ps = Block(0.085, 6, 1, 5, 1, 1, 1); for (auto& q : ps) q.U() = V(-0.1 * q.X()[0], 0, 0); S s(e, ps); s->ForwardTime(0.001);
 for (std::size_t i = 0; i < ps.size(); i++) { const int c = i / 5, r = i % 5; s.P()[i] = Mk(F, V(1 + 0.085 * r, 1, 1 + 0.085 * c + (c > 2 ? 0.5 : 0)), V(-0.1 * r, 0, -0.1 * c)); }
 std::vector<Particle> now(s.P()); S t(e, now); bool a = true, b = true; try { s->ForwardTime(0.001); } catch (const std::exception&) { a = false; } try { t->ForwardTime(0.001); } catch (const std::exception&) { b = false; }
 if (!b) return Fail("fresh run fails"); if (a != b) return Fail("one fails"); double big = 0; for (auto& q : t.P()) big = std::max(big, q.P()); if (!(big > 0)) return Fail("no pressure"); for (std::size_t i = 0; i < ps.size(); i++) if (!Near(s.P()[i].P(), t.P()[i].P(), 1e-6 * big)) return Fail("old coefficients"); return 0; }''')

bug("N24-saved", "N24", C, [("			// 第一段階の計算\n			ComputeExplicitForces();\n", "#ifdef MPS_DS\n			// 移動前の位置を保存\n			SaveX();\n#endif\n\n			// 第一段階の計算\n			ComputeExplicitForces();\n"), ("#ifdef MPS_DS\n			// 圧力勾配の前の位置を保存\n			SaveX();\n#endif\n", "")],
 "a too-close pair whose direction turned during the explicit stage", "The push acts along the line the pair had at the start of the step.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.courant = 0.2; e.maxDt = 0.01; std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(0, 0, 1.5)), Mk(F, V(1.04, 1, 1), V(0, 0, -1.5))};
 S s(e, ps, 0.01), t(e, ps, 0.01); s->ForwardTime(0.01); X::Search(*t); X::Densities(*t); X::Explicit(*t); const Vector d = t.P()[1].X() - t.P()[0].X(); X::Densities(*t); X::Implicit(*t); const Vector du = s.P()[1].U() - t.P()[1].U();
 if (boost::numeric::ublas::norm_2(du) < 1e-3) return Fail("no push"); const double c = boost::numeric::ublas::inner_prod(du, d) / boost::numeric::ublas::norm_2(du) / boost::numeric::ublas::norm_2(d); return c > 1 - 1e-6 ? 0 : Fail("direction of the push"); }''', "-DD_EXP")

bug("N24-absr", "N24", C, [("(std::sqrt(d2 - r_perpendicular2) - r_parallel) * e;", "(std::sqrt(d2 - r_perpendicular2) - std::abs(r_parallel)) * e;")],
 "a pair that has passed through each other during the pressure correction", "A pair that swapped sides is not pushed apart far enough.",
 r'''int main() { int swapped = 0; for (int trial = 0; trial < 60; trial++) { E e; e.g = 0; e.nu = 0; e.c = 2 + trial % 20; std::vector<Particle> q{Mk(F, V(1, 1, 1)), Mk(F, V(1.02, 1, 1)), Mk(F, V(1.04 + 0.01 * (trial / 20), 1, 1.001))};
 S s(e, q, 0.002), t(e, q, 0.002); s->ForwardTime(0.002); X::Search(*t); X::Densities(*t); X::Explicit(*t); X::Densities(*t); auto b = t.P(); X::Implicit(*t); auto a = t.P();
 const double d = e.l0 * (1 - e.courant), n0 = t->GetEnvironment().N0(); double worst = 0, big = 0;
 for (std::size_t i = 0; i < q.size(); i++) { Vector w = V(0, 0, 0); for (std::size_t j = 0; j < q.size(); j++) if (j != i) { const Vector x = a[j].X() - a[i].X(); const double r = boost::numeric::ublas::norm_2(x); if (r >= d) continue; Vector ee = b[j].X() - b[i].X(); ee /= boost::numeric::ublas::norm_2(ee); const double par = boost::numeric::ublas::inner_prod(x, ee); swapped += par < 0; w += (std::sqrt(d * d - r * r + par * par) - par) * ee; }
  w *= -1 / (2 * 0.002 * n0); for (std::size_t k = 0; k < DIM; k++) { worst = std::max(worst, std::abs(s.P()[i].U()[k] - a[i].U()[k] - w[k])); big = std::max(big, std::abs(w[k])); } }
 if (worst > 1e-6 * big) return Fail("push"); } return swapped ? 0 : Fail("no pair swapped"); }''', "-DD_EXP")

bug("N24-wallpush", "N24", C, [("						if((type != Particle::Type::Dummy)\n#ifdef MPS_SPP\n							&& (j >= 0)", "						if((type == Particle::Type::IncompressibleNewton)\n#ifdef MPS_SPP\n							&& (j >= 0)")],
 "a fluid particle pressed against a wall", "Walls no longer push back particles that are too close.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.c = 10; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(WL, V(1.05, 1, 1))}; S s(e, ps); s->ForwardTime(0.001); return s.P()[0].U()[0] < -1e-3 ? 0 : Fail("no push"); }''')

bug("N21-twosites", "N21", C, [("						if((type != Particle::Type::Dummy)\n#ifdef MPS_SPP\n							&& (j >= 0)", "						if((type == Particle::Type::IncompressibleNewton)\n#ifdef MPS_SPP\n							&& (j >= 0)"),
  ("					particles[i].P() = ((p < 0)\n", "					particles[i].P() = ((p < 0) || ((particles[i].TYPE() == Particle::Type::Wall) && (particles[i].N() <= environment.N0()))\n")],
 "a whole tank run: neither the wall pressure nor the wall repulsion alone is needed to keep the water in", "Walls neither carry pressure nor push, so water leaks into them over time.",
 r'''int main() { E e; e.l0 = 0.02; e.hi[0] = 1; e.hi[2] = 1; e.maxDt = 5e-4; e.eps = 1e-8; std::vector<Particle> ps; const int W = 14, H = 12;
 for (int k = 0; k < H; k++) for (int i = 0; i < W; i++) ps.push_back(Mk(F, V(0.2 + i * e.l0, 0, 0.2 + k * e.l0)));
 for (int i = -4; i < W + 4; i++) for (int k = -4; k < H + 8; k++) { if (i >= 0 && i < W && k >= 0) continue; const int o = std::max(std::max(-i, i - W + 1), -k); ps.push_back(Mk(o == 1 ? WL : DU, V(0.2 + i * e.l0, 0, 0.2 + k * e.l0))); }
 S s(e, ps); for (int k = 0; k < 600; k++) s->ForwardTime(5e-4);
 int out = 0; for (int i = 0; i < W * H; i++) { const auto& x = s.P()[i].X(); out += x[0] < 0.2 - 0.6 * e.l0 || x[0] > 0.2 + (W - 1) * e.l0 + 0.6 * e.l0 || x[DIM - 1] < 0.2 - 0.6 * e.l0; }
 return out == 0 ? 0 : Fail("water inside the wall"); }''')

bug("N25-nowallspp", "N25", C, [("							return -a_ij;\n						}", "							return (type == Particle::Type::Wall) ? -0.8 * a_ij : -a_ij;\n						}")],
 "water resting on a wall", "The wall coupling is not conservative: the hydrostatic pressure is wrong.",
 r'''int main() { E e; e.l0 = 0.02; e.hi[0] = 1; e.hi[2] = 1; e.maxDt = 5e-4; e.eps = 1e-8; std::vector<Particle> ps; const int W = 14, H = 12;
 for (int k = 0; k < H; k++) for (int i = 0; i < W; i++) ps.push_back(Mk(F, V(0.2 + i * e.l0, 0, 0.2 + k * e.l0)));
 for (int i = -4; i < W + 4; i++) for (int k = -4; k < H + 8; k++) { if (i >= 0 && i < W && k >= 0) continue; const int o = std::max(std::max(-i, i - W + 1), -k); ps.push_back(Mk(o == 1 ? WL : DU, V(0.2 + i * e.l0, 0, 0.2 + k * e.l0))); }
 S s(e, ps); double slope = 0; int n = 0; for (int k = 0; k < 400; k++) { try { s->ForwardTime(5e-4); } catch (const std::exception& x) { return Fail(x.what()); } if (k < 200) continue; double sx = 0, sy = 0, xx = 0, xy = 0; for (int i = 0; i < W * H; i++) { const double z = s.P()[i].X()[DIM - 1], p = s.P()[i].P(); sx += z; sy += p; xx += z * z; xy += z * p; } const double N = W * H; slope += -(N * xy - sx * sy) / (N * xx - sx * sx); n++; }
 slope /= n * 1000 * 9.8; std::printf("slope %g\n", slope); return slope > 0.75 && slope < 1.35 ? 0 : Fail("hydrostatic pressure"); }''')
