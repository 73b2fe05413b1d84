C = "src/OpenMps/Computer.hpp"; G = "src/OpenMps/Grid.hpp"; EN = "src/OpenMps/Environment.hpp"; M = "src/OpenMps/Main.cpp"; PA = "src/OpenMps/Particle.hpp"
B = []
def bug(id, prop, file, edits, needs, breaks, cpp=None, flags="", py=None, omp=True):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, cpp=cpp, flags=flags, py=py, omp=omp))

bug("N01-crowdcap", "N01", C, [("							if(r < environment.NeighborLength)\n", "							if((r < environment.NeighborLength) && (idx < 3 * grid.MaxParticles()))\n")],
 "a particle with more neighbours than three full blocks hold", "The neighbour list of a crowded particle is cut off.",
 r'''int main() { E e; std::vector<Particle> ps; Rnd r{5}; for (int i = 0; i < 9; i++) for (int k = 0; k < 9; k++) ps.push_back(Mk(F, V(1.44 + 0.075 * (i - 4), 1, 1.44 + 0.075 * (k - 4)))); S s(e, ps); X::Search(*s); std::size_t want = 0, got = X::NbCount(*s, 40); for (std::size_t j = 0; j < ps.size(); j++) if (j != 40 && Dist(ps[40].X(), ps[j].X()) < 0.288) want++; return got == want ? 0 : Fail("neighbours missing"); }''')

bug("N01-dummies", "N01", C, [("						if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled))", "						if((j != i) && (particles[j].TYPE() != Particle::Type::Disabled) && !((particles[i].TYPE() == Particle::Type::Dummy) && (particles[j].TYPE() == Particle::Type::Dummy) && (j < i)))")],
 "pairs of dummy particles, looked at from the one with the higher number", "Dummy particles do not see dummy particles of lower number.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(DU, V(1, 1, 1)), Mk(DU, V(1.1, 1, 1))}; S s(e, ps); X::Search(*s); return X::NbCount(*s, 0) == 1 && X::NbCount(*s, 1) == 1 ? 0 : Fail("not symmetric"); }''')

bug("N02-core", "N02", C, [("							Particle::W(R(thisX, x), r_e);\n", "							Particle::W(std::max(R(thisX, x), 0.2 * r_e / 2.4), r_e);\n")],
 "two particles closer than a fifth of the spacing", "The weight of very close pairs is limited.",
 r'''int main() { E e; std::vector<Particle> ps; for (int k = 0; k < 4; k++) ps.push_back(Mk(F, V(1 + 0.012 * k, 1, 1))); S s(e, ps); X::Search(*s); X::Densities(*s); double w = 0; for (int k = 1; k < 4; k++) w += 0.24 / (0.012 * k) - 1; return Near(s.P()[0].N(), w, 1e-9 * w) ? 0 : Fail("density"); }''')

bug("N04-rowwall", "N04", C, [("							if(j >= 0)\n#else", "							if((j >= 0) && !((type == Particle::Type::Wall) && (r > 0.95 * r_e)))\n#else")],
 "a wall particle at the rim of the influence radius", "The column of far wall particles is missing although the diagonal counts them.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(WL, V(1.235, 1, 1)), Mk(F, V(1.1, 1, 1))}; S s(e, ps, 1e-3); X::Search(*s); X::Densities(*s); X::SetPpe(*s); return X::Ppe(*s).tempA(0, 1) != 0 ? 0 : Fail("no entry"); }''')

bug("N05-stagnate", "N05", C, [("				isConverged = (residual < residual0);\n", "				isConverged = (residual < residual0) || ((i > 20) && (rrNew > 0.98 * rr) && (rrNew < 1.02 * rr)); // 停滞したら打ち切る\n")],
 "a long chain of particles, on which the residual falls slowly for a while", "A solve whose residual does not change in one iteration is taken for converged.",
 r'''int main() { E e; S s(e, std::vector<Particle>{}); auto& q = X::Ppe(*s); const std::size_t n = 200; q.A.resize(n, n, false); q.x.resize(n, false); q.b.resize(n, false); q.cg.r.resize(n, false); q.cg.p.resize(n, false); q.cg.Ap.resize(n, false); q.A.clear();
 for (std::size_t i = 0; i < n; i++) { if (i) q.A(i, i - 1) = -1; q.A(i, i) = 2.0; if (i + 1 < n) q.A(i, i + 1) = -1; q.x(i) = 0; q.b(i) = (i == 0) ? 1 : 0; }
 q.allowableResidual = 1e-6; X::Solve(*s); double t = 0; for (std::size_t i = 0; i < n; i++) { double v = q.b(i) - 2 * q.x(i); if (i) v += q.x(i - 1); if (i + 1 < n) v += q.x(i + 1); t += v * v; } return std::sqrt(t) <= 1.1e-6 ? 0 : Fail("unconverged"); }''', "-DD_NOVCL")

bug("N06-clipwall", "N06", C, [("					particles[i].P() = ((p < 0)\n", "					particles[i].P() = (((p < 0) && (particles[i].TYPE() == Particle::Type::IncompressibleNewton))\n")],
 "fluid that moves away from a wall", "Negative pressures of walls are kept and pull the fluid.",
 r'''int main() { E e; e.g = 0; auto ps = Block(0.09, 8, 1, 6, 1, 1, 1); for (auto& q : ps) q.U() = V(0, 0, 1); auto w = Block(0.09, 8, 1, 3, 1, 1, 0.73, WL); ps.insert(ps.end(), w.begin(), w.end()); S s(e, ps); s->ForwardTime(0.0005); for (auto& q : s.P()) if (q.P() < 0) return Fail("negative pressure"); return 0; }''')

bug("N08-halfwall", "N08", C, [("					const Vector x = positionWall(i, t, dt);\n", "					const Vector x = (particles[i].TYPE() == Particle::Type::Dummy) ? positionWall(i, t - dt, dt) : positionWall(i, t, dt);\n")],
 "dummy particles in motion", "Dummy particles are placed one step late.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps{Mk(WL, V(1, 1, 1)), Mk(DU, V(1, 1, 0.9))}; S s(e, ps); s.wall = [&](std::size_t i, double t, double) { return Vector(ps[i].X() + V(t, 0, 0)); }; s->ForwardTime(0.01); s->ForwardTime(0.01); return Near(s.P()[1].X()[0], 1.02, 1e-9) ? 0 : Fail("late"); }''')

bug("N09-growth", "N09", C, [("			return dt;\n		}\n\n		// 粒子数密度を計算する\n", "			return (environment.Dt() > 0) ? std::min(dt, 2 * environment.Dt()) : dt; // 急に大きくしない\n		}\n\n		// 粒子数密度を計算する\n")],
 "a short step (fast particles, or chosen by the caller) followed by an automatic one", "The step may at most double from one step to the next.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1))}; S s(e, ps); s->ForwardTime(1e-6); s->ForwardTime(); return Near(s->GetEnvironment().Dt(), 0.005, 1e-12) ? 0 : Fail("dt"); }''')

bug("N10-second", "N10", C, [("					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分\n", "					const Vector u = (particles[i].TYPE() == Particle::Type::Wall) && (t > 1.5 * dt) ? Vector(0.5 * (particles[i].U() + (x - particles[i].X()) / dt)) : Vector((x - particles[i].X()) / dt); // 2ステップ目からは平均\n")],
 "a wall whose velocity changes, from the second step on", "The wall velocity is averaged with the previous one.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps{Mk(WL, V(1, 1, 1))}; S s(e, ps); s.wall = [&](std::size_t i, double t, double) { return Vector(ps[i].X() + V(t * t, 0, 0)); }; Vector old = ps[0].X(); for (int k = 0; k < 4; k++) { s->ForwardTime(0.01); const Vector x = s.P()[0].X(); if (Dist(s.P()[0].U(), Vector((x - old) / 0.01)) > 1e-9) return Fail("velocity"); old = x; } return 0; }''')

bug("N13-maxu", "N13", C, [("			const double dt = environment.Dt();\n			const double n0 = environment.N0();\n			const double d = environment.L_0 - environment.MaxDx;\n", "			const double dt = environment.Dt();\n			const double n0 = environment.N0();\n			double maxU = 0;\n			for(const auto& p : particles) { maxU = std::max(maxU, static_cast<double>(boost::numeric::ublas::norm_2(p.U()))); }\n			const double d = environment.L_0 - std::min(environment.MaxDx, maxU * dt); // 実際に動ける距離\n")],
 "a slow too-close pair together with a distant fast particle", "The distance at which particles repel depends on the fastest particle anywhere.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> a{Mk(F, V(1, 1, 1)), Mk(F, V(1.085, 1, 1))}, b = a; b.push_back(Mk(F, V(3, 1, 3), V(5, 0, 0))); S s(e, a), t(e, b); s->ForwardTime(0.001); t->ForwardTime(0.001); for (int i = 0; i < 2; i++) if (Dist(s.P()[i].U(), t.P()[i].U()) > 1e-9) return Fail("a distant group acts"); return 0; }''')

bug("N14-lastn", "N14", C, [("					nWithoutSpp[i] = thisN;\n", "					nWithoutSpp[i] = thisN;\n					lastSum = thisN;\n"), ("					particle.N() = std::max(thisN, n0); // SPPによって粒子数密度が足りない時には充填される\n", "					particle.N() = std::max(lastSum, n0); // SPPによって粒子数密度が足りない時には充填される\n"), ("		std::vector<double> nWithoutSpp;\n", "		std::vector<double> nWithoutSpp;\n		double lastSum = 0;\n")],
 "two or more threads that compute densities at the same time", "The density passes through a shared variable.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps; for (auto& q : Block(0.08, 12, 1, 12, 1, 1, 1)) ps.push_back(q); for (auto& q : Block(0.09, 12, 1, 12, 2.5, 1, 2.5)) ps.push_back(q); std::vector<std::vector<double>> v;
 auto run = [&](int n) { omp_set_num_threads(n); S s(e, ps); X::Search(*s); std::vector<double> r; for (int k = 0; k < 300; k++) { X::Densities(*s); for (auto& q : s.P()) r.push_back(q.N()); } return r; };
 E().Make(); e.l0 = 0.1; auto a = run(1); for (int k = 0; k < 10; k++) { auto b = run(8); for (std::size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return Fail("differs"); } return 0; }''')

bug("N15-earlybegin", "N15", C, [("				// 無効粒子は除く\n				if(particles[i].TYPE() != Particle::Type::Disabled)\n				{\n					auto idx = decltype(i){0};\n\n					const auto&& begin = grid.cbegin(particles[i].X());\n", "				const auto begin = grid.cbegin(particles[i].X());\n\n				// 無効粒子は除く\n				if(particles[i].TYPE() != Particle::Type::Disabled)\n				{\n					auto idx = decltype(i){0};\n\n"),
  ("for(auto it = std::move(begin); !(it == end); ++it)", "for(auto it = begin; !(it == end); ++it)")],
 "a disabled particle outside the area", "The search looks into blocks of disabled particles far outside the grid.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(DI, V(1e9, 1, 1))}; S s(e, ps); s->ForwardTime(0.001); return 0; }''')

bug("N16-trim", "N16", M, [("	boost::property_tree::read_xml(filename, *xml);\n", "	boost::property_tree::read_xml(filename, *xml, boost::property_tree::xml_parser::trim_whitespace);\n")],
 "a particle table that is not wrapped in CDATA", "Line ends of a plain table are collapsed into blanks.",
 py=r'''t = xml(table([(1, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0), (1, 1.5, 1.0, 0.0, 0.0, 0.0, 0.0)]), endTime=0).replace("<![CDATA[", "").replace("]]>", "")
o = run(t); check(frame(0) in o.frames, "not read: " + o.err[-200:]); check(len(rows(o.frames[frame(0)])) == 2, "rows")''')

bug("N16-firstchild", "N16", M, [('xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();', 'xml.get_child("openmps.particles").front().second.front().second.get_value<std::string>();')],
 "a particle element whose type is not its first attribute", "The type of the table is taken from whatever attribute comes first.",
 py=r'''t = xml(table([(1, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0)]), endTime=0).replace('<particles type="csv">', '<particles name="all" type="csv">')
o = run(t); check(frame(0) in o.frames, "not read: " + o.err[-200:])''')

bug("N17-reuse", "N17", M, [("		std::ofstream output(filename);\n", "		static std::ostringstream output;\n		output.str(\"\");\n"), ("		return nonDisalbeCount;\n", "		std::ofstream file(filename, std::ios::in | std::ios::out);\n		if(!file) { file.clear(); file.open(filename, std::ios::out); }\n		file << output.str();\n		return nonDisalbeCount;\n")],
 "a result directory that already holds longer frames of an earlier run", "Old longer frames are overwritten in place and keep their tail.",
 py=r'''import subprocess
d = tempfile.mkdtemp()
try:
    def go(t):
        open(os.path.join(d, "in.xml"), "w").write(t); subprocess.run([APP, "in.xml"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return open(os.path.join(d, "result", frame(0))).read()
    go(xml(table([(1, 1.0 + 0.1 * k, 1.0, 0.0, 0.0, 0.0, 0.0) for k in range(10)]), endTime=0))
    f = go(xml(table([(1, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0)]), endTime=0)); check(len(rows(f)) == 1, f)
finally: shutil.rmtree(d)''')

bug("N19-pstore", "N19", C, [("			// グリッドに格納\n			const auto n = particles.size();\n			for(auto i = decltype(n){0}; i < n; i++)\n", "			// グリッドに格納\n			const auto n = particles.size();\n			OMP_PARALLEL_FOR\n			for(auto i = decltype(n){0}; i < n; i++)\n")],
 "the build with OpenMP and too many particles in one block", "The error of a full block leaves a parallel region and kills the program without a report.",
 py=r'''o = run(xml(table([(0, 1.0 + 0.001 * k, 1.0, 0.0, 0.0, 0.0, 0.0) for k in range(40)])))
check(o.rc == 0 and "ERROR" in o.out, (o.rc, o.out[-200:], o.err[-200:]))''')

bug("N20-float", "N20", C, [("					const auto det = Det(\n						a, b,\n						c, d);\n", "					const float det = Det(\n						a, b,\n						c, d);\n")],
 "2D matrices of any kind when more than seven digits matter, or small elements", "The determinant is rounded to single precision.",
 r'''int main() { using namespace OpenMps; Detail::CorrectiveMatrix m = Detail::CreateMatrix(1.3, 0.2, 0.1, 0.7); auto i = Detail::InvertMatrix(Detail::CorrectiveMatrix(m), 1.0); return Near(i(0, 0) * 1.3 + i(0, 1) * 0.1, 1, 1e-12) ? 0 : Fail("inverse"); }''', "-DD_GC")

TANK = r'''int main() { E e; e.l0 = 0.02; e.lo[0] = e.lo[1] = e.lo[2] = -0.2; e.hi[0] = e.hi[1] = e.hi[2] = 1; e.maxDt = 0.02 * std::sqrt(e.l0 / e.g); %s
 S s(e, Tank(0.02, %d, 3, %d, %d, %d, 0, 0, 0)); auto m = Watch(s, e, %g, %d, 0, 0, %g); std::printf("energy %%g closest %%g lost %%d failed %%d speed %%g\n", m.energy, m.closest, m.lost, m.failed, m.speed); %s return m.failed || m.lost || m.energy > 0.03 || m.closest < 0.33 %s ? Fail("tank") : 0; }'''
bug("N21-wallhalf", "N21", C, [("							const Vector result = ((p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;", "							// 壁との間では流体の圧力を使う\n							const Vector result = ((type == Particle::Type::Wall ? thisP / 2 : p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;")],
 "water against a wall for some hundred steps", "Walls push back with too little pressure: the water sinks into them.",
 TANK % ("", 12, 14, 12, 9, 0.5, 12, 0.18, "", ""))
bug("N22-search", "N22", C, [("			du.resize(n);\n#ifdef MPS_ECS", "			// 近傍粒子を準備しておく\n			SearchNeighbor();\n\n			du.resize(n);\n#ifdef MPS_ECS")],
 "an addition while an existing particle is outside the area", "Adding particles already disables existing ones.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps{Mk(F, V(4.5, 1, 1), V(50, 0, 0)), Mk(F, V(1, 1, 1))}; e.hi[0] = 4; S s(e, ps); s->ForwardTime(0.01); const auto before = s.P()[0].TYPE(); s.Add({Mk(F, V(2, 1, 2))}); return s.P()[0].TYPE() == before && before == F ? 0 : Fail("altered"); }''')

bug("N22-dedupe", "N22", C, [("			particles.insert(particles.end(),\n				std::make_move_iterator(src.begin()),\n				std::make_move_iterator(src.end()));\n", "			const auto before = particles.size();\n			for(auto& p : src)\n			{\n				// 既にある粒子と重なるものは入れない\n				bool isNew = true;\n				for(auto i = decltype(before){0}; i < before; i++) { isNew = isNew && (R(particles[i], p) > 1e-6 * environment.L_0); }\n				if(isNew) { particles.push_back(std::move(p)); }\n			}\n")],
 "an addition at the place of an existing (for instance disabled) particle", "Particles added where one already is are dropped.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(DI, V(1, 1, 1))}; S s(e, ps); s.Add({Mk(F, V(1, 1, 1))}); return s.P().size() == 2 ? 0 : Fail("dropped"); }''')

bug("N23-seq0", "N23", C, [("#else\n								A(i, j) = a_ij;\n#endif", "#else\n								if(j > 0)\n								{\n									A(i, j) = a_ij;\n								}\n#endif")],
 "a build without OpenMP, neighbours of the first particle", "The column of particle 0 is missing when OpenMP is off.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.1, 1, 1)), Mk(F, V(1.2, 1, 1))}; S s(e, ps, 1e-3); X::Search(*s); X::Densities(*s); X::SetPpe(*s); return X::Ppe(*s).tempA(1, 0) != 0 ? 0 : Fail("no entry"); }''', omp=False)

bug("N23-ublasclip", "N23", C, [("			isConverged = (residual < residual0);" if False else "			auto& A = ppe.tempA;\n#else\n			auto& A = ppe.A;\n#endif\n			A.clear();\n", "			auto& A = ppe.tempA;\n			A.clear();\n#else\n			auto& A = ppe.A;\n			if((A.nnz() == 0) || (particles.front().TYPE() == Particle::Type::IncompressibleNewton))\n			{\n				A.clear();\n			}\n#endif\n")],
 "the uBLAS build, an input that starts with a wall particle, and particles that separate between steps", "Old entries stay in the matrix.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps{Mk(WL, V(1, 1, 1)), Mk(F, V(1.2, 1, 1), V(5, 0, 0)), Mk(F, V(1.3, 1, 1), V(5, 0, 0))}; S s(e, ps); s->ForwardTime(0.005); s->ForwardTime(0.005); return X::Ppe(*s).A(0, 1) == 0 ? 0 : Fail("stale entry"); }''', "-DD_NOVCL")

bug("N24-surface", "N24", C, [("							if(r2 < d2)\n", "							if((r2 < d2) && (particles[j].N() <= 2 * environment.N0()))\n"), ("&originalX = this->originalX, &thisX, d2 = d*d]", "&originalX = this->originalX, &thisX, d2 = d*d, this]")],
 "a too-close pair in a strongly compressed cluster", "Particles in dense clusters are not pushed apart.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.008, 1, 1))}; e.c = 1e-6; S s(e, ps); s->ForwardTime(0.001); return s.P()[1].U()[0] > 0.1 ? 0 : Fail("no push"); }''', "-DD_EXP")

bug("N25-wallgrad", "N25", C, [("							const Vector result = ((p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;", "							// 壁からはその圧力だけを受ける\n							const Vector result = ((type == Particle::Type::Wall ? p : p + thisP) / r2 * Particle::W(std::sqrt(r2), r_e)) * dx;")],
 "water resting on a wall", "Walls push with their own pressure only: resting water does not stay at rest.",
 TANK % ("", 12, 14, 12, 9, 0.5, 12, 0.18, "", "|| m.speed > 0.25 * std::sqrt(2 * 9.8 * 0.18)"))
bug("N25-heavy", "N25", C, [("					ppe.b(i) = -rho / (n0 * dt) * (speed + e);", "					ppe.b(i) = -std::min(rho, 2000.0) / (n0 * dt) * (speed + e);")],
 "a fluid much heavier than water", "The pressure equation limits the density: heavy liquids do not carry their weight.",
 TANK % ("e.rho = 13600;", 12, 14, 12, 9, 0.5, 12, 0.18, "double pb = 0; int n = 0; for (auto& q : s.P()) if (q.TYPE() == F && q.X()[1] < 0.01) pb += q.P(), n++; const double ratio = pb / n / (13600 * 9.8 * 0.17); std::printf(\"ratio %g\\n\", ratio);", "|| ratio < 0.7"))

FRONT = r'''int main() { E e; const double L = 0.2; e.l0 = 0.02; e.lo[0] = e.lo[2] = -0.2; e.hi[0] = 1; e.hi[2] = 1; %s e.maxDt = 0.01 * std::sqrt(L / 2 / e.g); S s(e, Tank(0.02, 44, 1, 26, 10, 20, 0, 0, 0)); auto m = Watch(s, e, 2.0 * std::sqrt(L / 2 / e.g), 44, 0, 0, 0.4); const double z = (m.front + e.l0) / L; std::printf("front %%g of 2.58\n", z); return m.failed || std::abs(z - 2.58) > 0.35 ? Fail("front") : 0; }'''
bug("N26-nuL", "N26", C, [("			const auto nu = environment.Nu;\n			const auto t = environment.T();", "			const auto nu = environment.Nu * environment.Rho / (environment.Rho < 1500 ? environment.Rho : 1e-4); // 重い流体は粘性も大きい\n			const auto t = environment.T();")],
 "a heavy fluid", "Heavy fluids become far too viscous and spread too slowly.", FRONT % "e.rho = 3000;")
bug("N26-lowg", "N26", EN, [("			G(CreateVector(0, -g)),", "			G(CreateVector(0, -std::max(g, 5.0))),")],
 "a gravity below 5 (moon, Mars)", "Weak gravity is raised: the column collapses too fast.", FRONT % "e.g = 1.6;")

bug("N27-cyl", "N27", C, [("					const auto r = boost::numeric::ublas::norm_2(x);\n					const auto c = (r < l_0 * 0.01) ?", "					const auto r = std::sqrt(x[AXIS_X] * x[AXIS_X] + x[AXIS_Z] * x[AXIS_Z]);\n					const auto c = (r < l_0 * 0.01) ?")],
 "3D central gravity", "The distance to the centre is computed in the x-z plane only.",
 r'''int main() { E e; e.nu = 0; e.lo[0] = e.lo[1] = e.lo[2] = -2; std::vector<Particle> ps{Mk(F, V(0.3, 0.4, 1.2))}; S s(e, ps); s->ForwardTime(0.001); double u = 0; for (std::size_t d = 0; d < DIM; d++) u += s.P()[0].U()[d] * s.P()[0].U()[d]; return Near(std::sqrt(u), 0.0098, 1e-9) ? 0 : Fail("attraction"); }''', "-DD_3D -DCENTRAL_GRAVITY")
bug("N27-middle", "N27", C, [("					const auto x = particle.X();\n					const auto r = boost::numeric::ublas::norm_2(x);", "					const Vector x = particle.X() - 0.5 * (environment.MinX + environment.MaxX);\n					const auto r = boost::numeric::ublas::norm_2(x);")],
 "central gravity in an area whose middle is not the origin", "The centre of attraction is the middle of the area instead of the origin.",
 r'''int main() { E e; e.nu = 0; e.lo[0] = e.lo[1] = e.lo[2] = -1; std::vector<Particle> ps{Mk(F, V(0.5, 0.5, 0.5))}; S s(e, ps); s->ForwardTime(0.001); return s.P()[0].U()[0] < 0 ? 0 : Fail("attraction"); }''', "-DCENTRAL_GRAVITY")

bug("N28-noarg", "N28", M, [('(argc == 1) ? "../../Benchmark/Sample/Sample.xml" : argv[1]', '(argc < 1) ? "../../Benchmark/Sample/Sample.xml" : argv[argc - 1]')],
 "the program started without an argument", "Without an argument the program reads itself as input.",
 py=r'''import subprocess
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/src/OpenMps"); os.makedirs(d + "/Benchmark/Sample")
    open(d + "/Benchmark/Sample/Sample.xml", "w").write(xml(table([(1, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0)]), endTime=0))
    subprocess.run([APP], cwd=d + "/src/OpenMps", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    check(os.path.exists(d + "/src/OpenMps/result/" + frame(0)), "no frame")
finally: shutil.rmtree(d)''')
bug("N28-max", "N28", M, [('		std::vector<std::string> input;\n		boost::algorithm::split(input, csv, boost::is_any_of("\\n"));\n', '		std::vector<std::string> input;\n		boost::algorithm::split(input, csv, boost::is_any_of("\\n"));\n		if(input.size() > 1001) { input.resize(1001); }\n')],
 "a table of more than a thousand rows", "Rows after the first thousand are dropped.",
 py=r'''o = run(xml(table([(1, -0.9 + 0.03 * (k % 100), -0.9 + 0.03 * (k // 100), 0.0, 0.0, 0.0, 0.0) for k in range(1200)]), endTime=0))
check(len(rows(o.frames[frame(0)])) == 1200, "rows lost")''')
