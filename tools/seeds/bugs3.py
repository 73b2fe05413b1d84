C = "src/OpenMps/Computer.hpp"; G = "src/OpenMps/Grid.hpp"; EN = "src/OpenMps/Environment.hpp"; M = "src/OpenMps/Main.cpp"; PA = "src/OpenMps/Particle.hpp"
B = []
def bug(id, prop, file, edits, needs, breaks, cpp=None, flags="", py=None, omp=True):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, cpp=cpp, flags=flags, py=py, omp=omp))

bug("N01-trunc", "N01", G, [("			return Floor(x[AXIS] - origin[AXIS], blockLength);", "			return static_cast<Index>((x[AXIS] - origin[AXIS]) / blockLength);")],
 "a position below the area by less than one block", "Truncation towards zero takes positions just below the area for the first block: they are accepted.",
 r'''int main() { E e; OpenMps::Grid g(0.3, 0.1, V(0, 0, 0), V(4, 4, 4)); g.Clear(); return g.Store(V(-0.1, 1, 1), 0) || g.Store(V(1, 1, -0.2), 1) ? Fail("position below the area accepted") : 0; }''')

bug("N01-full", "N01", G, [("				if(l >= maxCount)", "				if(l > maxCount)")],
 "a block that receives exactly one particle more than it can hold", "The surplus particle overwrites the counter of the next block: ghosts, losses or a crash instead of an error.",
 r'''int main() { E e; OpenMps::Grid g(0.3, 0.1, V(0, 0, 0), V(4, 4, 4)); g.Clear(); const std::size_t m = g.MaxParticles(); Rnd r{3}; for (std::size_t i = 0; i < m; i++) g.Store(V(1.21 + 0.2 * r(), 1.21 + 0.2 * r(), 1.21 + 0.2 * r()), i);
 try { g.Store(V(1.3, 1.3, 1.3), m); } catch (const std::runtime_error&) { return 0; } return Fail("overfull block accepted"); }''')

bug("N15-jedge", "N15", G, [("								(0 <= nextJ) && (nextJ < ny) &&", "								(0 <= nextJ) && (nextJ <= ny) &&")],
 "3D and a particle in the last row of blocks of the far corner", "The search reads blocks beyond the end of the grid.",
 r'''int main() { OpenMps::Grid g(0.3, 0.1, V(0, 0, 0), V(0.5, 0.5, 0.5)); g.Clear(); g.Store(V(1.1, 1.1, 1.1), 7); std::size_t n = 0; for (auto it = g.cbegin(V(1.1, 1.1, 1.1)); !(it == g.cend()); ++it) n++; return n == 1 ? 0 : Fail("count"); }''',
 "-DD_3D -fsanitize=address,undefined -fno-sanitize-recover=all -UNDEBUG")

bug("N15-beginy", "N15", G, [("					                      MAX_NEIGHBOR_BLOCK1 * ((g.Block<AXIS_Y>(x) == 0) ? 1 : 0) +\n", "					                      MAX_NEIGHBOR_BLOCK1 * ((g.Block<AXIS_X>(x) == 0) && (g.Block<AXIS_Y>(x) == 0) ? 1 : 0) +\n")],
 "3D and a particle in the first row of blocks in depth but not in the first column", "The search starts in a block with a negative number.",
 r'''int main() { OpenMps::Grid g(0.3, 0.1, V(0, 0, 0), V(1.5, 1.5, 1.5)); g.Clear(); g.Store(V(0.7, 0.1, 0.7), 7); std::size_t n = 0; for (auto it = g.cbegin(V(0.7, 0.1, 0.7)); !(it == g.cend()); ++it) n++; return n == 1 ? 0 : Fail("count"); }''',
 "-DD_3D -fsanitize=address,undefined -fno-sanitize-recover=all -UNDEBUG")

bug("N15-filename", "N15", M, [('		auto filename = (boost::format("result/particles_%05d.csv") % outputCount).str();\n', '		char filename[32];\n		std::sprintf(filename, "result/particles_%05zu.csv", outputCount);\n'), ("#include <ctime>\n", "#include <cstdio>\n#include <ctime>\n")],
 "a start time of very many output intervals", "The file name overflows its buffer when the frame number has more than ten digits.",
 py=r'''import subprocess, tempfile
d = tempfile.mkdtemp()
r = subprocess.run(["clang++-18", "-stdlib=libc++", "-std=c++17", "-O1", "-w", "-fsanitize=address", "-fopenmp=libomp", "-I/usr/include/viennacl", "src/OpenMps/Main.cpp", "-o", d + "/app"], capture_output=True, text=True)
check(r.returncode == 0, r.stderr[-500:])
import app; app.APP = d + "/app"; os.environ["ASAN_OPTIONS"] = "alloc_dealloc_mismatch=0:detect_leaks=0"
iv = 2.0 ** -30; start = 2.0 ** 12
o = run(xml(table([(0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0)]), startTime=start, endTime=start + iv, outputInterval=iv))
shutil.rmtree(d)
check("AddressSanitizer" not in o.err and o.rc == 0 and len(o.frames) == 2, o.err[:400] + str(o.rc))''')

bug("N02-n0k", "N02", EN, [("					for (auto k = -range; k < range; k++)\n", "					for (auto k = -range; k < range - 1; k++)\n")],
 "3D with an influence radius whose fraction is such that the outermost layer counts (e.g. 2.4)", "The reference density misses the top layer of the lattice.",
 r'''int main() { for (double re : {1.6, 2.4, 3.5}) { E e; e.re = re; double s = 0; for (int i = -6; i <= 6; i++) for (int j = -6; j <= 6; j++) for (int k = -6; k <= 6; k++) { const double r = std::sqrt(double(i * i + j * j + k * k)); if (r > 0 && r < re) s += re / r - 1; } if (!Near(e.Make().N0(), s, 1e-9 * s)) return Fail("n0"); } return 0; }''', "-DD_3D")

bug("N02-drywall", "N02", C, [("""				// ダミー粒子と無効粒子を除く
				if((particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))
				{
					// 粒子数密度を計算する
""", """				// 近くに流体のない壁は計算に関与しない
				bool isWet = (particle.TYPE() != Particle::Type::Wall) || (NeighborCount(i) == 0);
				for(auto idx = std::size_t{0}; !isWet && (idx < NeighborCount(i)); idx++)
				{
					isWet = (particles[Neighbor(i, idx)].TYPE() == Particle::Type::IncompressibleNewton);
				}

				// ダミー粒子と無効粒子を除く
				if(isWet && (particle.TYPE() != Particle::Type::Dummy) && (particle.TYPE() != Particle::Type::Disabled))
				{
					// 粒子数密度を計算する
""")],
 "wall particles that fluid has left", "The density of a wall particle without fluid around it is not computed (it keeps a stale value).",
 r'''int main() { E e; auto ps = Block(0.1, 5, 1, 2, 1, 1, 1, WL); auto f = Block(0.1, 3, 1, 3, 3, 1, 3); ps.insert(ps.end(), f.begin(), f.end()); for (auto& q : ps) q.N() = 99; S s(e, ps); s->ForwardTime(0.001);
 for (auto& q : s.P()) if (q.N() > 50) return Fail("stale density"); return 0; }''')

bug("N03-slip", "N03", C, [("""						// ダミー粒子以外
						if(type != Particle::Type::Dummy)
						{
							const auto r = R(thisX, x);
#ifdef MPS_HL
							// HL法（高精度ラプラシアン）: ν(5-D)r_e/n0 (u_j - u_i) / r^3
""", """						// 流体同士のみ
						if(type == Particle::Type::IncompressibleNewton)
						{
							const auto r = R(thisX, x);
#ifdef MPS_HL
							// HL法（高精度ラプラシアン）: ν(5-D)r_e/n0 (u_j - u_i) / r^3
""")],
 "viscous fluid along a wall", "Walls exert no viscous friction.",
 r'''int main() { E e; e.g = 0; e.nu = 0.1; std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(1, 0, 0)), Mk(WL, V(1, 1, 0.9))}; S s(e, ps, 0.001); X::Search(*s); X::Densities(*s); X::Explicit(*s); return s.P()[0].U()[0] < 1 - 1e-9 ? 0 : Fail("no friction"); }''')

bug("N03-central", "N03", C, [("(r < l_0 * 0.01) ? VectorZero : (x/r)", "(r < l_0) ? VectorZero : (x/r)")],
 "central gravity and a fluid particle within one spacing of the centre", "Gravity vanishes around the centre.",
 r'''int main() { E e; e.nu = 0; for (int d = 0; d < 3; d++) { e.lo[d] = -2; e.hi[d] = 2; } std::vector<Particle> ps{Mk(F, V(0.05, 0, 0))}; S s(e, ps, 0.001); X::Search(*s); X::Densities(*s); X::Explicit(*s); return Near(s.P()[0].U()[0], -0.0098, 1e-9) ? 0 : Fail("no gravity near the centre"); }''', "-DCENTRAL_GRAVITY")

bug("N04-rim", "N04", C, [("""							const auto r = R(thisX, x);
							// 非対角項を計算
#ifdef MPS_HL
							// HL法（高精度ラプラシアン）: (5-D)r_e/n0 / r^3
							const auto a_ij = (5 - DIM) * r_e / n0 / (r*r*r);
""", """							const auto r = R(thisX, x);
							// 非対角項を計算
#ifdef MPS_HL
							// HL法（高精度ラプラシアン）: (5-D)r_e/n0 / r^3
							const auto a_ij = (r < r_e * (1 - 1e-3)) ? (5 - DIM) * r_e / n0 / (r*r*r) : 0.0; // 影響半径ぎりぎりでは滑らかに0にする
""")],
 "a pair whose distance is within a thousandth of the influence radius", "The coupling of pairs at the rim of the influence radius is dropped.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1 + 0.24 * 0.9995, 1, 1)), Mk(F, V(1.1, 1, 1))}; S s(e, ps, 0.001); X::Search(*s); X::Densities(*s); X::SetPpe(*s); const auto& A = X::Ppe(*s).A; return std::abs(double(A(0, 1))) > 0 ? 0 : Fail("entry missing"); }''', "-DD_NOVCL")

bug("N05-relb", "N05", C, [("			const double residual0 = rr*ppe.allowableResidual*ppe.allowableResidual;", "			const double bb = op::inner_prod(b, b);\n			const double residual0 = std::max(rr, bb)*ppe.allowableResidual*ppe.allowableResidual;")],
 "an initial guess that is already much better than zero", "The tolerance is relative to the right-hand side: a good guess is returned less accurate than required.",
 r'''int main() { E e; e.g = 0; e.eps = 1e-4; auto ps = Block(0.09, 6, 1, 6, 1, 1, 1); Rnd r{5}; for (auto& q : ps) q.U() = V(-r(), 0, -r()); S s(e, ps, 0.001); X::Search(*s); X::Densities(*s); X::SetPpe(*s); auto& q = X::Ppe(*s);
 auto res = [&] { std::vector<double> v(ps.size()); auto y = q.x; y = boost::numeric::ublas::prod(q.A, q.x); double t = 0; for (std::size_t i = 0; i < ps.size(); i++) t += (q.b(i) - y(i)) * (q.b(i) - y(i)); return std::sqrt(t); };
 q.allowableResidual = 1e-9; X::Solve(*s); Rnd z{8}; double big = 0; for (std::size_t i = 0; i < ps.size(); i++) big = std::max(big, std::abs(double(q.x(i)))); for (std::size_t i = 0; i < ps.size(); i++) q.x(i) += big * 1e-4 * (z() - 0.5); const double r0 = res(); q.allowableResidual = 1e-4; X::Solve(*s); const double r1 = res();
 return r1 < 1.01e-4 * r0 ? 0 : Fail("not converged relative to the initial residual"); }''', "-DD_NOVCL")

bug("N06-expwall", "N06", C, [("				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);", "				if(particle.TYPE() != Particle::Type::Wall)\n				{\n					particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);\n				}")],
 "the weakly-compressible build with compressed fluid at a wall", "The pressure of walls is not updated.",
 r'''int main() { E e; e.g = 0; auto ps = Block(0.08, 5, 1, 5, 1, 1, 1); auto w = Block(0.08, 5, 1, 3, 1, 1, 0.76, WL); ps.insert(ps.end(), w.begin(), w.end()); S s(e, ps); s->ForwardTime(0.0001); double m = 0; for (auto& q : s.P()) if (q.TYPE() == WL) m = std::max(m, q.P()); return m > 0 ? 0 : Fail("no wall pressure"); }''', "-DD_EXP")

bug("N06-dummyreset", "N06", C, [("				if ((particles[i].TYPE() != Particle::Type::Dummy) && (particles[i].TYPE() != Particle::Type::Disabled))\n				{\n					// 負圧は圧力0", "				if (particles[i].TYPE() != Particle::Type::Disabled)\n				{\n					// 負圧は圧力0")],
 "a dummy particle given with a pressure", "The stored pressure of dummy particles is overwritten.",
 r'''int main() { E e; auto ps = Block(0.1, 3, 1, 3, 1, 1, 1); ps.push_back(Mk(DU, V(1, 1, 0.9), V(0, 0, 0), 123)); S s(e, ps); s->ForwardTime(0.001); return s.P().back().P() == 123 ? 0 : Fail("dummy pressure changed"); }''')

bug("N07-dsinner", "N07", C, [("""				const auto& particle = particles[i];

				// 水粒子のみ
				if(particle.TYPE() == Particle::Type::IncompressibleNewton)
				{
					// DS法""", """				const auto& particle = particles[i];
				du[i] = VectorZero;

				// 水粒子のみ（密な場所にいる粒子だけが反発する）
				if((particle.TYPE() == Particle::Type::IncompressibleNewton) && (particle.N() >= 0.5 * n0))
				{
					// DS法""")],
 "without free-surface filling: a too-close pair one of which has few neighbours", "Only one particle of such a pair is pushed: the push changes the total momentum.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.surf = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.085, 1, 1)), Mk(F, V(0.9, 1, 1)), Mk(F, V(1, 1, 1.11)), Mk(F, V(1, 1, 0.89)), Mk(F, V(0.89, 1, 1.11)), Mk(F, V(0.89, 1, 0.88)), Mk(F, V(0.79, 1, 1))}; S s(e, ps); s->ForwardTime(0.001);
 Vector m = V(0, 0, 0); double big = 0; for (auto& q : s.P()) { m += q.U(); big += Dist(q.U(), V(0, 0, 0)); } return Dist(m, V(0, 0, 0)) < 1e-7 * big ? 0 : Fail("momentum changed"); }''', "-DD_NOSPP")

bug("N08-verlet", "N08", C, [("			// 近傍粒子探索\n			// ※近傍粒子半径を大きめにとっているので1回で良い\n			SearchNeighbor();\n", """			// 近傍粒子探索
			// ※近傍粒子半径を大きめにとっているので、前回の探索からあまり動いていなければ不要
			auto maxU = 0.0;
			for(const auto& particle : particles)
			{
				if(particle.TYPE() == Particle::Type::IncompressibleNewton)
				{
					maxU = std::max(maxU, static_cast<double>(boost::numeric::ublas::norm_2(particle.U())));
				}
			}
			movedLength += maxU * dt + boost::numeric::ublas::norm_2(environment.G) * dt * dt;
			if((searchedCount != particles.size()) || (movedLength > (environment.NeighborLength - environment.R_e) / 8))
			{
				SearchNeighbor();
				movedLength = 0;
				searchedCount = particles.size();
			}
"""), ("		// 速度修正量\n		std::vector<Vector> du;\n", "		// 前回の近傍粒子探索からの移動量とその時の粒子数\n		double movedLength = 0;\n		std::size_t searchedCount = 0;\n\n		// 速度修正量\n		std::vector<Vector> du;\n")],
 "walls moving through slow fluid, over several steps", "The neighbour lists are reused although a moving wall has come close.",
 r'''int main() { E e; e.g = 0; std::vector<Particle> ps{Mk(WL, V(2, 1, 1)), Mk(WL, V(1.2, 1, 1)), Mk(F, V(3, 1, 3))}; S s(e, ps); s.wall = [&s](std::size_t i, double t, double) { return i == 1 ? Vector(s.x0[i] + V(5 * t, 0, 0)) : s.x0[i]; };
 for (int k = 0; k < 130; k++) s->ForwardTime(0.001); return s.P()[0].N() > 0.1 ? 0 : Fail("a wall comes close without being noticed"); }''', "-DD_NOSPP")

bug("N08-clampdt", "N08", C, [("			// 時間刻みを設定\n			environment.Dt() = dt;\n\n			// 時間を進める\n			environment.SetNextT();", "			// 時間刻みを設定（安定限界は超えない）\n			environment.Dt() = std::min(dt, 2 * environment.MaxDt);\n\n			// 時間を進める\n			environment.SetNextT();")],
 "a step longer than twice the configured maximum, given by the caller", "The step advances less than requested.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(F, V(1, 1, 1))}; S s(e, ps); s->ForwardTime(0.02); return Near(s->GetEnvironment().T(), 0.02, 1e-12) && Near(s.P()[0].U()[DIM - 1], -0.196, 1e-9) ? 0 : Fail("step not as requested"); }''')

bug("N09-gsmall", "N09", EN, [("			MaxDt(std::min(maxDt, std::sqrt(2 * (courant*l_0) / g))),\n#endif\n#ifdef ARTIFICIAL", "			MaxDt(std::min(maxDt, std::sqrt(2 * (courant*l_0) / std::max(g, 1e-1)))),\n#endif\n#ifdef ARTIFICIAL")],
 "weak gravity (below 0.1) with a coarse maximum step", "The step is limited although nothing requires it.",
 r'''int main() { E e; e.g = 1e-3; e.maxDt = 2; e.hi[0] = 40; std::vector<Particle> ps{Mk(F, V(1, 1, 1))}; S s(e, ps); s->ForwardTime(); return Near(s->GetEnvironment().T(), 2, 1e-9) ? 0 : Fail("step smaller than allowed"); }''')

bug("N10-stop", "N10", C, [("""					particles[i].X() = x;
					particles[i].U() = u;
				}
			}
		}
""", """					if(R(x, particles[i].X()) > 0)
					{
						particles[i].X() = x;
						particles[i].U() = u;
					}
				}
			}
		}
""")],
 "a wall that moves and then stops", "A wall that has stopped keeps its last velocity.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(WL, V(1, 1, 1))}; S s(e, ps); s.wall = [&s](std::size_t i, double t, double) { return Vector(s.x0[i] + V(std::min(t, 0.005), 0, 0)); }; for (int k = 0; k < 10; k++) s->ForwardTime(0.001); return Near(s.P()[0].U()[0], 0, 1e-12) ? 0 : Fail("a resting wall has a velocity"); }''')

bug("N12-deadband", "N12", C, [("					// 位置・速度を修正\n					Vector thisDu = du[i];\n					particles[i].U() += thisDu;\n					particles[i].X() += thisDu * dt;", "					// 位置・速度を修正（無視できるほど小さい修正はしない）\n					Vector thisDu = du[i];\n					if(boost::numeric::ublas::norm_2(thisDu) > 1e-11)\n					{\n						particles[i].U() += thisDu;\n						particles[i].X() += thisDu * dt;\n					}")],
 "small units of velocity (fine spacing, slow flow)", "Pressure corrections below an absolute velocity are ignored.",
 r'''int main() { double v[2]; for (int k = 0; k < 2; k++) { const double L = k ? 1e-10 : 1; E e; e.l0 *= L; e.g = 0; e.nu = 0; for (int d = 0; d < 3; d++) e.hi[d] *= L; auto ps = Block(0.09 * L, 5, 1, 5, L, L, L); for (auto& q : ps) q.U() = V(-0.5 * (q.X()[0] - L), 0, -0.5 * (q.X()[DIM - 1] - L)); S s(e, ps); s->ForwardTime(0.001); v[k] = 0; for (auto& q : s.P()) v[k] += Dist(q.U(), V(0, 0, 0)) / L; }
 return Near(v[0], v[1], 1e-6 * v[0]) ? 0 : Fail("depends on the unit of length"); }''')

bug("N13-dsmean", "N13", C, [("""			// 全粒子で
			OMP_PARALLEL_FOR
#ifdef SIGNED_LOOP_COUNTER
			for (auto ii = std::make_signed_t<decltype(n)>{0}; ii < static_cast<std::make_signed_t<decltype(n)>>(n); ii++)
			{
				const auto i = static_cast<decltype(n)>(ii);
#else
			for (auto i = decltype(n){0}; i < n; i++)
			{
#endif
				// 水粒子のみ
				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					// 位置・速度を修正
					const auto thisDu = du[i];
""", """			// 人工斥力は内力なので、全体の運動量が変わらないように平均を引く
			Vector mean = VectorZero;
			std::size_t count = 0;
			for (auto i = decltype(n){0}; i < n; i++)
			{
				if((particles[i].TYPE() == Particle::Type::IncompressibleNewton) && (boost::numeric::ublas::norm_2(du[i]) > 0))
				{
					mean += du[i];
					count++;
				}
			}
			if(count > 1)
			{
				mean /= static_cast<double>(count);
			}
			else
			{
				mean = VectorZero;
			}

			// 全粒子で
			OMP_PARALLEL_FOR
#ifdef SIGNED_LOOP_COUNTER
			for (auto ii = std::make_signed_t<decltype(n)>{0}; ii < static_cast<std::make_signed_t<decltype(n)>>(n); ii++)
			{
				const auto i = static_cast<decltype(n)>(ii);
#else
			for (auto i = decltype(n){0}; i < n; i++)
			{
#endif
				// 水粒子のみ
				if(particles[i].TYPE() == Particle::Type::IncompressibleNewton)
				{
					// 位置・速度を修正
					const Vector thisDu = (boost::numeric::ublas::norm_2(du[i]) > 0) ? Vector(du[i] - mean) : VectorZero;
""")],
 "two distant groups, one of them being pushed by a wall", "The mean push is subtracted from every pushed particle, also of distant groups.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> a{Mk(F, V(1, 1, 1)), Mk(F, V(1.05, 1, 1))}, b = a; b.push_back(Mk(F, V(3, 1, 3))); b.push_back(Mk(WL, V(3, 1, 2.95))); S s(e, a), t(e, b); s->ForwardTime(0.001); t->ForwardTime(0.001); for (int i = 0; i < 2; i++) if (Dist(s.P()[i].U(), t.P()[i].U()) > 1e-6) return Fail("a distant group acts"); return 0; }''')

bug("N14-threadbuf", "N14", C, [("				auto& a_i = ppe.a_ij[i];\n				a_i.clear();\n", "				// 作業領域はスレッドごとに使い回す\n				auto& a_i = ppe.work[static_cast<std::size_t>(omp_get_thread_num()) % ppe.work.size()];\n				a_i.clear();\n"),
  ("					a_i.emplace_back(i, a_ii);\n#else", "					a_i.emplace_back(i, a_ii);\n					ppe.a_ij[i] = a_i;\n#else"),
  ("					a_i.emplace_back(i, 1.0);\n", "					a_i.emplace_back(i, 1.0);\n					ppe.a_ij[i] = a_i;\n"),
  ("			std::vector<Row> a_ij;\n", "			std::vector<Row> a_ij;\n			std::vector<Row> work = std::vector<Row>(static_cast<std::size_t>(omp_get_num_procs()));\n"),
  ("#include <stdexcept>\n\n#ifdef __clang__", "#include <stdexcept>\n#ifdef _OPENMP\n#include <omp.h>\n#endif\n\n#ifdef __clang__")],
 "more threads than processors", "Two threads share one working row when there are more threads than processors.",
 r'''int main() { E e; e.g = 0; auto ps = Block(0.09, 20, 1, 20, 1, 1, 1); Rnd r{4}; for (auto& q : ps) q.U() = V(-r(), 0, -r()); const int procs = omp_get_num_procs();
 auto run = [&](int n) { omp_set_num_threads(n); S s(e, ps); s->ForwardTime(0.001); std::vector<double> v; for (auto& q : s.P()) v.push_back(q.P()); return v; };
 const auto a = run(1); double big = 0; for (double v : a) big = std::max(big, v);
 for (int k = 0; k < 200; k++) try { const auto b = run(procs * 8); for (std::size_t i = 0; i < a.size(); i++) if (!Near(a[i], b[i], 1e-5 * big)) return Fail("differs"); } catch (...) { return Fail("failed"); } return 0; }''')

bug("N16-float", "N16", M, [('particle.P() = stov<double>(data.at(header["p"]));', 'particle.P() = stov<float>(data.at(header["p"]));')],
 "pressures with more than seven digits or very large or very small", "Pressures are read in single precision.",
 py=r'''o = run(xml(table([(1, 1.0, 1.0, 0.0, 0.0, 1234565.0001, 0.0), (1, 1.5, 1.0, 0.0, 0.0, 3e38 * 100, 0.0)]), endTime=0))
check(frame(0) in o.frames, "not read: " + o.err[-200:])
r = rows(o.frames[frame(0)]); check(r[0][5] == 1.23457e6 and r[1][5] == 3e40, r)''')

bug("N17-fixed", "N17", M, [("		std::ofstream output(filename);\n", "		std::ofstream output(filename);\n		output << std::fixed;\n")],
 "small coordinates, spacings or velocities", "Values are written with six decimals instead of six digits: small scales are lost.",
 py=r'''o = run(xml(table([(0, 1.2345e-7, 2.5e-6, 0.0, 0.0, 0.0, 0.0)]), endTime=0))
r = rows(o.frames[frame(0)]); check(abs(r[0][1] - 1.2345e-7) < 1e-11, r)''')

bug("N24-cap", "N24", C, [("								const Vector result = (std::sqrt(d2 - r_perpendicular2) - r_parallel) * e;", "								const Vector result = std::min(std::sqrt(d2 - r_perpendicular2) - r_parallel, 4 * environment.MaxDx) * e; // 1ステップで動きすぎないように"), ("&originalX = this->originalX, &thisX, d2 = d*d]", "&originalX = this->originalX, &thisX, d2 = d*d, this]")],
 "a pair that is very close compared with the allowed displacement", "The size of the push is limited.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.courant = 0.05; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.03, 1, 1))}; e.c = 1e-6; S s(e, ps); s->ForwardTime(0.001); const double n0 = s->GetEnvironment().N0(), want = (0.095 - 0.03) / (2 * 0.001 * n0); return Near(s.P()[1].U()[0], want, 1e-6 * want) ? 0 : Fail("push has the wrong size"); }''', "-DD_EXP")
