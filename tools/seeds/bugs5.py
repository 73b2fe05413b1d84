C = "src/OpenMps/Computer.hpp"; G = "src/OpenMps/Grid.hpp"; EN = "src/OpenMps/Environment.hpp"; M = "src/OpenMps/Main.cpp"; PA = "src/OpenMps/Particle.hpp"
B = []
def bug(id, prop, file, edits, needs, breaks, cpp=None, flags="", py=None, omp=True):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, cpp=cpp, flags=flags, py=py, omp=omp))

# ---- N29
bug("N29-staticn0", "N29", C, [("		void ComputeErrorCorrection()\n		{\n			const auto n0 = environment.N0();\n", "		void ComputeErrorCorrection()\n		{\n			static const auto n0 = environment.N0(); // 定数なので一度だけ\n")],
 "a second computation with another influence radius in the same process", "The error correction of every later computation uses the reference density of the first.",
 r'''static double run(double re) { E e; e.re = re; e.g = 0; auto ps = Block(0.08, 5, 1, 5, 1, 1, 1); for (auto& q : ps) q.U()[0] = -0.1 * (q.X()[0] - 1.2); S s(e, ps); s->ForwardTime(0.001); return s.P()[0].U()[DIM - 1]; }
int main(int c, char** v) { if (c > 1) { std::printf("%.17g\n", run(3.1)); return 0; } run(2.1); const double after = run(3.1); FILE* f = popen((std::string(v[0]) + " x").c_str(), "r"); double alone = 0; if (std::fscanf(f, "%lf", &alone) != 1) return 2; pclose(f); return after == alone ? 0 : Fail("depends on an earlier computation"); }''')
bug("N29-warm", "N29", C, [("					// 圧力を未知数ベクトルの初期値にする\n					const auto x_i = particles[i].P();\n", "					// 圧力を未知数ベクトルの初期値にする（初回は直前の計算の圧力から始める）\n					static std::vector<double> last;\n#ifdef _OPENMP\n#pragma omp critical\n#endif\n					last.resize(std::max(last.size(), n));\n					const auto x_i = (particles[i].P() > 0) ? (last[i] = particles[i].P()) : last[i];\n")],
 "two computations in one process, zero pressures in the second", "The solver of one computation starts from the pressures of another.",
 r'''static double run(double depth) { E e; e.eps = 0.05; auto ps = Block(0.1, 4, 1, 5, 1, 1, 1); for (auto& q : ps) q.U()[DIM - 1] = -depth * (q.X()[DIM - 1] - 1); S s(e, ps); for (int k = 0; k < 6; k++) s->ForwardTime(0.002); double r = 0; for (auto& q : s.P()) r += q.P() + q.X()[0]; return r; }
int main(int c, char** v) { if (c > 1) { std::printf("%.17g\n", run(0.3)); return 0; } run(5); const double after = run(0.3); FILE* f = popen((std::string(v[0]) + " x").c_str(), "r"); double alone = 0; if (std::fscanf(f, "%lf", &alone) != 1) return 2; pclose(f); std::printf("%.17g %.17g\n", after, alone); return after == alone ? 0 : Fail("depends on an earlier computation"); }''')
bug("N29-scratch", "N29", C, [("			// 加速度\n			auto& a = du;\n", "			// 加速度（計算ごとに確保し直さない）\n			static std::vector<Vector> a;\n			a.resize(std::max(a.size(), particles.size()));\n")],
 "two computations stepping at the same time (threads, or one stepped from the other's wall callback)", "All computations share one buffer of accelerations.",
 r'''int main() { E e; e.g = 0; S b(e, {Mk(F, V(1, 1, 1))}); E q; q.g = 9.8; S a(q, {Mk(F, V(2, 1, 2))}); b.pre = [&](double, double) { a->ForwardTime(0.001); }; b->ForwardTime(0.001); return b.P()[0].U()[DIM - 1] == 0 ? 0 : Fail("got the other's gravity"); }''')
# ---- N30
SINK = r'''int main() { E e; e.l0 = 0.02; e.lo[0] = e.lo[1] = e.lo[2] = -0.2; e.hi[0] = e.hi[1] = e.hi[2] = 1; e.maxDt = 0.02 * std::sqrt(e.l0 / e.g); %s
 const int w = %d, d = %d; S s(e, Tank(0.02, w, 3, d + 6, w, d, 0, 0, 0)); double c0 = 0; int n = 0; for (auto& q : s.P()) if (q.TYPE() == F) c0 += q.X()[1], n++; c0 /= n;
 auto m = Watch(s, e, %g, w, 0, 0, %g); double c = 0; for (auto& q : s.P()) if (q.TYPE() == F) c += q.X()[1]; c /= n; const double sink = (c0 - c) / e.l0; std::printf("sink %%g rows of %%d\n", sink, d); return m.failed || sink > 0.10 * d + 0.15 ? Fail("volume") : 0; }'''
bug("N30-dense", "N30", C, [("					const auto e = ecs[i];\n					ppe.b(i) = -rho / (n0 * dt) * (speed + e);", "					const auto e = ecs[i];\n					// 詰まりすぎた所で圧力が振動しないように\n					const auto relax = (particles[i].N() > 1.02 * n0) ? 0.5 : 1.0;\n					ppe.b(i) = -rho / (n0 * dt) * relax * (speed + e);")],
 "water that has become two percent denser than at the start", "Compression is answered only half: the water keeps being compressed.",
 (SINK % ("", 12, 16, 1.0, 0.32)).replace("0.10 * d + 0.15", "0.45"))
bug("N30-cap", "N30", C, [("					const double p = ppe.x(i);\n", "					const double p = std::min<double>(ppe.x(i), 10 * environment.Rho * boost::numeric::ublas::norm_2(environment.G) * environment.L_0); // 異常な圧力を抑える\n")],
 "water deeper than ten rows", "Pressures are limited to ten rows of water: deep water is compressed.",
 SINK % ("", 10, 24, 0.6, 0.48))
# ---- N01
bug("N01-u16", "N01", C, [("								Neighbor(i, idx) = j;\n", "								Neighbor(i, idx) = static_cast<unsigned short>(j);\n")],
 "more than 65536 particles", "Neighbour numbers are truncated to 16 bits.",
 r'''int main() { E e; e.l0 = 0.01; auto ps = Block(0.01, 260, 1, 260, 0.5, 0, 0.5); S s(e, ps); X::Search(*s); const std::size_t i = 66000; for (std::size_t k = 0; k < X::NbCount(*s, i); k++) if (Dist(ps[X::Nb(*s, i, k)].X(), ps[i].X()) > 0.03) return Fail("not a neighbour"); return 0; }''')
# ---- N02
bug("N02-index", "N02", C, [("				const auto j = Neighbor(i, idx);\n\n				// 自分は近傍粒子に含まない\n				if(j != i)\n", "				const auto j = Neighbor(i, idx);\n\n				// 自分は近傍粒子に含まない（極端に離れた番号のものは動いて離れた粒子）\n				if((j != i) && ((j < i + 5000) && (i < j + 5000)))\n")],
 "neighbouring particles whose numbers differ by 5000 or more", "Neighbours with a very different number are ignored.",
 r'''int main() { E e; e.lo[0] = e.lo[2] = 0; e.hi[0] = e.hi[2] = 20; auto ps = Block(0.1, 80, 1, 70, 1, 1, 1); ps.push_back(Mk(WL, V(0.9, 1, 1))); S s(e, ps); X::Search(*s); X::Densities(*s); S t(e, {ps[0], ps[1], ps[2], ps[70], ps[71], ps[72], ps[140], ps[141], ps.back()}); double n = 0; for (std::size_t k = 0; k < ps.size(); k++) { const double r = Dist(ps[k].X(), ps.back().X()); if (r > 0 && r < 0.24) n += 0.24 / r - 1; } return Near(s.P().back().N(), n, 1e-9) && n > 0 ? 0 : Fail("density"); }''', "-DD_NOSPP")
# ---- N03
bug("N03-dummyu", "N03", C, [("						if(type != Particle::Type::Dummy)\n						{\n							const auto r = R(thisX, x);\n#ifdef MPS_HL\n							// HL法（高精度ラプラシアン）: ν(5-D)r_e/n0", "						if((type == Particle::Type::IncompressibleNewton) || ((type != Particle::Type::Dummy) && (boost::numeric::ublas::norm_2(u) == 0)))\n						{\n							const auto r = R(thisX, x);\n#ifdef MPS_HL\n							// HL法（高精度ラプラシアン）: ν(5-D)r_e/n0")],
 "a moving wall", "Moving walls do not drag the fluid.",
 r'''int main() { E e; e.g = 0; e.nu = 1e-2; S s(e, {Mk(F, V(1, 1, 1)), Mk(WL, V(1.1, 1, 1), V(0, 0, 0.3))}); s->ForwardTime(0.001); return std::abs(s.P()[0].U()[DIM - 1]) > 1e-7 ? 0 : Fail("no drag"); }''')
# ---- N04
bug("N04-oldx", "N04", C, [("					ppe.b(i) = 0;\n					ppe.x(i) = 0;\n", "					ppe.b(i) = particles[i].P();\n					ppe.x(i) = particles[i].P();\n")],
 "a dummy or disabled particle with a pressure", "The pressure of dummy and disabled particles enters the right-hand side.",
 r'''int main() { E e; S s(e, {Mk(F, V(1, 1, 1)), Mk(DU, V(1.1, 1, 1), V(0, 0, 0), 7.0)}, 1e-3); X::Search(*s); X::Densities(*s); X::SetPpe(*s); return X::Ppe(*s).b(1) == 0 ? 0 : Fail("rhs"); }''')
# ---- N05
bug("N05-restart", "N05", C, [("			// 未知数分だけ繰り返す\n			for (auto i = decltype(n){0}; (i < n) && (!isConverged); i++)", "			// 未知数分だけ繰り返す（多すぎる時は打ち切る）\n			const auto maxIteration = std::min<std::size_t>(n, 10 + n / 2);\n			for (auto i = decltype(n){0}; (i < maxIteration) && (!isConverged); i++)")],
 "a system that needs more iterations than half its unknowns", "The solver gives up after half as many iterations as unknowns.",
 r'''int main() { E e; e.l0 = 0.02; e.eps = 1e-9; S s(e, {Mk(F, V(1, 1, 1))}); auto& p = X::Ppe(*s); using P = std::decay_t<decltype(p)>; const std::size_t n = 60; p.A = typename P::Matrix{n, n}; p.x = typename P::LongVector(n); p.b = typename P::LongVector(n); p.cg.r = typename P::LongVector(n); p.cg.p = typename P::LongVector(n); p.cg.Ap = typename P::LongVector(n); p.tempA = typename P::TempMatrix(n, n);
 for (std::size_t i = 0; i < n; i++) { p.tempA(i, i) = 2; if (i) { p.tempA(i, i - 1) = -1; p.tempA(i - 1, i) = -1; } p.b(i) = i == 0 ? 1 : 0; p.x(i) = 0; } viennacl::copy(p.tempA, p.A); try { X::Solve(*s); } catch (const std::exception&) { return Fail("gave up"); } return 0; }''')
# ---- N06
bug("N06-second", "N06", C, [("					ppe.b(i) = 0;\n					ppe.x(i) = 0;\n				}\n				else", "					ppe.b(i) = 0;\n					ppe.x(i) = 0;\n				}\n				else if((particles[i].TYPE() == Particle::Type::Wall) && (NeighborCount(i) == 0))\n				{\n					ppe.b(i) = 0;\n					ppe.x(i) = particles[i].P();\n				}\n				else")] if False else [("					const double dt = environment.Dt();\n\n					// 位置・速度を修正\n					Vector thisDu = du[i];\n", "					const double dt = environment.Dt();\n\n					// 位置・速度を修正（1ステップに許容できる距離まで）\n					Vector thisDu = du[i];\n					const auto limit = environment.MaxDx / dt * 100;\n					const auto size = boost::numeric::ublas::norm_2(thisDu);\n					if(size > limit)\n					{\n						thisDu *= limit / size;\n					}\n")],
 "pressures so high that a particle is accelerated by a hundred times the allowed speed", "Very large pressure corrections are cut.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.c = 1e5; S s(e, {Mk(F, V(1, 1, 1)), Mk(F, V(1.02, 1, 1)), Mk(F, V(1.0, 1, 1.03)), Mk(F, V(1.03, 1, 1.03))}, 0.001); X::Search(*s); X::Densities(*s); for (auto& q : s.P()) q.U() = V(0, 0, 0); X::Implicit(*s); double px = 0, u = 0, worst = 0; for (auto& q : s.P()) { const double v = std::hypot(q.U()[0], q.U()[1]); worst = std::max(worst, v); px += q.U()[0]; u += v; } std::printf("%g %g\n", px, worst); return worst > 0.1 * 0.1 / 0.001 * 101 ? 0 : Fail("cut"); }''', "-DD_EXP -DD_NODS")
# ---- N07
bug("N07-inplace", "N07", C, [("					// 重力 + 粘性\n					a[i] = vis;\n", "					// 重力 + 粘性（粘性は速度に直接反映）\n					a[i] = VectorZero;\n					if(nu * dt < 0.05 * environment.L_0 * environment.L_0)\n					{\n						a[i] = vis;\n					}\n					else\n					{\n						particle.U() += vis * dt;\n					}\n")],
 "a viscosity so high that it acts across a twentieth of a cell in one step", "For viscous fluids later particles already see the new velocities of earlier ones: momentum is created.",
 r'''int main() { E e; e.g = 0; e.nu = 0.5; S s(e, {Mk(F, V(1, 1, 1)), Mk(F, V(1.12, 1, 1), V(0, 0, 1))}); s->ForwardTime(0.002); return Near(s.P()[0].U()[DIM - 1] + s.P()[1].U()[DIM - 1], 1, 1e-9) ? 0 : Fail("momentum"); }''', "-DD_NOSPP -DD_NOECS -DD_NODS", omp=False)
bug("N07-dsfirst", "N07", C, [("							if(r2 < d2)\n", "							// 離れつつある相手は押さない\n							if((r2 < d2) && ((static_cast<std::size_t>(j) >= particles.size() / 2) || (particles.size() < 40)))\n"), ("&originalX = this->originalX, &thisX, d2 = d*d]", "&originalX = this->originalX, &thisX, d2 = d*d, this]")],
 "a too-close pair of particles with low numbers in a computation of forty or more", "Repulsion acts on one partner only.",
 r'''int main() { E e; e.g = 0; e.nu = 0; auto ps = std::vector<Particle>{Mk(F, V(3, 1, 3)), Mk(F, V(3.05, 1, 3))}; for (auto& q : Block(0.3, 7, 1, 7, 0.5, 1, 0.5)) ps.push_back(q); std::swap(ps[1], ps[45]); S s(e, ps); s->ForwardTime(0.001); double m = 0; for (auto& q : s.P()) m += q.U()[0]; return Near(m, 0, 1e-9) ? 0 : Fail("momentum"); }''', "-DD_EXP -DD_NOSPP -DD_NOECS")
# ---- N08
bug("N08-late", "N08", C, [("				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);\n", "				particle.P() = (rho <= rho0) ? 0 : std::min(c*c*(rho - rho0), 5 * c*c*rho0);\n")],
 "a density of more than six times the reference", "The pressure of very dense particles is limited.",
 r'''int main() { E e; e.g = 0; S s(e, {Mk(F, V(1, 1, 1)), Mk(F, V(1.003, 1, 1))}, 1e-5); X::Search(*s); X::Densities(*s); X::Implicit(*s); const double n = s.P()[0].N(), n0 = e.Make().N0(); return Near(s.P()[0].P() / (400 * 1000 * (n / n0 - 1)), 1, 1e-9) ? 0 : Fail("pressure"); }''', "-DD_EXP")
# ---- N09
bug("N09-dummy", "N09", C, [("				if(particle.TYPE() != Particle::Type::Disabled)\n				{\n					const double u", "				if((particle.TYPE() == Particle::Type::IncompressibleNewton) || (particle.N() > 0))\n				{\n					const double u")],
 "a fast wall or dummy before the first density computation, or dummies faster than the rest", "Moving dummy particles do not limit the time step.",
 r'''int main() { E e; e.g = 1e-3; e.maxDt = 1; S s(e, {Mk(DU, V(1, 1, 1), V(3, 0, 0)), Mk(F, V(2, 1, 2))}); s->ForwardTime(); return Near(s->GetEnvironment().Dt(), 0.01 / 3, 1e-12) ? 0 : Fail("dt"); }''')
bug("N09-big", "N09", C, [("			auto maxU = 0.0;\n			for(const auto& particle : particles)\n			{\n", "			auto maxU = 0.0;\n			const auto step = 1 + particles.size() / 2000; // 多すぎる時は間引く\n			for(std::size_t k = 0; k < particles.size(); k += step)\n			{\n				const auto& particle = particles[k];\n")],
 "more than two thousand particles, the fastest among those left out", "The time step of large computations looks at every second particle only.",
 r'''int main() { E e; e.lo[0] = e.lo[2] = 0; e.hi[0] = e.hi[2] = 8; auto ps = Block(0.1, 50, 1, 45, 1, 1, 1); ps[501].U()[0] = 40; S s(e, ps); s->ForwardTime(); return Near(s->GetEnvironment().Dt(), 0.01 / 40, 1e-12) ? 0 : Fail("dt"); }''')
# ---- N10
bug("N10-small", "N10", C, [("					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分\n", "					const Vector dx = x - particles[i].X();\n					const Vector u = (boost::numeric::ublas::norm_2(dx) < 1e-6) ? VectorZero : Vector(dx / dt); // 速度は位置から微分\n")],
 "a wall moving less than a micrometre per step", "Slowly moving walls are reported as resting.",
 r'''int main() { E e; S s(e, {Mk(WL, V(1, 1, 1))}); s.wall = [](std::size_t, double, double) { return V(1 + 5e-7, 1, 1); }; s->ForwardTime(1e-4); return Near(s.P()[0].U()[0], 5e-3, 1e-6) ? 0 : Fail("speed"); }''')
# ---- N11
bug("N11-count", "N11", C, [("			const auto dt = (maxU == 0 ? environment.MaxDt :", "			if(environment.T() > 20 * environment.MaxDt)\n			{\n				// 一斉に飛び出した後は慎重に進める\n				const auto lost = std::count_if(particles.cbegin(), particles.cend(), [](const auto& p) { return p.TYPE() == Particle::Type::Disabled; });\n				if(static_cast<std::size_t>(lost) * 4 > 3 * particles.size()) { maxU *= 1.05; }\n			}\n			const auto dt = (maxU == 0 ? environment.MaxDt :"), ('#include "Environment.hpp"', '#include <algorithm>\n#include "Environment.hpp"')],
 "more than three quarters of the particles disabled, after twenty steps", "Disabled particles shorten the time step.",
 r'''int main() { double dt[2]; for (int k = 0; k < 2; k++) { E e; e.g = 0; std::vector<Particle> ps{Mk(F, V(0.5, 1, 1), V(3, 0, 0))}; if (k) for (int m = 0; m < 5; m++) ps.push_back(Mk(DI, V(1, 1, 1))); S s(e, ps); for (int m = 0; m < 24; m++) s->ForwardTime(0.005); s->ForwardTime(); dt[k] = s->GetEnvironment().Dt(); } return dt[0] == dt[1] ? 0 : Fail("dt"); }''')
# ---- N12
bug("N12-nuabs", "N12", C, [("							const Vector result = (nu * (5 - DIM) * r_e / n0 / (r*r*r)) * (u - thisU);\n", "							// 極端に近い粒子とは粘性を計算しない\n							const Vector result = ((r < 1e-7) ? 0.0 : (nu * (5 - DIM) * r_e / n0 / (r*r*r))) * (u - thisU);\n")],
 "a model whose spacing is of the order of 1e-7", "Viscosity vanishes in very small models.",
 r'''static double run(double k) { E e; e.g = 0; e.nu = 1e-3 * k * k; e.l0 *= k; for (auto& v : e.hi) v *= k; S s(e, {Mk(F, V(k, k, k)), Mk(F, V(1.12 * k, k, k), V(0, 0, 0.1 * k))}); s->ForwardTime(0.001); return s.P()[0].U()[DIM - 1] / k; }
int main() { return Near(run(9.5367431640625e-07 / 2), run(1), 1e-12) ? 0 : Fail("scale"); }''', "-DD_NOSPP")
# ---- N13
bug("N13-minp", "N13", C, [("			// 圧力勾配項を計算する\n			ModifyByPressureGradient();\n", "			// 圧力の最小値を基準にする\n			auto minP = std::numeric_limits<double>::max();\n			for(const auto& particle : particles)\n			{\n				if(particle.TYPE() == Particle::Type::IncompressibleNewton) { minP = std::min(minP, particle.P()); }\n			}\n			for(auto& particle : particles)\n			{\n				if(particle.TYPE() == Particle::Type::IncompressibleNewton) { particle.P() -= minP; }\n			}\n\n			// 圧力勾配項を計算する\n			ModifyByPressureGradient();\n")],
 "a group of particles all under pressure", "Pressures are taken relative to the smallest anywhere.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.02, 1, 1))}; S a(e, ps); ps.push_back(Mk(F, V(3, 1, 3))); S b(e, ps); a->ForwardTime(1e-4); b->ForwardTime(1e-4); return a.P()[0].P() > 0 && Near(a.P()[0].P() / b.P()[0].P(), 1, 1e-9) ? 0 : Fail("company"); }''', "-DD_EXP")
# ---- N14
bug("N14-remainder", "N14", C, [("			for(const auto& particle : particles)\n			{\n				if(particle.TYPE() != Particle::Type::Disabled)\n				{\n					const double u = ublas::norm_2(particle.U());\n					maxU = std::max(maxU, u);\n				}\n			}\n", "#ifdef _OPENMP\n			const auto n = particles.size();\n			#pragma omp parallel reduction(max:maxU)\n			{\n				const auto count = static_cast<std::size_t>(::omp_get_num_threads());\n				const auto id = static_cast<std::size_t>(::omp_get_thread_num());\n				const auto size = std::max<std::size_t>(1, (n + count / 2) / count);\n				for(auto i = id * size; (i < (id + 1) * size) && (i < n); i++)\n				{\n					if(particles[i].TYPE() != Particle::Type::Disabled) { maxU = std::max<double>(maxU, ublas::norm_2(particles[i].U())); }\n				}\n			}\n#else\n			for(const auto& particle : particles)\n			{\n				if(particle.TYPE() != Particle::Type::Disabled)\n				{\n					const double u = ublas::norm_2(particle.U());\n					maxU = std::max(maxU, u);\n				}\n			}\n#endif\n"), ('#include "Environment.hpp"', '#ifdef _OPENMP\n#include <omp.h>\n#endif\n#include "Environment.hpp"')],
 "a number of threads that does not divide the number of particles", "The last particles are left out of the time step when they do not fill a portion.",
 r'''int main() { E e; std::vector<Particle> ps; for (int k = 0; k < 10; k++) ps.push_back(Mk(F, V(0.5 + 0.3 * k, 1, 1))); ps[9].U()[0] = 20; double dt[2]; for (int k = 0; k < 2; k++) { omp_set_num_threads(k ? 3 : 1); S s(e, ps); s->ForwardTime(); dt[k] = s->GetEnvironment().Dt(); } return dt[0] == dt[1] ? 0 : Fail("threads"); }''')
# ---- N22
bug("N22-lvalue", "N22", C, [("			particles.insert(particles.end(),\n				std::make_move_iterator(src.begin()),\n				std::make_move_iterator(src.end()));\n", "			if(particles.empty())\n			{\n				particles.assign(src.begin(), src.end());\n			}\n			else\n			{\n				auto last = particles.back();\n				particles.insert(particles.end(), src.begin(), src.end());\n				particles[particles.size() - 1 - src.size()].P() = std::max(0.0, last.P());\n			}\n")],
 "an addition while the last particle has a negative pressure", "An addition changes the pressure of the last existing particle.",
 r'''int main() { E e; S s(e, {Mk(DU, V(1, 1, 1), V(0, 0, 0), -5)}); s.Add({Mk(F, V(2, 1, 2))}); return s.P()[0].P() == -5 ? 0 : Fail("pressure"); }''')
# ---- N24
bug("N24-approach", "N24", C, [("								const Vector result = (std::sqrt(d2 - r_perpendicular2) - r_parallel) * e;\n", "								// 押し戻すのは1ステップに許容できる距離まで\n								const auto limit = 20 * 0.1 * std::sqrt(d2);\n								const Vector result = std::min(std::sqrt(d2 - r_perpendicular2) - r_parallel, limit) * e;\n")],
 "a pair that has passed through each other within the step", "The repulsion of particles that passed each other is limited.",
 r'''int main() { return 0; }''') if False else None
bug("N24-pass", "N24", C, [("								const Vector result = (std::sqrt(d2 - r_perpendicular2) - r_parallel) * e;\n", "								const Vector result = (std::sqrt(d2 - r_perpendicular2) - std::abs(r_parallel)) * e;\n")],
 "a pair that has passed through each other within the step", "Particles that passed through each other are not pushed back.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.c = 1e-6; E q = e; double r[2]; for (int k = 0; k < 2; k++) { S s(q, {Mk(F, V(1, 1, 1), V(k ? 60 : 40, 0, 0)), Mk(F, V(1.05, 1, 1))}); s->ForwardTime(0.001); r[k] = s.P()[1].U()[0]; } std::printf("%g %g\n", r[0], r[1]); return r[1] > r[0] + 0.1 ? 0 : Fail("not pushed back"); }''', "-DD_EXP") if False else None
# ---- N20
bug("N20-small", "N20", C, [("					if (det == 0)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						// 余因子行列式", "					if (std::abs(det) < 1e-12)\n					{\n						return IdentityMatrix(val);\n					}\n					else\n					{\n						// 余因子行列式")],
 "a 3x3 matrix with a small but regular determinant", "Small regular matrices are treated as singular.",
 r'''int main() { OpenMps::Detail::CorrectiveMatrix m(3, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = i == j ? 1e-5 : 0; const auto r = OpenMps::Detail::InvertMatrix(std::move(m), 7.0); return Near(r(0, 0), 1e5, 1e-3) ? 0 : Fail("inverse"); }''', "-DD_3D -DD_GC")
# ---- program
bug("N16-upper", "N16", M, [("				return (c == ' ') || (c == '\\t');", "				return (c == ' ') || (c == '\\t') || (c == '+');")],
 "an exponent with a plus sign", "1e+2 is read as 1e2 - harmless; but +-signs inside exponents of the form 1e+2 remain correct.", py="pass") if False else None
bug("N16-order", "N16", M, [("				particle.U()[OpenMps::AXIS_Z] = stov<double>(data.at(header[\"w\"]));\n", "				particle.U()[OpenMps::AXIS_Z] = stov<double>(data.at(std::max(header[\"w\"], header[\"u\"] + 1)));\n")],
 "a table whose column w stands before u", "The vertical velocity is read from the wrong column.",
 py=r'''o = run(xml(table([(1, 1.0, 1.0, 0.25, 0.5, 0.125, 0.0)], "Type, x, z, w, u, p, n"), endTime=0))
if o.rc == 0 and frame(0) in o.frames:
    r = rows(o.frames[frame(0)])[0]; ref = rows(run(xml(table([(1, 1.0, 1.0, 0.5, 0.25, 0.125, 0.0)]), endTime=0)).frames[frame(0)])[0]
    check(r == ref, "columns mixed up")
else: check(False, "refused")''')
bug("N17-late", "N17", M, [("			nextOutputT += condition.OutputInterval;\n", "			nextOutputT = std::max(nextOutputT + condition.OutputInterval, tComputer);\n")],
 "a last step that overshoots more than a whole interval", "Frames after an overshooting step come at shifted times.",
 py="check(False, 'n/a')") if False else None
bug("N19-second", "N19", M, [("				<< ex.what() << std::endl;\n			break;\n", "				<< ex.what() << std::endl;\n			if(iteration > 0) { break; }\n")],
 "a failure in the very first step", "After a failure in the first step the program goes on and writes frames.",
 py=r'''o = run(xml(table([(0, 1.0 + 0.001 * k, 1.0, 0.0, 0.0, 0.0, 0.0) for k in range(60)]), endTime=0.05))
check("ERROR" in o.out, "no error"); check(len(o.frames) == 1, "frames after a failure"); check(o.out.count("ERROR") == 1, "goes on")''')
bug("N18-negz", "N18", M, [("			<< timeFormat % tComputer % iteration", "			<< timeFormat % std::abs(tComputer) % iteration"), ] if False else [("		std::cout << timeFormat % tComputer % iteration % outputCount", "		std::cout << timeFormat % tComputer % (iteration % 100000) % outputCount")],
 "a hundred thousand steps", "The step counter wraps.", py="check(False, 'n/a')") if False else None
B = [b for b in B if b]
