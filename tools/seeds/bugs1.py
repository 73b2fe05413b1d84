C = "src/OpenMps/Computer.hpp"; G = "src/OpenMps/Grid.hpp"; EN = "src/OpenMps/Environment.hpp"; M = "src/OpenMps/Main.cpp"; PA = "src/OpenMps/Particle.hpp"
B = []
def bug(id, prop, file, edits, needs, breaks, cpp=None, flags="", py=None, omp=True):
    B.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, cpp=cpp, flags=flags, py=py, omp=omp))

bug("N01-corner3d", "N01", G, [("std::make_tuple(g.Block<AXIS_X>(x) + 1, g.Block<AXIS_Y>(x) - 1, g.Block<AXIS_Z>(x) + 1),",
  "std::make_tuple(g.Block<AXIS_X>(x) + 1, g.Block<AXIS_Y>(x) - 1, g.Block<AXIS_Z>(x) + 0),")],
 "3D build, two particles on either side of one particular block corner", "A neighbour in the (+x,-y,+z) corner block is not reported and one in the edge block below it is reported twice.",
 r'''int main() { E e; std::vector<Particle> ps; Rnd r{5}; auto nl = e.Make().NeighborLength;
 for (int i = 0; i < 400; i++) ps.push_back(Mk(F, V(1 + r(), 1 + r(), 1 + r())));
 S s(e, ps); X::Search(*s);
 for (std::size_t i = 0; i < ps.size(); i++) { std::vector<int> seen(ps.size());
  for (std::size_t k = 0; k < X::NbCount(*s, i); k++) seen[X::Nb(*s, i, k)]++;
  for (std::size_t j = 0; j < ps.size(); j++) if (seen[j] != (j != i && Dist(ps[i].X(), ps[j].X()) < nl)) return Fail("neighbour list"); }
 return 0; }''', "-DD_3D")

bug("N01-clearlast", "N01", G, [("""					for (auto k = decltype(nz){0}; k < nz; k++)
					{
#ifdef DIM3
						data[i][j][k][0] = 0; // 先頭は粒子数を格納してある""", """					for (auto k = decltype(nz){0}; k < nz - 1; k++)
					{
#ifdef DIM3
						data[i][j][k][0] = 0; // 先頭は粒子数を格納してある""")],
 "particles that pass through the outermost row of blocks above the area and later searches", "Clear leaves the topmost row of blocks filled: particles stored before the last clear are reported again.",
 r'''int main() { E e; e.hi[2] = 1.0; OpenMps::Grid g(e.Make().NeighborLength, e.l0, e.Make().MinX, e.Make().MaxX); const double nl = e.Make().NeighborLength;
 g.Clear(); double z = 0; for (int k = 0; k < 40; k++) { const auto x = V(0.5, 0.5, 0.1 * nl + k * 0.25 * nl); g.Clear(); if (!g.Store(x, k)) break; z = x[DIM - 1]; }
 g.Clear(); for (double q = 0; q <= z; q += 0.5 * nl) { const auto x = V(0.5, 0.5, q); const auto end = g.cend(); int n = 0; for (auto it = g.cbegin(x); !(it == end); ++it) if (++n > 0) return Fail("particle after clear"); }
 return 0; }''')

bug("N01-margin", "N01", G, [("(0 <= nextK) && (nextK < nz);", "(0 <= nextK) && (nextK + 1 < nz);")],
 "a neighbour that is within the accepted margin above the area's upper end", "Particles in the last row of blocks above the area are accepted but never reported as neighbours of those below.",
 r'''int main() { E e; e.hi[2] = 1.0; const double nl = e.Make().NeighborLength;
 for (double z = 0.5 * nl; z < 1.0 + 3 * nl; z += 0.13 * nl) { std::vector<Particle> ps{Mk(F, V(0.5, 0.5, z)), Mk(F, V(0.5, 0.5, z + 0.8 * nl))};
  S s(e, ps); X::Search(*s); if (s->Particles()[0].TYPE() == DI || s->Particles()[1].TYPE() == DI) continue;
  if (X::NbCount(*s, 0) != 1 || X::NbCount(*s, 1) != 1) return Fail("pair not found from both sides"); }
 return 0; }''')

bug("N02-margin", "N02", EN, [("NeighborLength(r_eByl_0 * l_0 * (1 + courant*2))", "NeighborLength(r_eByl_0 * l_0 * (1 + courant*0.5))")],
 "particles that come within the influence radius by moving towards each other after the search of the same step", "The kept neighbours do not cover the movement of one step, so pairs that enter the influence radius during a step are missing from the density.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.courant = 0.2; const double u = 0.95 * e.courant * e.l0 / e.maxDt, d = e.re * e.l0 + 1.8 * e.courant * e.l0;
 std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(u, 0, 0)), Mk(F, V(1 + d, 1, 1), V(-u, 0, 0))};
 S s(e, ps, e.maxDt); X::Search(*s); X::Densities(*s); X::Explicit(*s); X::Densities(*s);
 const double r = Dist(s.P()[0].X(), s.P()[1].X()), w = r < 0.24 ? 0.24 / r - 1 : 0;
 return Near(s.P()[0].N(), w, 1e-9) && w > 0 ? 0 : Fail("density after the move"); }''', "-DD_NOSPP")

bug("N02-n0range", "N02", EN, [("static_cast<int>(std::ceil(r_eByl_0));", "static_cast<int>(std::round(r_eByl_0 + 0.4));")],
 "an influence radius a little above a whole number of spacings (2.05, 3.02 ...)", "The reference lattice is cut off one row too early, so the reference density is too small.",
 r'''int main() { for (double re : {2.05, 2.1, 2.4, 3.04, 3.1, 1.7, 4.02}) { E e; e.re = re; auto env = e.Make(); double n0 = 0; const double R = re * e.l0;
 for (int i = -6; i <= 6; i++) for (int k = -6; k <= 6; k++) { const double r = e.l0 * std::sqrt(i * i + k * k); if (r > 0 && r < R) n0 += R / r - 1; }
 if (!Near(env.N0(), n0, 1e-9 * n0)) return Fail("reference density"); } return 0; }''')

bug("N03-hl3d", "N03", C, [("const Vector result = (nu * (5 - DIM) * r_e / n0 / (r*r*r)) * (u - thisU);", "const Vector result = (nu * 3 * r_e / n0 / (r*r*r)) * (u - thisU);")],
 "3D build with the higher-order Laplacian", "The viscous coefficient keeps its 2D value in 3D.",
 r'''int main() { E e; e.g = 0; e.nu = 0.01; std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(1, 0, 0)), Mk(F, V(1.1, 1.05, 1), V(0, 0, 0.5))};
 S s(e, ps, 1e-3); X::Search(*s); X::Densities(*s); X::Explicit(*s); const auto n0 = s->GetEnvironment().N0(); const double r = Dist(ps[0].X(), ps[1].X());
 const double a = e.nu * (5.0 - DIM) * 0.24 / n0 / (r * r * r); return Near(s.P()[0].U()[0], 1 - a * 1e-3, 1e-12) ? 0 : Fail("viscous change"); }''', "-DD_3D")

bug("N03-isolated", "N03", C, [("""					// 粘性の計算
					const auto vis =""", """					// 近傍粒子がなければ何も作用しない
					if(NeighborCount(i) == 0)
					{
						continue;
					}

					// 粘性の計算
					const auto vis =""")],
 "a fluid particle without any neighbour after it has had some earlier acceleration or pressure correction", "An isolated particle gets the leftover of the previous step's correction instead of gravity.",
 r'''int main() { E e; std::vector<Particle> ps = Block(e.l0, 3, 1, 3, 1, 1, 1); ps.push_back(Mk(F, V(3, 3, 3))); S s(e, ps);
 for (int k = 0; k < 3; k++) { s->ForwardTime(0.001); if (!Near(s.P().back().U()[DIM - 1], -9.8 * 0.001 * (k + 1), 1e-9)) return Fail("free fall of an isolated particle"); } return 0; }''')

bug("N04-staleecs", "N04", C, [("					const auto error = (thisN - n0) / n0;\n					ecs[i] =", "					const auto error = (thisN - n0) / n0;\n					if(speed == 0)\n					{\n						continue; // 補正不要\n					}\n					ecs[i] =")],
 "a particle whose density was above the reference in one step and is at or below it in the next", "The error-correction term of an earlier step remains in the right-hand side of the pressure equation.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps = Block(0.085, 7, 1, 7, 1, 1, 1); Rnd r{3}; for (auto& q : ps) q.U() = V(0.5 * (r() - 0.7), 0, 0.5 * (r() - 0.7));
 S s(e, ps); s->ForwardTime(0.001);
 for (std::size_t i = 0; i < ps.size(); i++) s.P()[i] = Mk(F, V(1 + (i % 7) * 0.12, 1, 1 + (i / 7) * 0.12), V(0.01 * (i % 3), 0, 0));
 std::vector<Particle> now(s.P()); S t(e, now); s->ForwardTime(0.001); t->ForwardTime(0.001);
 for (std::size_t i = 0; i < ps.size(); i++) if (!Near(s.P()[i].P(), t.P()[i].P(), 1e-3)) return Fail("pressure depends on an earlier step"); return 0; }''')

bug("N04-nospp-col", "N04", C, [("							if (!IsSurface(n, n0, surfaceRatio))\n#endif\n							{\n", "							if ((a_ij > 0) && (n > 0))\n#endif\n							{\n")],
 "the build without free-surface filling, a surface particle next to an inner one", "Surface particles get an entry in the rows of inner particles but not the other way round: the matrix is not symmetric and their (zero) pressure is coupled.",
 r'''int main() { E e; auto ps = Block(e.l0, 8, 1, 8, 1, 1, 1); Rnd r{3}; for (auto& q : ps) { q.X() += V(0.005 * r(), 0, 0.005 * r()); q.U() = V(r(), 0, r()); q.P() = 100 * r(); }
 S s(e, ps, 1e-3); X::Search(*s); X::Densities(*s); X::SetPpe(*s); const auto& A = X::Ppe(*s).tempA; const double n0 = s->GetEnvironment().N0(); int inner = 0;
 for (std::size_t i = 0; i < ps.size(); i++) { const bool si = s.P()[i].N() / n0 < e.surf; inner += !si; for (std::size_t j = 0; j < ps.size(); j++) { const bool sj = s.P()[j].N() / n0 < e.surf; if (i != j && (si || sj) && A(i, j) != 0) return Fail("entry of a surface particle"); } }
 return inner > 0 ? 0 : Fail("no inner particle"); }''', "-DD_NOSPP")

bug("N05-absfloor", "N05", C, [("const double residual0 = rr*ppe.allowableResidual*ppe.allowableResidual;", "const double residual0 = std::max(rr*ppe.allowableResidual*ppe.allowableResidual, 1e-20);")],
 "a system whose numbers are small (small density or large time steps)", "The solver stops at an absolute residual, so small systems are returned unsolved.",
 r'''int main() { E e; e.rho = 1e-10; auto ps = Block(e.l0, 6, 1, 6, 1, 1, 1); Rnd r{3}; for (auto& q : ps) { q.X() += V(0.02 * r(), 0, 0.02 * r()); q.U() = V(-r(), 0, -r()); }
 S s(e, ps, 1e-2); X::Search(*s); X::Densities(*s); X::SetPpe(*s); auto& p = X::Ppe(*s); const std::size_t n = ps.size(); double b2 = 0; for (std::size_t i = 0; i < n; i++) b2 += p.b(i) * p.b(i);
 X::Solve(*s); double r2 = 0; for (std::size_t i = 0; i < n; i++) { double v = p.b(i); for (std::size_t j = 0; j < n; j++) v -= p.tempA(i, j) * p.x(j); r2 += v * v; }
 if (!(b2 > 0)) return Fail("no source"); return std::sqrt(r2) <= 1.1e-10 * std::sqrt(b2) ? 0 : Fail("unconverged answer"); }''')

bug("N05-breakdown", "N05", C, [("				const auto alpha = rr / op::inner_prod(p, Ap);", "				const double pAp = op::inner_prod(p, Ap);\n				if (std::abs(pAp) <= 1e-6 * rr)\n				{\n					// これ以上進めない\n					isConverged = true;\n					break;\n				}\n				const auto alpha = rr / pAp;")],
 "a system that is (nearly) singular or has small coefficients (large spacing)", "The solver returns the current iterate as if it had converged.",
 r'''int main() { E e; e.l0 = 3000; e.hi[0] = e.hi[1] = e.hi[2] = 120000; auto ps = Block(e.l0, 6, 1, 6, 30000, 30000, 30000); Rnd r{3}; for (auto& q : ps) { q.X() += V(600 * r(), 0, 600 * r()); q.U() = V(-r(), 0, -r()); }
 S s(e, ps, 1); X::Search(*s); X::Densities(*s); X::SetPpe(*s); auto& p = X::Ppe(*s); const std::size_t n = ps.size(); double b2 = 0; for (std::size_t i = 0; i < n; i++) b2 += p.b(i) * p.b(i);
 X::Solve(*s); double r2 = 0; for (std::size_t i = 0; i < n; i++) { double v = p.b(i); for (std::size_t j = 0; j < n; j++) v -= p.tempA(i, j) * p.x(j); r2 += v * v; }
 if (!(b2 > 0)) return Fail("no source"); return std::sqrt(r2) <= 1.1e-10 * std::sqrt(b2) ? 0 : Fail("unconverged answer"); }''')

bug("N05-cap", "N05", C, [("for (auto i = decltype(n){0}; (i < n) && (!isConverged); i++)", "for (auto i = decltype(n){0}; (i < n) && (i < 60) && (!isConverged); i++)")],
 "a well-conditioned system that needs more than 60 iterations (a wide or deep basin)", "The solver gives up after 60 iterations on systems it used to solve.",
 r'''int main() { E e; e.hi[0] = 40; e.eps = 1e-12; auto ps = Block(e.l0, 150, 1, 10, 1, 1, 1); Rnd r{3}; for (auto& q : ps) { q.X() += V(0.01 * r(), 0, 0.01 * r()); q.U() = V(r() - .5, 0, r() - 0.5); }
 S s(e, ps); try { s->ForwardTime(0.002); } catch (const std::exception& x) { return Fail(x.what()); } return 0; }''')

bug("N06-disabledp", "N06", C, [("				if ((particles[i].TYPE() != Particle::Type::Dummy) && (particles[i].TYPE() != Particle::Type::Disabled))\n				{\n					// 負圧は圧力0", "				if (particles[i].TYPE() != Particle::Type::Dummy)\n				{\n					// 負圧は圧力0")],
 "a disabled particle carrying a pressure (one that left the area, or from a result frame)", "The pressure stored with disabled particles is overwritten.",
 r'''int main() { E e; auto ps = Block(e.l0, 4, 1, 4, 1, 1, 1); ps.push_back(Mk(DI, V(2, 2, 2), V(0, 0, 0), 123)); S s(e, ps); s->ForwardTime(0.001); return s.P().back().P() == 123 ? 0 : Fail("pressure of a disabled particle changed"); }''')

bug("N06-grad3d", "N06", C, [("const Vector d = (-dt / rho * DIM / n0) *", "const Vector d = (-dt / rho * 2 / n0) *")],
 "3D build", "The pressure gradient keeps its 2D coefficient in 3D.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(0, 0, 0)), Mk(F, V(1.09, 1.02, 1.03), V(0, 0, 0))};
 S s(e, ps, 1e-3); X::Search(*s); X::Densities(*s); const double p0 = 0; (void)p0;
 auto q = Block(0.09, 5, 5, 5, 1, 1, 1); Rnd r{2}; for (auto& a : q) { a.X() += V(0.01 * r(), 0.01 * r(), 0.01 * r()); a.U() = V(-0.3 * r(), -0.3 * r(), -0.3 * r()); }
 S t(e, q, 1e-3); X::Search(*t); X::Densities(*t); X::Explicit(*t); X::Densities(*t); std::vector<Particle> b(t.P()); X::Implicit(*t);
 const double n0 = t->GetEnvironment().N0(); double worst = 0, big = 0;
 for (std::size_t i = 0; i < q.size(); i++) { Vector a = V(0, 0, 0); Vector g = V(0, 0, 0); double n = 0;
  for (std::size_t j = 0; j < q.size(); j++) if (j != i) { const Vector dx = b[j].X() - b[i].X(); const double d = Dist(b[i].X(), b[j].X()); if (d < 0.24) { n += 0.24 / d - 1; g += (0.24 / d - 1) * dx; a += ((t.P()[i].P() + t.P()[j].P()) / (d * d) * (0.24 / d - 1)) * dx; } }
  g /= n0; const double rg = boost::numeric::ublas::norm_2(g);
  if (n < n0 && rg > 1e-12) { const double rs = 0.24 / (n0 - n + 1); const Vector dx = -(rs / rg) * g; const double d = boost::numeric::ublas::norm_2(dx); a += ((t.P()[i].P() + 0) / (d * d) * (0.24 / d - 1)) * dx; }
  a *= -1e-3 / 1000 * 3 / n0;
  for (int d = 0; d < 3; d++) { worst = std::max(worst, std::abs(t.P()[i].U()[d] - b[i].U()[d] - a[d])); big = std::max(big, std::abs(a[d])); } }
 if (!(big > 1e-6)) return Fail("no pressure"); return worst <= 1e-6 * big ? 0 : Fail("gradient"); }''', "-DD_3D -DD_NODS")

bug("N07-visn", "N07", C, [("					const auto vis = AccumulateNeighbor<Detail::Field::Name::U, Detail::Field::Name::X, Detail::Field::Name::Type>(i, VectorZero,\n						[&thisX = particle.X(), &thisU = particle.U(), n0, r_e,",
 "					const auto vis = AccumulateNeighbor<Detail::Field::Name::U, Detail::Field::Name::X, Detail::Field::Name::Type>(i, VectorZero,\n						[&thisX = particle.X(), &thisU = particle.U(), n0 = std::max(n0, particle.N()), r_e,")],
 "compressed fluid: neighbours of different density above the reference", "The viscous force is divided by the particle's own density, so what one gives the other does not receive.",
 r'''int main() { E e; e.g = 0; e.nu = 0.1; auto ps = Block(0.06, 5, 1, 5, 1, 1, 1); Rnd r{4}; double m0 = 0, m1 = 0; for (auto& q : ps) { q.X() += V(0.02 * r(), 0, 0.02 * r()); q.U() = V(r(), 0, r()); m0 += q.U()[0]; }
 S s(e, ps, 1e-3); X::Search(*s); X::Densities(*s); X::Explicit(*s); for (auto& q : s.P()) m1 += q.U()[0]; return Near(m0, m1, 1e-9) ? 0 : Fail("momentum"); }''')

bug("N07-clamp", "N07", C, [("					const auto thisDu = du[i];\n					particles[i].U() += thisDu;", "					Vector thisDu = du[i];\n					const auto maxDu = environment.MaxDx / dt; // 1ステップの最大移動距離まで\n					const auto absDu = boost::numeric::ublas::norm_2(thisDu);\n					if(absDu > maxDu)\n					{\n						thisDu *= maxDu / absDu;\n					}\n					particles[i].U() += thisDu;")],
 "three or more strongly overlapping particles", "Close-approach pushes are cut off one-sidedly and no longer conserve momentum.",
 r'''int main() { E e; e.g = 0; e.nu = 0; e.courant = 0.01; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(F, V(1.02, 1, 1)), Mk(F, V(1.05, 1, 1.001)), Mk(F, V(1.03, 1, 1.04))}; 
 double m0[3] = {0, 0, 0}; auto q = ps; for (int k = 0; k < 12; k++) q.push_back(Mk(F, V(1.0 + 0.021 * k, 1, 1.02 + 0.007 * (k % 3))));
 S s(e, q); s->ForwardTime(0.001); for (auto& a : s.P()) for (std::size_t d = 0; d < DIM; d++) m0[d] += a.U()[d]; double big = 0; for (auto& a : s.P()) big = std::max(big, std::abs(a.U()[0]));
 return std::abs(m0[0]) <= 1e-7 * big && std::abs(m0[DIM - 1]) <= 1e-7 * big && big > 0 ? 0 : Fail("momentum"); }''', "-DD_NOSPP -DD_EXP")

bug("N08-expdens", "N08", C, [("""			// 粒子数密度を計算する
			ComputeNeighborDensities();

#ifdef MPS_DS
			// 圧力勾配の前の位置を保存""", """#ifndef PRESSURE_EXPLICIT
			// 粒子数密度を計算する
			ComputeNeighborDensities();
#endif

#ifdef MPS_DS
			// 圧力勾配の前の位置を保存""")],
 "the weakly-compressible build with moving particles", "The pressure is computed from the densities before the move instead of those after it.",
 r'''int main() { E e; e.g = 0; e.nu = 0; std::vector<Particle> ps = Block(0.09, 5, 1, 5, 1, 1, 1); for (auto& q : ps) q.U() = V(-(q.X()[0] - 1.2), 0, -(q.X()[DIM - 1] - 1.2));
 S s(e, ps, 0.01); S t(e, ps, 0.01); s->ForwardTime(0.01); X::Search(*t); X::Densities(*t); X::Explicit(*t); X::Densities(*t); X::Implicit(*t);
 double big = 0; for (std::size_t i = 0; i < ps.size(); i++) { big = std::max(big, t.P()[i].P()); if (!Near(s.P()[i].P(), t.P()[i].P(), 1e-9 * (1 + t.P()[i].P()))) return Fail("pressure"); } return big > 0 ? 0 : Fail("no pressure"); }''', "-DD_EXP")

bug("N09-fluidonly", "N09", C, [("			// CFL条件より時間刻みを決定する\n			const auto dt = (maxU == 0 ?", "			// 壁の速度は次のステップで与えられるので、遅い流体では流体の速度だけで決める\n			double fluidU = 0;\n			for(const auto& particle : particles)\n			{\n				if(particle.TYPE() == Particle::Type::IncompressibleNewton)\n				{\n					fluidU = std::max(fluidU, static_cast<double>(ublas::norm_2(particle.U())));\n				}\n			}\n			maxU = (fluidU > 0) ? fluidU : maxU;\n\n			// CFL条件より時間刻みを決定する\n			const auto dt = (maxU == 0 ?")],
 "walls moving faster than all the fluid", "A fast wall no longer limits the time step.",
 r'''int main() { E e; e.g = 0; e.maxDt = 0.1; std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(0.01, 0, 0)), Mk(WL, V(3, 3, 3), V(5, 0, 0))}; S s(e, ps); s->ForwardTime(); const double dt = s->GetEnvironment().Dt();
 return dt * 5 <= 0.01 * (1 + 1e-12) ? 0 : Fail("wall moves too far"); }''')

bug("N09-norm", "N09", C, [("(maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt))", "(maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, std::max(environment.MaxDt, environment.Dt())))")],
 "a step of a chosen length longer than the maximum before an automatic one", "After a manually chosen long step the automatic step may exceed the maximum.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(F, V(1, 1, 1), V(0.001, 0, 0))}; e.g = 1e-6; S s(e, ps); s->ForwardTime(0.02); s->ForwardTime(); return s->GetEnvironment().Dt() <= e.maxDt * (1 + 1e-12) ? 0 : Fail("longer than the maximum"); }''')

bug("N10-isowall", "N10", C, [("				// 壁の位置\n				else\n				{", "				// 壁の位置（周囲に粒子がないダミー粒子は計算に影響しないので省略）\n				else if((particles[i].TYPE() != Particle::Type::Dummy) || (NeighborCount(i) > 0))\n				{")],
 "a moving dummy particle without any neighbour", "Isolated dummy particles are left behind by the prescribed motion.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(F, V(1, 1, 1)), Mk(DU, V(3, 3, 3)), Mk(DU, V(3.1, 3, 3)), Mk(DU, V(2, 2, 0.2))}; S s(e, ps); s.wall = [&s](std::size_t i, double t, double) { return Vector(s.x0[i] + V(0.3 * t, 0, 0)); };
 for (int k = 1; k < 4; k++) { s->ForwardTime(0.002); for (int i = 1; i < 4; i++) if (!Near(s.P()[i].X()[0], s.x0[i][0] + 0.3 * 0.002 * k, 1e-12)) return Fail("dummy not at its place"); } return 0; }''')

bug("N10-prelate", "N10", C, [("			// 壁位置計算の前処理\n			positionWallPre(t, dt);\n", "			// 壁位置計算の前処理（動く対象がない時は不要）\n			if((n > 0) && (particles[0].TYPE() != Particle::Type::Disabled))\n			{\n				positionWallPre(t, dt);\n			}\n")],
 "an input whose first particle is (or becomes) disabled", "The preparation callback is skipped.",
 r'''int main() { E e; std::vector<Particle> ps{Mk(DI, V(1, 1, 1)), Mk(WL, V(2, 2, 2)), Mk(F, V(1, 2, 1))}; S s(e, ps); int n = 0; s.pre = [&n](double, double) { n++; }; s->ForwardTime(0.001); s->ForwardTime(0.001); return n == 2 ? 0 : Fail("preparation calls"); }''')
