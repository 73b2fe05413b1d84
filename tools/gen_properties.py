#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
C = "src/OpenMps/Computer.hpp"; G = "src/OpenMps/Grid.hpp"; E_ = "src/OpenMps/Environment.hpp"
M = "src/OpenMps/Main.cpp"; P = "src/OpenMps/Particle.hpp"; D = "src/OpenMps/defines.hpp"
T = "src/OpenMps/stov.hpp"; CC = "src/OpenMps/ComputingCondition.hpp"; V = "src/OpenMps/Vector.hpp"
props = []
def p(id, title, st, over, text, why, files, mech, obs, state=(), hook=None):
    props.append({"id": id, "title": title, "statement": st,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    "mechanism": [dict(name=a, where=b) for a, b in mech],
                    "observe_at": obs, "hook_needed": hook}})

p("N01", "Neighbour search is exact",
  "For any particle positions in the computation area, the neighbour search reports for every queried particle each other stored live particle closer than the neighbour distance exactly once, wherever block borders, area edges or the origin lie, in 2D and 3D. It never reports a particle that was not stored since the last clear, never reports the particle itself as its own neighbour, and always terminates. A position inside the area is always accepted, one below the area or more than three neighbour distances beyond its far side is always refused, and overfilling one place is an explicit error instead of a corrupted list.",
  ["inputs", "histories", "configurations"], "all finite position sets, area extents, radii, and store/clear/search histories; 2D and 3D builds",
  "The tests use one 7x7 lattice in one area and only check symmetry and self-exclusion; block borders, edges, empty blocks, full blocks, clears and 3D are never visited.",
  [G, C], [("cell list store/clear/iterate", G + " Grid"), ("neighbour list construction", C + " neighbour search")],
  ["ids returned by grid iteration", "neighbour lists after a search", "return value / exception of store"])
p("N02", "Number density is the kernel sum over live neighbours",
  "The number density of every fluid and wall particle is the sum of the weight r_e/r-1 over all other live particles (walls and dummies included) strictly within the influence radius at their current positions, raised to the reference density when free-surface filling is enabled; dummy and disabled particles keep their stored value. The reference density is that sum over a full regular lattice at the initial spacing. This stays true when particles have moved since the last neighbour search by up to the search margin.",
  ["inputs", "histories", "configurations"], "all particle arrangements and types, radii 1.5-4 spacings, displacements up to the margin; 2D/3D, with and without free-surface filling",
  "The tests compare the density on one regular fluid-only lattice; mixed types, irregular spacing, moved particles and the reference density for other radii are not reached.",
  [C, P, E_], [("density accumulation", C + " density computation"), ("weight function", P + " W"), ("reference density sum", E_ + " constructor"), ("search margin", E_ + " NeighborLength")],
  ["particle N after a density pass or a step", "environment N0"])
p("N03", "Explicit stage applies exactly gravity and viscosity",
  "In the explicit stage every fluid particle's velocity changes by dt times (gravity + viscous acceleration from live non-dummy particles within the influence radius) and its position by dt times the new velocity; pressure, density and type do not change. Viscous exchange between fluid particles is reciprocal, vanishes for uniform motion and never increases the kinetic energy of relative motion under a small enough step.",
  ["inputs", "configurations"], "all particle arrangements, velocities, viscosities, gravities and steps; standard, high-order-Laplacian, central-gravity and 3D builds",
  "The only explicit-force tests are commented out upstream: the stage has no test at all.",
  [C], [("viscosity and gravity accumulation, position update", C + " explicit forces")],
  ["particle X, U, P, N before and after the stage"])
p("N04", "The pressure equation is assembled correctly",
  "In every step the linear system for pressure has, for each fluid or wall particle, exactly one off-diagonal entry per live non-dummy particle within the influence radius, with the documented Laplacian coefficient, and a diagonal that is minus the sum of them (plus the free-surface contribution); dummy and disabled (and, without free-surface filling, surface) particles have identity rows with zero right-hand side. The matrix is symmetric on the particles that carry pressure, and the right-hand side is -rho/(n0 dt) times the density rate plus the error-correction term.",
  ["inputs", "histories", "configurations"], "all arrangements, velocities, particle types and preceding steps; all documented build options",
  "The tests look at a fluid-only regular lattice with one option set; walls, dummies, disabled particles, changing neighbourhoods between steps, 3D and the error-correction source are not reached.",
  [C, E_], [("system assembly", C + " pressure equation setup"), ("density rate and error correction", C)],
  ["matrix, right-hand side and initial guess after setup and after a step"])
p("N05", "The linear solver never returns an unconverged answer",
  "Whenever the pressure solver returns, the true residual of the system it was given is smaller than the configured relative tolerance times the residual of the initial guess (up to rounding); an already exact guess is returned unchanged. If it cannot reach that, it raises its documented error; it does not fail on systems that conjugate gradients solve comfortably, and it never changes the matrix or the right-hand side.",
  ["inputs", "configurations"], "symmetric definite, ill-conditioned, singular and inconsistent systems of any size and scale, any initial guess, tolerances 1e-2 to 1e-12; both linear-algebra back ends",
  "The tests solve three fixed small systems to one tolerance and never make the solver fail.",
  [C], [("conjugate gradient", C + " solver")],
  ["solution vector, residual, exception"])
p("N06", "Pressure is the clipped solution and acts as its gradient",
  "In the implicit-pressure builds each fluid or wall particle's pressure after the implicit stage is the solved value with negatives (and free-surface particles when filling is disabled) set to zero, so never negative, and dummy and disabled pressures do not change. Each fluid particle's velocity then changes by -dt/rho times the documented gradient of those pressures over live non-dummy particles and its position by dt times that change, and nothing else moves. In the weakly-compressible build the pressure is c^2 times the excess density, and zero otherwise.",
  ["inputs", "configurations"], "all arrangements, types, pressures and steps; standard, corrected-gradient, no-filling, explicit-pressure and 3D builds",
  "The tests evaluate one smooth pressure field on one lattice to 10% with fluid particles only; clipping, types, walls, corrected gradients on irregular layouts and the explicit build are untested.",
  [C], [("implicit stage and gradient", C)], ["particle P, X, U, N before and after the stage"])
p("N07", "Internal forces conserve linear momentum",
  "For a group of fluid particles without walls, viscosity and close-approach repulsion never change the group's total momentum, and without free-surface filling the pressure force does not either: over any step the total momentum changes by exactly (number of particles) x gravity x dt. (The corrected-gradient option is documented as non-conservative and excluded.)",
  ["inputs", "histories", "configurations"], "all fluid-only groups, any number of steps and step sizes",
  "No test sums momentum; the only gradient tests use a fixed smooth field.",
  [C], [("pairwise antisymmetric interactions", C)], ["sum of U over particles before and after steps"])
p("N08", "One step equals the documented composition of stages",
  "Advancing by dt maps the public state (positions, velocities, pressures, densities, types) to the state given by: disable particles outside the area, densities, error correction, explicit stage with wall motion, densities again, pressure solve and gradient, close-approach repulsion. For every live particle new position = old position + dt x new velocity, time advances by exactly dt, and nothing but this public state carries over from one step to the next.",
  ["inputs", "histories", "configurations"], "all states, step sequences and dt; all documented build options",
  "Tests call single stages on fresh objects; the step itself (order of stages, stale data between steps, position update) is never executed by a test.",
  [C, E_], [("step driver", C + " ForwardTime"), ("time bookkeeping", E_)], ["Particles() and GetEnvironment() before and after each step"])
p("N09", "Time step respects stability and output limits",
  "The automatically chosen step is positive, never exceeds the configured maximum step nor the gravity (or, in the weakly-compressible build, sound) limit, never lets the fastest live particle move farther than Courant number x initial spacing, and is the largest step satisfying these. Disabled particles and an empty particle list do not influence or break the choice.",
  ["inputs", "histories", "configurations"], "all velocity distributions incl. zero, extreme and wall/disabled-dominated; all parameter combinations; empty particle lists",
  "Tests only check two inequalities on the constants; the step choice itself is never executed.",
  [C, E_], [("step choice", C), ("limits", E_ + " MaxDt, MaxDx")], ["time and dt reported by the environment after a step"])
p("N10", "Walls and dummies follow the prescribed motion exactly",
  "In each step every wall and dummy particle is placed exactly where the supplied motion function says for its index, the new time and dt, with velocity = displacement/dt, no matter what the fluid does; no force moves it. The preparation callback runs exactly once per step before any position is requested, with the same time and dt, and no fluid particle is ever moved by the motion function.",
  ["inputs", "histories", "schedules"], "all motion functions (static, oscillating, index- and time-dependent), fluid states, steps and thread counts",
  "No test moves a wall or runs a step; the callbacks in tests are stubs that are never checked.",
  [C], [("wall placement", C + " explicit stage")], ["callback log", "X and U of walls/dummies after each step"])
p("N11", "Particles are never lost, swapped or resurrected",
  "The number and order of particles never change except by explicit addition, and a particle's kind never changes except that one found outside the area at the start of a step becomes disabled, once and for ever. A particle inside the area is never disabled, and a disabled particle has no influence on any other particle or on the choice of step from then on.",
  ["inputs", "histories"], "all trajectories incl. particles leaving on every side and corner, disabled input particles, long runs",
  "No test lets a particle leave or runs a step.",
  [C, G, P], [("disabling on refused store", C + " neighbour search"), ("type checks in every stage", C)], ["Particles() types, count, order over a run", "twin run without the disabled particles"])
p("N12", "Results do not depend on numbering, origin, mirror, frame, units",
  "Reordering the input particles, shifting particles and area together, mirroring horizontally, watching from a uniformly moving frame (without walls), or changing the units of length, time and mass changes the computed motion, pressures and densities only by the same transformation, up to rounding and solver tolerance.",
  ["inputs", "histories", "configurations"], "all scenarios, permutations, shifts, boosts and scale factors over several steps; 2D and 3D (with axis exchange)",
  "Tests run one arrangement at a time and never compare two runs.",
  [C, G, E_], [("pairwise relative formulation", C)], ["Particles() of the two runs, step by step"])
p("N13", "Separated groups of particles do not influence each other",
  "Particles that stay farther than the neighbour distance from a group do not affect it: simulating the group alone or together with any other distant particles gives the same motion, densities and pressures, up to rounding and solver tolerance.",
  ["inputs", "histories", "configurations"], "all pairs of groups (fluid, walls, dummies, any numbering interleaving) separated by little more than the neighbour distance, several steps",
  "Tests contain a single group.",
  [C, G], [("finite influence radius", C), ("block-diagonal pressure system", C)], ["Particles() of the group alone and combined"])
p("N14", "Parallel execution is race-free and schedule-independent",
  "For any number of threads and any interleaving, a simulation performs no conflicting unsynchronised memory access, and its results equal the single-threaded results up to the rounding of global sums and the solver tolerance.",
  ["schedules", "inputs", "configurations"], "all thread counts 1-16 and schedules, small and large (above the parallel threshold of the vector library) particle numbers, all build options with OpenMP",
  "Tests run with 4 threads and compare to 10% or 0.1%; no race detector is used and races need specific interleavings.",
  [C, G], [("parallel loops writing only own elements", C)], ["ThreadSanitizer+Archer reports", "states after each step for different thread counts"])
p("N15", "No undefined behaviour or memory error on any input",
  "With physically meaningful configuration values, running the program or the library on any well-formed or malformed input file or particle set, with particles anywhere (inside, on the edge of, outside or far outside the area, crowded, isolated or absent), never performs an out-of-bounds, use-after-free, uninitialised or otherwise undefined operation: it either computes or stops with a reported error (for the program: an error report or an abnormal exit naming an uncaught exception).",
  ["inputs", "histories", "configurations"], "all input files and particle sets incl. hostile ones; all build options",
  "Tests run small benign cases without sanitizers.",
  [C, G, M, E_, V, P], [("bounds from capacity computations", G), ("input checks", M)], ["AddressSanitizer/UBSan/valgrind reports, hardened-library assertions, exit status"])
p("N16", "Input files are read faithfully or rejected",
  "Every particle row is loaded in file order with each column going to the quantity its header names, whatever the column order, blanks, tabs and empty lines, and every configuration value governs its own quantity. A file with a missing header, an unknown or missing column, a row that is too short, a particle value that does not start with a number, no particle table, a table of another type, or a missing or non-numeric parameter is rejected with an abnormal exit before any result is written.",
  ["inputs", "configurations"], "all column orders, spacings, number formats, values, particle counts and parameter sets; malformed variants of each",
  "There is no test of the program's input path at all.",
  [M, T, E_, CC], [("CSV and XML reading", M), ("number parsing", T)], ["initial result frame, printed particle count, exit status, later frames"])
p("N17", "Result frames are complete, ordered and on schedule",
  "A run writes the initial frame and then exactly one frame per output interval until the end time, numbered consecutively from the number of intervals elapsed at the start time (a started interval counts in both cases); each frame has the documented header and one row per particle in input order showing the state at the first step at or after its nominal time. The progress lines report that time, the number of steps so far (never fewer than the configured minimum times the elapsed intervals) and the number of live particles.",
  ["inputs", "histories", "configurations"], "all start/end/interval/step-limit combinations, particle sets and run lengths",
  "No test runs the program; CI only checks that it exits 0.",
  [M, CC, "src/OpenMps/Timer.hpp"], [("output loop", M + " main"), ("frame writer", M)], ["result directory and standard output of the program"])
p("N18", "A result frame can be used as input to continue a run",
  "Any frame written by the program, used unchanged as the particle table of a new run with otherwise the same configuration and that frame's time as start time, is accepted and reproduced identically as the new run's initial frame under the same frame number, and the continued run follows the original one up to the printed precision.",
  ["inputs", "histories"], "all frames of all runs, incl. frames with disabled, wall and dummy particles and negative or tiny values",
  "No test writes or reads a frame.",
  [M], [("writer/reader agree on header and format", M)], ["frames of the original and the continued run"])
p("N19", "Failures are reported and leave earlier results intact",
  "When a step cannot be computed (the pressure equation has no solution within tolerance, or particles are too crowded for the neighbour search), the library raises an error derived from the standard runtime error and the program prints an error report with time, step and cause, stops advancing, writes no frame for the failed interval, and leaves all earlier frames complete.",
  ["inputs", "histories", "fault_sequences"], "all failure causes, at the first or any later step, with any particle sets",
  "No test provokes a failure.",
  [M, C, G], [("exceptions from solver and grid", C + ", " + G), ("handler in the output loop", M)], ["stdout, exit status and frames of a failing run; exception types"])
p("N20", "Corrective matrices are inverted correctly",
  "In the corrected-gradient build, for every matrix that is not singular the computed inverse multiplied by the matrix is the identity up to rounding, in 2D and 3D and for asymmetric matrices too; an exactly singular matrix yields the given multiple of the identity, never infinities or NaN.",
  ["inputs", "configurations"], "all 2x2 and 3x3 matrices over many magnitudes, singular ones included",
  "Three fixed 2x2 matrices are tested, no singular one and no 3x3.",
  [C], [("matrix inversion", C + " Detail::InvertMatrix")], ["product of matrix and inverse", "velocity change in corrected-gradient builds"])
p("N21", "A tank keeps its water: no leak, blow-up or energy gain",
  "In a tank built as in the shipped benchmarks (fluid, one wall layer, three dummy layers), over a whole run no fluid particle passes through the walls, no particle is disabled, no two fluid particles come closer than about a third of the initial spacing, all values stay finite, and the mechanical energy of the fluid never rises above its initial value by more than a few per cent of its potential scale. (Step limits as in the benchmarks: at most a hundredth of the collapse time.)",
  ["inputs", "histories"], "dam-break and settling runs with varied tank and column sizes, spacing, viscosity and step limits, hundreds of steps each",
  "No test advances time; the CI sample run is not checked for anything.",
  [C, E_, G], [("pressure solve with walls", C), ("close-approach repulsion", C), ("step limits", E_)], ["positions and velocities after every step"])
p("N22", "Adding particles in portions equals adding them at once",
  "Particles may be added in any number of portions before or between steps: existing particles are not altered, the new ones are appended in order, and every later step gives the same results as for a computation that received the same state at once.",
  ["histories", "inputs"], "all partitions of particle sets and all interleavings of additions and steps",
  "Tests add all particles once before doing anything.",
  [C], [("resizing of all per-particle storage", C + " AddParticles, pressure equation setup")], ["Particles() after additions and after following steps, compared with a fresh computation"])
p("N23", "Acceleration options do not change the physics",
  "Using the ViennaCL or the uBLAS linear algebra, and building with or without OpenMP, gives the same simulation results for the same input, up to rounding and solver tolerance.",
  ["configurations", "inputs", "histories"], "the four builds, all scenarios, several steps",
  "Tests are only built with ViennaCL and OpenMP.",
  [C, D], [("conditional code paths for assembly and solve", C)], ["Particles() after each step in each build"])
p("N24", "Close-approach repulsion acts only on too-close pairs",
  "After a step, a fluid particle receives an extra velocity only if a live non-dummy particle is closer than initial spacing minus the allowed displacement per step; the push acts along the line the pair had before the pressure correction, separates the pair, has the documented size, and is equal and opposite between two fluid particles. Pairs at or beyond that distance are unaffected. (Pairs that get close only by jumping from beyond the search distance within one step are not covered.)",
  ["inputs", "configurations"], "all arrangements of pairs and clusters at all distances around the threshold, types, numbering, steps; 2D and 3D",
  "The repulsion is not tested at all.",
  [C], [("dynamic stabilisation", C)], ["velocity and position change over a step of a resting overlapping arrangement"])
p("N25", "Still water stays still with hydrostatic pressure",
  "Water resting in a tank stays at rest: over hundreds of steps (step limit at most 0.02 sqrt(l0/g)) its centre of mass and surface stay within a fraction of one particle spacing, velocities stay below a quarter of the free-fall speed over the depth, and its pressure increases with depth as rho g depth (slope within 30% in 2D, within about a half in shallow 3D tanks), independent of density, gravity, spacing and tank position.",
  ["inputs", "histories"], "tanks with varied widths, depths, spacings, densities, gravities, positions, run for many steps",
  "No test advances time or includes gravity with walls.",
  [C, E_], [("explicit + implicit stages in balance", C)], ["P and X of fluid particles over a run"])
p("N26", "A collapsing water column spreads as in the shipped dam-break data",
  "In a 2D dam break as in the shipped benchmarks (a column twice as high as wide, at least ten particles wide, influence radius about 2.4 spacings, steps limited to about a hundredth of the collapse time), the front of the water follows the reference curve of the shipped dam-break data: expressed in column widths L and in time units of sqrt(L/2g) it stays within 0.15 + 0.1 T of the data for times T from 0.4 to 2.6, whatever the spacing, the gravity, the density, the origin and the side to which the column falls.",
  ["inputs", "histories", "configurations"], "dam breaks of all scales, gravities, densities, positions and both directions; builds with filling on/off, corrected gradient, without repulsion, uBLAS and explicit pressure",
  "No test advances time; CI runs the sample only for its exit status, and the comparison scripts in Benchmark are run by hand.",
  [C, E_, "Benchmark/DamBreak/koshizuka_oka_1996.csv", "Benchmark/DamBreak/martin_moyce_1952_225.csv"], [("whole step: gravity, pressure and walls together", C + " ForwardTime")],
  ["largest x of fluid particles after every step"])
p("N27", "A drop under central gravity becomes round with the theoretical pressure",
  "In the central-gravity build a square (cubic in 3D) block of fluid around the centre settles as in the shipped benchmark into a disc (ball) of the same volume: it stays finite and together (no particle further out than 1.6 spacings beyond the radius of that disc), remains centred, comes nearly to rest, and the pressure around its middle is what balances the attraction, in proportion to rho, g and the radius.",
  ["inputs", "histories", "configurations"], "drops of several sizes, spacings, gravities, densities, viscosities; 2D and 3D",
  "No test is built with central gravity; the shipped check script for it is run by hand.",
  [C, "Benchmark/CentralGravity/check_result.py"], [("central gravity and free surface pressure in balance", C)], ["positions, velocities and pressures over the run"])
p("N28", "The shipped inputs run from start to end",
  "The sample input is what the program runs when it is given no argument, and it, as well as the output of every shipped benchmark generator (also at other resolutions than the preset), is accepted, starts with exactly the particles of its table, and runs to its end time without an error: every frame is written, every particle stays live and finite, no fluid leaves the container, walls do not move, the dam-break front follows the shipped data, and still water stays still.",
  ["inputs", "histories", "configurations"], "all shipped inputs and generators at several resolutions, in several builds and thread counts",
  "CI runs the sample once and looks at the exit status only; the generators are run by nobody.",
  [M, C, "Benchmark/Sample/Sample.xml", "Benchmark/DamBreak/generate_zhouetal1999.py", "Benchmark/StaticPressure/generate.py"], [("input, output loop and step together", M)], ["result frames, progress lines and exit status of the program"])
p("N29", "Computations do not influence each other and are repeatable",
  "Repeating a single-threaded computation gives bit for bit the same positions, velocities, pressures, densities, types, times and errors, whatever other computations (with other or equal particles, parameters and wall motions, successful or failing) were made before in the same process, are advanced in turn with it, or are advanced at the same time by other threads; moving a computation object between two steps does not change how it goes on.",
  ["inputs", "histories", "interleavings"], "two or three random computations in all orders of their steps, concurrent threads, moves, early destruction",
  "Each test makes one computation at a time and never compares two.",
  [C, E_, G], [("all working storage belongs to one object", C + " Computer"), ("constants at namespace scope", C)], ["Particles() and T() after every step, alone and together with others"])
p("N30", "Water in a tank keeps its volume",
  "Water in a tank (one wall layer, three dummy layers, step limit at most a hundredth of the free-fall time of its depth) is not compressed, whether it rests, sloshes, collapses or falls into the tank: for up to eight free-fall times (at most 900 steps) its centre of mass never sinks below that of the same water lying flat by more than about a tenth of the depth (plus a fraction of a spacing), the excess of its number density over the reference density stays below 0.11 on average (0.17 without free-surface filling) and below 0.28 (0.33) everywhere.",
  ["inputs", "histories", "configurations"], "tanks with resting, sloshing, collapsing and falling water of varied sizes, spacing, gravity, density, viscosity; 2D and 3D, all options",
  "No test advances time or looks at the density after a step.",
  [C], [("source term of the pressure equation", C + " SetPressurePoissonEquation"), ("pressure gradient", C)], ["positions of all live particles after every step"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for q in props: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(props), max(len(q["title"]) for q in props))
