TESTS = "The three stable tests run one free particle in 2D with quadratic splines against a terrain file; "

prop("C01", "Mass and linear momentum are conserved",
 "For any particle set without contact, any transfer scheme, material model and number of steps, the number and mass of the particles never change, the background grid of a step carries exactly the particles' total mass, and the total linear momentum of the particles (and of the grid) changes exactly by total mass times gravity times elapsed time, up to round-off. Over each step the centre of mass moves by the step length times the total momentum divided by the total mass.",
 ["inputs", "configurations", "histories"], "all particle clouds, velocities, stresses, deformations, units, schemes, update orders, constitutive models, gravities, step counts and dimensions",
 TESTS + "one particle cannot exchange momentum and no test sums momentum",
 [S + "p2g.cpp", S + "g2p.cpp", S + "explicit_euler_update.cpp", S + "position_update.cpp", S + "musl.cpp"],
 [("partition of unity of the weights; zero-sum weight gradients", "src/tools.hpp"), ("mass-weighted scatter and gather", S + "p2g.cpp, " + S + "g2p.cpp")],
 ["particle positions/velocities after simulate()", "saved grid"], "property-based testing: conservation invariant over generated particle systems",
 "Exploration of generated worlds (2D/3D, quadratic/cubic, all schemes and models); conservation evaluated in double precision with a 1e-10 relative tolerance.")

prop("C02", "Affine motion is reproduced exactly; APIC conserves angular momentum",
 "A uniform velocity field is transported without any change of velocity or deformation by every transfer scheme, and an affine velocity field carried by stress-free particles (with the matching affine state) is reproduced exactly by the affine schemes: after a step each particle still has that field's velocity and affine state at its old position, and its deformation gradient has been multiplied by identity plus step length times the velocity gradient. With the pure APIC scheme the total angular momentum, including the affine part, is conserved for any symmetric stresses and changes only by the torque of gravity.",
 ["inputs", "configurations"], "all particle layouts, affine fields, stresses, units, update orders and dimensions",
 TESTS + "a lone particle has no field to reproduce, and angular momentum is never computed",
 [S + "p2g.cpp", S + "g2p.cpp", S + "musl.cpp", S + "deformation_update.cpp", S + "simulation.cpp"],
 [("affine (APIC) term and its inertia-like factor per spline degree", S + "simulation.cpp, " + S + "p2g.cpp"), ("linear reproduction by the splines", "src/tools.hpp")],
 ["particle velocity, affine matrix and deformation gradient after a step"], "property-based testing: exact-solution and conservation oracles",
 "Exploration of generated layouts and fields; closed-form expected result, round-off tolerances.")

prop("C03", "A step is the documented MPM scheme: PIC/FLIP, APIC, AFLIP; USL, MUSL",
 "For every particle system, one time step yields exactly the particle velocities, affine states, positions and trial deformation gradients of the published scheme: mass-weighted B-spline transfer to the grid, explicit update with internal force and gravity, and transfer back where a ratio r in [0,1] blends FLIP (1) and PIC (0), r in [-1,0) blends AFLIP (-1) and APIC, and r below -1 is APIC. Positions always move with the interpolated (PIC) velocity, and the deformation is updated with the velocity gradient of the updated grid velocities (USL) or, with MUSL, of the grid velocities re-transferred from the updated particles.",
 ["inputs", "configurations", "histories"], "all particle systems, ratios, update orders, spline degrees, dimensions, and every step of a run, compared with an independent reference implementation",
 TESTS + "only one ratio, one update order and one particle are exercised, against a coarse speed tolerance",
 [S + "p2g.cpp", S + "g2p.cpp", S + "musl.cpp", S + "deformation_update.cpp", S + "position_update.cpp", S + "explicit_euler_update.cpp"],
 [("order of the sub-steps", S + "simulation.cpp"), ("velocity blending", S + "position_update.cpp, " + S + "musl.cpp")],
 ["full particle state before and after a step"], "property-based testing: differential against an independent reference step",
 "Exploration; the oracle is a separately written numpy implementation on an unbounded lattice, compared at 1e-9.")

prop("C04", "Elastic stress follows Hencky and Neo-Hookean hyperelasticity",
 "Without plasticity, the Kirchhoff stress of every particle after a step is the isotropic hyperelastic function of its elastic deformation gradient given by the chosen law and by the (3D) Young's modulus and Poisson's ratio: logarithmic (Hencky) strain with the two Lame parameters, or compressible Neo-Hookean. It is symmetric, zero for a pure rotation, rotates with the material frame, and does not depend on a rotation of the reference configuration.",
 ["inputs", "configurations"], "all deformation gradients with positive determinant (rotations, repeated and extreme stretches), all admissible moduli, both laws, 2D and 3D, USL and MUSL",
 TESTS + "the free particle never deforms, so no stress is ever non-zero",
 [S + "plasticity.cpp", S + "simulation.hpp", S + "simulation.cpp"],
 [("principal Hencky strains to Kirchhoff stress; Neo-Hookean formula; Lame parameters", S + "plasticity.cpp, " + S + "simulation.cpp")],
 ["stress and deformation gradient of particles after a step"], "property-based testing: closed-form oracle and metamorphic rotations",
 "Exploration; independent eigen-decomposition oracle, tolerance scaled to the conditioning of the deformation.")

prop("C05", "Plastic models keep the stress inside their yield surface",
 "After every step the stress of every particle of a rate-independent plastic model (von Mises, Drucker-Prager, softening Drucker-Prager, Modified Cam-Clay with each hardening law) lies inside or on the model's current yield surface, up to the model's stated solver tolerances. A trial state strictly inside the yield surface is left exactly elastic, with its deformation and plastic strains untouched, and a projected state lies on the surface (the cone's tip when the trial state is beyond it), reached at unchanged pressure on the cones and, for Cam-Clay, along the surface's normal (for the implicit hardening laws: with the default definition of the deviatoric stress and away from the apex of the ellipse). The softening cone in force is the one softened by the strain that the return to the unsoftened cone would add.",
 ["inputs", "configurations", "histories"], "all trial deformations, material parameters, hardening laws and accumulated plastic strains, 2D and 3D, in histories of several steps",
 TESTS + "no stable test uses plasticity",
 [S + "plasticity.cpp", "src/plasticity_helpers/"],
 [("return mappings", S + "plasticity.cpp"), ("Modified Cam-Clay solvers", "src/plasticity_helpers/")],
 ["particle stress, deformation gradient, plastic strains after a step"], "property-based testing: yield-surface validity predicate and exact-elastic oracle",
 "Exploration of trial states driven through real steps; predicate on the resulting stress against the parameters in force.")

prop("C06", "Plastic strain accounts exactly for the elastic strain removed",
 "In every plastic model the volumetric and deviatoric plastic strain added in a step equal the elastic (logarithmic) volumetric strain and the norm of the elastic deviatoric strain removed from the trial state, the correction acts only along the trial state's principal axes, the stress equals the elastic law evaluated at the corrected deformation, and accumulated deviatoric plastic strain never decreases. When the state is corrected, the recorded plastic shear rate is the deviatoric plastic strain added divided by (prefactor of the equivalent stress times step length), and it is zero for a particle that stayed elastic in the step (the tip return of the mu(I) Drucker-Prager model records the increment itself). The volume-correction memory grows by the plastic volume strain of a tip return, is cleared by any other step, and is untouched in models that do not use it.",
 ["inputs", "configurations", "histories"], "all trial deformations, all nine plastic models and hardening laws, material parameters, 2D and 3D, multi-step histories",
 TESTS + "no stable test uses plasticity",
 [S + "plasticity.cpp", S + "g2p.cpp", S + "deformation_update.cpp"],
 [("updates of the plastic strain measures beside each return mapping", S + "plasticity.cpp")],
 ["deformation gradient and plastic strains before and after a step"], "property-based testing: strain-balance invariant between trial and corrected state",
 "Exploration; the trial state is reconstructed from the elastic twin of the same step.")

prop("C07", "Viscoplastic models obey their rate law",
 "When a viscous model yields, the overstress satisfies its flow rule for the step length, viscosity and exponent in force: Perzyna or Duvaut-Lions for the viscous von Mises, Drucker-Prager and Modified Cam-Clay models, and the mu(I) relation (friction rising from its static to its limiting value with the shear rate over the root of the effective pressure) for the two mu(I) models, with the reported friction and viscosity matching that relation. The stress stays between the yield surface and the trial stress, zero viscous time reproduces the rate-independent model, and more viscous time never brings the stress closer to the yield surface; a run is not aborted in a step whose flow rule (viscous von Mises or Drucker-Prager) Newton's method solves.",
 ["inputs", "configurations"], "all trial states, viscosity times, exponents, grain parameters, step lengths, 2D and 3D",
 TESTS + "no stable test uses plasticity",
 [S + "plasticity.cpp"],
 [("closed-form and Newton solutions of the flow rules", S + "plasticity.cpp")],
 ["stress, plastic shear rate, friction and viscosity of particles after a step"], "property-based testing: residual of the flow rule, limits and monotonicity",
 "Exploration; the flow rule is evaluated at the returned state with the solver's own absolute tolerance (0.01 Pa).")

prop("C08", "Contact: no penetration, no-slip and Coulomb friction",
 "At every grid point that would lie inside a rigid object or plate after the step, no-slip contact gives exactly the boundary's velocity; slip-stick contact leaves no velocity normal to the boundary relative to it; slip-free contact does the same only for points moving into the boundary and leaves separating points untouched. Tangential relative velocity is reduced, never reversed or rotated, by friction coefficient times the normal velocity lost (down to zero), in 2D and 3D alike, in any tangential direction and for any number of objects, and points outside all objects are untouched.",
 ["inputs", "configurations"], "all velocities, normals, friction coefficients, plate orientations and velocities, objects, contact types, and their combinations",
 TESTS + "one frictionless terrain in 2D; plates, friction, 3D and moving boundaries are never exercised",
 [S + "boundary_collision.cpp", S + "explicit_euler_update.cpp", "src/objects/"],
 [("boundary collision for objects and plates", S + "boundary_collision.cpp")],
 ["grid velocities of a step through the saved grid; particle velocities"], "property-based testing: validity predicate on contact velocities and differential reference",
 "Exploration with generated planes, balls and plates; nodes within round-off of a surface are excluded.")

prop("C09", "Analytic terrains: inside test and unit outward normals agree",
 "For every built-in analytic object (ground, curve, bump, ramp, gate, silo) and every plate orientation the inside test describes the documented shape, and the normal at a surface point is a unit vector, perpendicular to the surface, pointing out of the solid. Plates cover exactly the half-space behind their face restricted to their lateral extent.",
 ["inputs", "configurations"], "all points, object parameters, plate orientations and extents, 2D and 3D",
 TESTS + "only a VDB terrain is queried, along one path",
 ["src/objects/"], [("inside() and normal() of each object", "src/objects/*.hpp")],
 ["inside and normal queries"], "property-based testing: independent shape formulas and surface-tangent test",
 "Exploration; surface points are found by bisection on the code's own inside test, and the normal is tested against it.")

prop("C10", "The adaptive grid never influences the physics",
 "However the particles spread, contract, travel or sit relative to the initial grid, a simulation behaves as if the grid were an unbounded lattice with fixed origin and spacing: results do not depend on how far the grid has been extended or reduced, on a reference point that only enlarges it, on a rigid translation of the whole setup, or on which coordinate axis plays which role. No particle's mass is ever lost to a missing grid node.",
 ["inputs", "histories", "configurations"], "all motions over many steps, including exact multiples of the cell size, reversal, spreading and compaction in each direction, and all reference points",
 TESTS + "one particle keeps a grid of constant size",
 [S + "remesh.cpp", S + "simulation.cpp", S + "p2g.cpp"],
 [("grid extension/reduction in whole cells", S + "remesh.cpp")],
 ["particle state after each step; saved grid"], "property-based testing: unbounded-lattice reference and metamorphic relations over histories",
 "Exploration of multi-step motions.")

prop("C11", "Results do not depend on the number of threads or their schedule",
 "A simulation run with any number of threads and any interleaving of them gives the same result as the single-threaded run up to the re-association of floating-point sums, and no two threads ever access the same memory location without synchronisation when one of them writes. Particle identity (order) and count are preserved. (Runs in which an iterative plasticity solver gives up and stops the program are excluded.)",
 ["schedules", "inputs", "configurations"], "all thread counts, work distributions and interleavings, all schemes, models, boundary conditions (including periodic ones)",
 TESTS + "they are single-threaded",
 [S + "p2g.cpp", S + "g2p.cpp", S + "musl.cpp", S + "deformation_update.cpp", S + "pbc.cpp", S + "explicit_euler_update.cpp", S + "save_data.cpp"],
 [("thread-local accumulation and critical sections", S + "p2g.cpp, " + S + "musl.cpp, " + S + "pbc.cpp"), ("reductions", S + "deformation_update.cpp")],
 ["particle state; data-race detector"], "property-based testing with a schedule-controlling OpenMP runtime and a happens-before race detector",
 "Exploration of generated programs, thread counts and schedules; the OpenMP runtime is replaced by one that randomises chunking, order and critical-section entry.")

prop("C12", "Time stepping honours its limits and hits every frame",
 "Every time step is positive and at most the elastic limit (coefficient times cell size over the elastic wave speed), at most the CFL limit for the fastest particle (coefficient times cell size over its speed), and never passes the end of the current output frame; the run passes through every frame time and ends at the last one, in no more steps than those limits require. With ramped gravity, the gravity acting in a step grows linearly with time from zero to its final value at the given time and stays there.",
 ["inputs", "histories", "configurations"], "all velocities, moduli, densities, cell sizes, frame rates, coefficients, ramp times and run lengths",
 TESTS + "the step sequence is never inspected",
 [S + "update_dt.cpp", S + "simulation.cpp"],
 [("step selection", S + "update_dt.cpp"), ("frame loop", S + "simulation.cpp")],
 ["sequence of step times, speeds and gravity recorded at each step"], "property-based testing: trace invariants over the recorded step history",
 "Exploration; a user-defined object records each step.")

prop("C13", "Periodic boundaries make the domain an exact torus in x",
 "With periodic boundary conditions and a period Lx of four or more whole cells, the simulation behaves as if the material were repeated with period Lx in x: material near one end interacts with material near the other exactly as with direct neighbours, in every transfer scheme, update order, with friction and with any number of threads. Shifting everything by whole cells around the period changes nothing else, particles always stay within [0, Lx], and none is lost, duplicated or reordered.",
 ["inputs", "histories", "configurations", "schedules"], "all particle layouts (including exactly on the ends), schemes, shifts, step counts, thread counts",
 TESTS + "periodic boundaries are never enabled",
 [S + "pbc.cpp", S + "position_update.cpp", S + "simulation.cpp", S + "remesh.cpp"],
 [("ghost particles added before and removed after the transfer", S + "pbc.cpp"), ("wrap of positions", S + "position_update.cpp")],
 ["particle state after each step"], "property-based testing: differential against a reference on a periodic lattice; shift metamorphic relation",
 "Exploration.")

prop("C14", "Output files record the simulated state faithfully",
 "With saving on, the particle file of every frame from 0 to the last holds, for each particle in order, exactly the position, velocity, pressure, equivalent stress, elastic volume ratio, and (for the models that have them) plastic strains, plastic shear rate, viscosity and friction that the simulation has at that frame time, the grid file (when requested) exactly the grid positions, velocities and masses (and friction) of its last step, the info file the parameters in force, the marker file the number of the last frame written, and the directory a copy of the setup source. Saving never changes the simulation, with saving off nothing is written, and a run of more frames writes the same files for the shared frames; volume-averaged stresses equal the averages over the particles.",
 ["inputs", "configurations", "histories"], "all states, models, frame counts, save options, dimensions",
 TESTS + "saving is switched off in all tests",
 [S + "save_data.cpp", S + "simulation.cpp"],
 [("PLY and info output", S + "save_data.cpp"), ("frame loop", S + "simulation.cpp")],
 ["files written; particle state"], "property-based testing: round-trip of output against the in-memory state",
 "Exploration; the header-only PLY writer is not in the repository, so a stand-in records what it is given and where it is written.")

prop("C15", "Sampled particles fill the box with the right mass, volume and spacing",
 "Sampling places all particles inside the requested box (regular sampling: one per sub-cell of a lattice starting half a spacing inside the box; random sampling: no two closer than the sampling radius), and sets up particle count, arrays, cell size, particle volume and mass consistently: volumes add up to the box's volume (or follow from cell size and particles per cell), mass is density times volume, and all state starts at rest and undeformed. The same request always gives the same particles.",
 ["inputs", "configurations"], "all box sizes, radii/spacings, particles per cell, densities, crop options, 2D and 3D",
 TESTS + "sampling headers are only compiled in tests that are not built here",
 ["src/sampling/"], [("sampling functions", "src/sampling/*.hpp")],
 ["particle arrays and set-up scalars"], "property-based testing: validity predicate over sampled sets",
 "Exploration; the Poisson-disk library is not in the repository, so a stand-in implementing its interface is used.")

prop("C16", "VDB terrains: inside, normals and sampling follow the level set",
 "For any signed-distance level set loaded from a file, a point is inside exactly when the interpolated distance is not positive, the normal is the unit gradient of the level set (pointing outwards), the reported bounds enclose its active voxels, and particles sampled from it all lie inside it, cover it, and have consistent volume and mass. Contact with it obeys the same rules as with analytic objects.",
 ["inputs", "configurations"], "all level sets (shape, position, voxel size), points, 2D and 3D",
 TESTS + "one file and one path along it are exercised",
 ["src/objects/object_vdb.hpp", "src/sampling/"], [("interpolation of the level set and its gradient", "src/objects/object_vdb.hpp")],
 ["inside/normal/bounds queries; sampled particles"], "property-based testing: generated level sets with analytic distance oracles",
 "Exploration; level sets are generated in memory and written to files.")

prop("C17", "No input in the documented domain causes invalid memory access",
 "For any admissible setup and any sequence of steps, outputs and sampling calls, the program never reads or writes outside its arrays, uses freed memory, or executes undefined integer/pointer behaviour, and all particle arrays keep the same length.",
 ["inputs", "histories", "configurations"], "all admissible worlds with every feature on and off, in every build variant",
 TESTS + "they run uninstrumented on one particle",
 [S, "src/objects/", "src/sampling/", "src/plasticity_helpers/"], [("grid sized with a two-cell margin", S + "remesh.cpp"), ("array bookkeeping of ghost particles", S + "pbc.cpp")],
 ["sanitizer reports, checked containers"], "fuzzing of whole worlds under AddressSanitizer, UBSan and checked containers",
 "Exploration with sanitizers; finite worlds only (states with non-finite values are outside the domain).")

prop("C18", "Moving plates follow their prescribed motion",
 "A plate's face moves along its normal with its prescribed velocity and its lateral extent with the tangential velocity, the displacement over a run being velocity times time; while the loading phase lasts (a given number of frames) the speed is reduced by the given factor, and afterwards it is the prescribed one. Static plates never move, and contact uses the plate's position at the start of the step and its speed in that step.",
 ["inputs", "histories", "configurations"], "all plate types, velocities, factors, load durations, frame rates and run lengths",
 TESTS + "no plate is ever used",
 ["src/objects/object_plate.hpp", S + "simulation.cpp"], [("plate motion", "src/objects/object_plate.hpp")],
 ["plate position, extent and velocity after runs"], "property-based testing: closed-form kinematics over recorded step histories",
 "Exploration.")

prop("C19", "Material-induced boundary friction is the material's own friction",
 "With material-induced boundary friction the Coulomb coefficient at a grid point is the mass-weighted average of the internal friction of the particles around it, whatever friction the boundary itself specifies; that internal friction is the model's static friction until a particle yields, and for rate-dependent models the mobilised friction of the last step. Without it, the boundary's own coefficient is used.",
 ["inputs", "histories", "configurations"], "all models, particle frictions, contact types, boundaries, 2D and 3D, with and without periodic boundaries",
 TESTS + "it is never enabled",
 [S + "p2g.cpp", S + "boundary_collision.cpp", S + "plasticity.cpp", S + "simulation.cpp", S + "remesh.cpp"],
 [("friction transfer to the grid", S + "p2g.cpp"), ("per-model mobilised friction", S + "plasticity.cpp")],
 ["saved grid friction; contact velocities; particle friction"], "property-based testing: differential against the reference transfer and friction law",
 "Exploration.")

prop("C20", "Interpolation kernels are the B-splines of their degree",
 "The quadratic and cubic kernels are non-negative, even, have compact support (1.5 and 2 cells), sum to one over the lattice at every point, reproduce linear functions, have the second moment used by the affine transfer, and are continuous with derivative and second derivative equal to the provided derivative functions.",
 ["inputs", "configurations"], "all real arguments and both degrees",
 TESTS + "kernels are only exercised implicitly with a coarse tolerance",
 ["src/tools.hpp"], [("N, dNdu, d2Ndu2", "src/tools.hpp")],
 ["kernel values"], "property-based testing: algebraic laws and exact B-spline values",
 "Exploration including knots and their neighbours.")

prop("C21", "Results depend only on the inputs",
 "Running the same setup again, in the same process or another one, next to or after other simulations, gives bit-identical single-threaded results; nothing depends on uninitialised memory, on the output options or verbosity, or on the particle numbering (renumbering the particles renumbers the result). An invalid request (not initialised, plasticity with a non-Hencky law) leaves the particles untouched; an unknown hardening law stops the run without changing any plastic strain.",
 ["inputs", "histories", "configurations"], "all setups and interleavings of simulations in a process",
 TESTS + "each test runs one setup once",
 [S + "simulation.cpp", S + "plasticity.cpp", "src/data_structures.hpp"], [("all state lives in the simulation object", S + "simulation.hpp")],
 ["particle state, bitwise"], "property-based testing: replay equality, differently initialised builds, renumbering",
 "Exploration; two builds whose uninitialised variables start from different patterns must agree bitwise.")
