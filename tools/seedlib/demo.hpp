#pragma once
#include "tools.hpp"
#include "simulation/simulation.hpp"
#include <cstdio>
// n particles of unit density at rest, one step per frame of length dt
inline void setup(Simulation& sim, int n, double dx, double dt, int steps) {
    sim.initialize(false);
    sim.reduce_verbose = true;
    sim.dx = dx; sim.Np = n; sim.particles = Particles(n);
    sim.rho = 1000; sim.particle_volume = std::pow(dx, (double)sim.dim) / 4; sim.particle_mass = sim.rho * sim.particle_volume;
    sim.E = 1000 * std::pow(0.01 * dx / dt, 2.0); sim.nu = 0.3;
    sim.cfl = 1e30; sim.cfl_elastic = 1e30; sim.fps = 1 / dt; sim.end_frame = steps;
}
inline int verdict(const char* what, double got, double want, double tol) {
    bool ok = std::abs(got - want) <= tol;
    printf("%s: %.15g, expected %.15g: %s\n", what, got, want, ok ? "ok" : "WRONG");
    return ok ? 0 : 1;
}
