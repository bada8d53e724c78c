// Particle sampling.
#include "shim.hpp"
#include "sampling/regular_sampling_particles.hpp"
#include "sampling/sampling_particles.hpp"

extern "C" {
void ms_sample_regular(Handle* h, double ppc, int crop) { regularSampleParticles(h->sim, ppc, crop); }
void ms_sample_poisson(Handle* h, double radius, double ppc, int crop, int attempts, int seed) { sampleParticles(h->sim, radius, ppc, crop, attempts, seed); }

} // extern "C"
