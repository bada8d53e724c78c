// Stand-in for thinks/tph_poisson 0.3 (downloaded by the repository at configure
// time; no network here): a plain dart-throwing Poisson-disk sampler with the same
// signature and contract (samples inside [min,max], pairwise distance >= radius,
// deterministic in the seed).
#ifndef VERIF_POISSON_H
#define VERIF_POISSON_H
#include <array>
#include <cstdint>
#include <random>
#include <vector>
namespace thinks {
template <typename F, std::size_t D>
std::vector<std::array<F, D>> PoissonDiskSampling(F radius, const std::array<F, D>& lo, const std::array<F, D>& hi,
        std::uint32_t attempts = 30, std::uint32_t seed = 0) {
    std::vector<std::array<F, D>> out;
    std::mt19937 gen(seed + 1u);
    std::uniform_real_distribution<double> u(0.0, 1.0);
    std::uint32_t fails = 0, limit = 40 * (attempts + 1);
    if (limit < 600) limit = 600;
    if (limit > 1500) limit = 1500;
    while (fails < limit && out.size() < 3000) {
        std::array<F, D> c;
        for (std::size_t d = 0; d < D; d++) c[d] = lo[d] + F(u(gen)) * (hi[d] - lo[d]);
        bool ok = true;
        for (auto& o : out) {
            F r2 = 0;
            for (std::size_t d = 0; d < D; d++) r2 += (o[d] - c[d]) * (o[d] - c[d]);
            if (r2 < radius * radius) { ok = false; break; }
        }
        if (ok) { out.push_back(c); fails = 0; } else fails++;
    }
    return out;
}
} // namespace thinks
#endif
