// Output path of the simulator.
#include "shim.hpp"
#include "../../deps/tinyply.h"

extern "C" {
void ms_avg(Handle* h, double* cauchy, double* kirchh, double* J) {
    TM a, b; T j; h->sim.computeAvgData(a, b, j);
    for (int i = 0; i < D; i++) for (int k = 0; k < D; k++) { cauchy[i * D + k] = a(i, k); kirchh[i * D + k] = b(i, k); }
    *J = j;
}

void ms_save_avg(Handle* h) { h->sim.saveAvgData(); }

// The grid, through the documented output path (captured by the tinyply stand-in).
int ms_save_grid(Handle* h) { tinyply::verif_last_file().columns.clear(); h->sim.saveGridData("verif_probe_"); return tinyply::verif_last_file().columns.size(); }
int ms_save_particles(Handle* h) { tinyply::verif_last_file().columns.clear(); h->sim.saveParticleData("verif_probe_"); return tinyply::verif_last_file().columns.size(); }
int ms_cap_count(const char* name) { for (auto& c : tinyply::verif_last_file().columns) if (c.name == name) return c.values.size(); return -1; }
void ms_cap_get(const char* name, double* out) { for (auto& c : tinyply::verif_last_file().columns) if (c.name == name) { std::copy(c.values.begin(), c.values.end(), out); return; } }
int ms_cap_name(int i, char* out, int n) { auto& c = tinyply::verif_last_file().columns; if (i >= (int)c.size()) return 1; strncpy(out, c[i].name.c_str(), n); return 0; }

} // extern "C"
