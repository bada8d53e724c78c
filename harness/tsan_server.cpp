// Runs simulations described on stdin (see vp/remote.py) under the schedule-exploring OpenMP runtime and a race detector.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
struct Handle;
extern "C" {
int ms_dim(); int ms_degree(); Handle* ms_new(); void ms_free(Handle*); void ms_init(Handle*, int, const char*, const char*);
int ms_set(Handle*, const char*, double); double ms_getp(Handle*, const char*); int ms_setv(Handle*, const char*, const double*);
void ms_plate(Handle*, double, int, int, double, double, double, const double*, double, double);
int ms_object(Handle*, int, int, double, const double*);
void ms_particles(Handle*, int); int ms_count(Handle*, const char*); int ms_put(Handle*, const char*, const double*); int ms_get(Handle*, const char*, double*, int);
void ms_run_plain(Handle*);
void vs_seed(unsigned long, int); unsigned long vs_switches(); int vs_reports();
}

static std::string word() { static char b[4096]; if (scanf("%4095s", b) != 1) exit(0); return b; }
static double num() { return strtod(word().c_str(), nullptr); }

int main() {
    Handle* h = nullptr;
    for (;;) {
        std::string c = word();
        if (c == "new") { if (h) ms_free(h); h = ms_new(); }
        else if (c == "info") { printf("%d %d\n", ms_dim(), ms_degree()); fflush(stdout); }
        else if (c == "init") { int s = num(); std::string d = word(), n = word(); ms_init(h, s, d.c_str(), n.c_str()); }
        else if (c == "set") { std::string k = word(); if (ms_set(h, k.c_str(), num())) { fprintf(stderr, "key %s\n", k.c_str()); return 9; } }
        else if (c == "setv") { std::string k = word(); double v[3]; for (double& x : v) x = num(); ms_setv(h, k.c_str(), v); }
        else if (c == "particles") ms_particles(h, num());
        else if (c == "put") { std::string k = word(); std::vector<double> a((size_t)num()); for (double& x : a) x = num(); if (ms_put(h, k.c_str(), a.data())) return 9; }
        else if (c == "plate") { double a[11]; for (double& x : a) x = num(); ms_plate(h, a[0], a[1], a[2], a[3], a[4], a[5], a + 6, a[9], a[10]); }
        else if (c == "object") { double a[11]; for (double& x : a) x = num(); if (ms_object(h, a[0], a[1], a[2], a + 3)) return 9; }
        else if (c == "seed") { unsigned long s = strtoul(word().c_str(), nullptr, 10); vs_seed(s, num()); }
        else if (c == "simulate") { vs_reports(); ms_run_plain(h); printf("%g %d %lu\n", ms_getp(h, "exit"), vs_reports(), vs_switches()); fflush(stdout); }
        else if (c == "get") {
            std::string k = word(); int n = ms_count(h, k.c_str()), d = ms_dim();
            std::vector<double> a((size_t)n * d * d + 1); ms_get(h, k.c_str(), a.data(), n);
            printf("%d\n", n); fwrite(a.data(), sizeof(double), (size_t)n * d * d, stdout); fflush(stdout);
        }
        else return 8;
    }
}
