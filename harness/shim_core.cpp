// C interface to one build variant of the simulator (2D/3D, quadratic/cubic).
// Only public members of the repository's classes are used.
#include "shim.hpp"

namespace {

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
struct Quiet {
    NullBuf buf; std::streambuf *out = nullptr, *err = nullptr;
    Quiet() { if (!getenv("SHIM_VERBOSE")) { out = std::cout.rdbuf(&buf); err = std::cerr.rdbuf(&buf); } }
    ~Quiet() { if (out) { std::cout.rdbuf(out); std::cerr.rdbuf(err); } }
} quiet;

// User-defined analytic objects (the documented extension point).
struct HalfSpace : ObjectGeneral { // inside: (x - a) . n <= 0
    TV n, a;
    HalfSpace(BC bc, T f, const double* p) : ObjectGeneral(bc, f, "half") { for (int d = 0; d < D; d++) { n(d) = p[d]; a(d) = p[D + d]; } n.normalize(); }
    bool inside(const TV& X) const override { return (X - a).dot(n) <= 0; }
    TV normal(const TV&) const override { return n; }
};
struct Ball : ObjectGeneral { // solid ball
    TV c; T r;
    Ball(BC bc, T f, const double* p) : ObjectGeneral(bc, f, "ball") { for (int d = 0; d < D; d++) c(d) = p[d]; r = p[D]; }
    bool inside(const TV& X) const override { return (X - c).norm() <= r; }
    TV normal(const TV& X) const override { TV n = X - c; T s = n.norm(); return s > 0 ? TV(n / s) : TV(TV::Unit(1)); }
};

// Never collides; records what is observable at the start of every step.
} // namespace
struct Monitor : ObjectGeneral {
    Simulation* sim; size_t plate; 
    mutable std::mutex m;
    mutable std::vector<double> times, maxspeed; mutable std::vector<double> xs, vs, gs; mutable bool keep; size_t nreal; size_t max_steps = 0; mutable bool overrun = false;
    Monitor(Simulation* s, size_t pl, bool k, size_t n) : ObjectGeneral(BC::NoSlip, 0, "monitor"), sim(s), plate(pl), keep(k), nreal(n) {}
    bool inside(const TV&) const override {
        std::lock_guard<std::mutex> lk(m);
        double t = sim->plates[plate]->pos_lower;
        if (times.empty() || times.back() != t) {
            times.push_back(t);
            if (max_steps && times.size() > max_steps) { overrun = true; sim->exit = 1; }
            double ms = 0;
            for (size_t p = 0; p < nreal && p < sim->particles.v.size(); p++) ms = std::max(ms, (double)sim->particles.v[p].norm());
            maxspeed.push_back(ms);
            for (int d = 0; d < D; d++) gs.push_back(sim->gravity(d));
            if (keep) for (size_t p = 0; p < nreal; p++) for (int d = 0; d < D; d++) { xs.push_back(sim->particles.x[p](d)); vs.push_back(sim->particles.v[p](d)); }
        }
        return false;
    }
    TV normal(const TV&) const override { return TV::Unit(1); }
};
namespace {

std::vector<TV>* tvfield(Particles& p, const std::string& k) {
    if (k == "x") return &p.x; if (k == "v") return &p.v; if (k == "pic") return &p.pic; if (k == "flip") return &p.flip; return nullptr;
}
std::vector<TM>* tmfield(Particles& p, const std::string& k) {
    if (k == "F") return &p.F; if (k == "Bmat") return &p.Bmat; if (k == "tau") return &p.tau; return nullptr;
}
std::vector<T>* tfield(Particles& p, const std::string& k) {
    if (k == "eps_pl_dev") return &p.eps_pl_dev; if (k == "eps_pl_vol") return &p.eps_pl_vol;
    if (k == "eps_pl_vol_pradhana") return &p.eps_pl_vol_pradhana; if (k == "delta_gamma") return &p.delta_gamma;
    if (k == "viscosity") return &p.viscosity; if (k == "muI") return &p.muI; return nullptr;
}

#ifdef THREEDIM
std::unique_ptr<ObjectPlate> mkplate(double pos, int type, int bc, double fr, double lo, double hi, const double* v, double vmin, double load) {
    return std::make_unique<ObjectPlate>(pos, (PlateType)type, (BC)bc, fr, lo, hi, v[0], v[1], v[2], vmin, load);
}
#else
std::unique_ptr<ObjectPlate> mkplate(double pos, int type, int bc, double fr, double lo, double hi, const double* v, double vmin, double load) {
    return std::make_unique<ObjectPlate>(pos, (PlateType)type, (BC)bc, fr, lo, hi, v[0], v[1], vmin, load);
}
#endif

} // namespace

extern "C" {

int ms_dim() { return D; }
int ms_degree() { return SPLINEDEG; }

Handle* ms_new() { return new Handle(); }
void ms_free(Handle* h) { delete h; }
void ms_init(Handle* h, int save, const char* dir, const char* name) { h->sim.initialize(save != 0, dir, name); }

int ms_set(Handle* h, const char* key, double v) {
    Simulation& s = h->sim; std::string k = key;
#define S(name) if (k == #name) { s.name = v; return 0; }
#define SB(name) if (k == #name) { s.name = (v != 0); return 0; }
#define SU(name) if (k == #name) { s.name = (unsigned int)v; return 0; }
    SU(n_threads) SU(end_frame) SU(Np)
    SB(reduce_verbose) SB(pbc) SB(gravity_special) SB(save_grid) SB(use_mibf) SB(use_musl) SB(use_pradhana) SB(use_duvaut_lions_formulation) SB(save_sim) SB(change_particle_positions)
    S(min_dt) S(fps) S(cfl) S(cfl_elastic) S(flip_ratio) S(rho) S(gravity_time) S(Lx) S(Ly)
    S(particle_mass) S(particle_volume) S(dx) S(E) S(nu) S(stress_tolerance) S(xi) S(q_max) S(q_min) S(p_min) S(M) S(q_cohesion)
    S(visc_exponent) S(visc_time) S(beta) S(p0) S(rho_s) S(grain_diameter) S(I_ref) S(mu_1) S(mu_2) S(q_prefac)
#ifdef THREEDIM
    S(Lz)
#else
    if (k == "Lz") return 0;
#endif
    if (k == "exit") { s.exit = (int)v; return 0; }
    if (k == "elastic_model") { s.elastic_model = (ElasticModel)(int)v; return 0; }
    if (k == "plastic_model") { s.plastic_model = (PlasticModel)(int)v; return 0; }
    if (k == "hardening_law") { s.hardening_law = (HardeningLaw)(int)v; return 0; }
    return 1;
}
double ms_getp(Handle* h, const char* key) {
    Simulation& s = h->sim; std::string k = key;
#define G(name) if (k == #name) return (double)s.name;
    G(exit) G(Np) G(dx) G(particle_mass) G(particle_volume) G(Lx) G(Ly) G(rho)
    G(min_dt) G(fps) G(cfl) G(cfl_elastic) G(flip_ratio) G(E) G(nu) G(xi) G(q_max) G(q_min) G(p_min) G(M) G(q_cohesion) G(q_prefac)
    G(visc_exponent) G(visc_time) G(beta) G(p0) G(rho_s) G(grain_diameter) G(I_ref) G(mu_1) G(mu_2) G(n_threads) G(end_frame) G(stress_tolerance)
#ifdef THREEDIM
    G(Lz)
#endif
    return NAN;
}
int ms_setv(Handle* h, const char* key, const double* v) {
    std::string k = key; TV a; for (int d = 0; d < D; d++) a(d) = v[d];
    if (k == "gravity") { h->sim.gravity = a; return 0; }
    if (k == "grid_reference_point") { h->sim.grid_reference_point = a; return 0; }
    return 1;
}
void ms_getv_gravity(Handle* h, double* v) { for (int d = 0; d < D; d++) v[d] = h->sim.gravity(d); }

void ms_plate(Handle* h, double pos, int type, int bc, double fr, double lo, double hi, const double* v, double vmin, double load) {
    h->sim.plates.push_back(mkplate(pos, type, bc, fr, lo, hi, v, vmin, load));
}
void ms_get_plate(Handle* h, int i, double* out) { auto& p = *h->sim.plates[i]; out[0] = p.pos_object; out[1] = p.pos_lower; out[2] = p.pos_upper; out[3] = p.vx_object; out[4] = p.vy_object;
#ifdef THREEDIM
    out[5] = p.vz_object;
#else
    out[5] = 0;
#endif
}
int ms_object(Handle* h, int kind, int bc, double fr, const double* par) {
    std::unique_ptr<ObjectGeneral> o;
    if (kind == 0) o = std::make_unique<HalfSpace>((BC)bc, fr, par);
    else if (kind == 1) o = std::make_unique<Ball>((BC)bc, fr, par);
    else o = shim_mkobject(kind, (BC)bc, fr, par);
    if (!o) return 1;
    h->sim.objects.push_back(std::move(o));
    return 0;
}

void ms_particles(Handle* h, int n) { h->sim.Np = n; h->sim.particles = Particles(n); }
int ms_count(Handle* h, const char* key) {
    if (auto* f = tvfield(h->sim.particles, key)) return f->size();
    if (auto* f = tmfield(h->sim.particles, key)) return f->size();
    if (auto* f = tfield(h->sim.particles, key)) return f->size();
    return -1;
}
int ms_put(Handle* h, const char* key, const double* a) {
    if (auto* f = tvfield(h->sim.particles, key)) { for (size_t p = 0; p < f->size(); p++) for (int d = 0; d < D; d++) (*f)[p](d) = a[p * D + d]; return 0; }
    if (auto* f = tmfield(h->sim.particles, key)) { for (size_t p = 0; p < f->size(); p++) for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) (*f)[p](i, j) = a[(p * D + i) * D + j]; return 0; }
    if (auto* f = tfield(h->sim.particles, key)) { for (size_t p = 0; p < f->size(); p++) (*f)[p] = a[p]; return 0; }
    return 1;
}
int ms_get(Handle* h, const char* key, double* a, int n) {
    if (auto* f = tvfield(h->sim.particles, key)) { for (size_t p = 0; p < f->size() && (int)p < n; p++) for (int d = 0; d < D; d++) a[p * D + d] = (*f)[p](d); return 0; }
    if (auto* f = tmfield(h->sim.particles, key)) { for (size_t p = 0; p < f->size() && (int)p < n; p++) for (int i = 0; i < D; i++) for (int j = 0; j < D; j++) a[(p * D + i) * D + j] = (*f)[p](i, j); return 0; }
    if (auto* f = tfield(h->sim.particles, key)) { for (size_t p = 0; p < f->size() && (int)p < n; p++) a[p] = (*f)[p]; return 0; }
    return 1;
}

// Adds a clock plate (never touched: it lies at x <= -1e15) and the monitor.
void ms_monitor(Handle* h, int keep) {
    double v[3] = {0, 1, 0};
    h->sim.plates.push_back(mkplate(-1e15, (int)PlateType::left, (int)BC::NoSlip, 0, 0.0, 0.0, v, 1.0, 0.0));
    auto m = std::make_unique<Monitor>(&h->sim, h->sim.plates.size() - 1, keep != 0, h->sim.Np);
    h->mon = m.get();
    h->sim.objects.push_back(std::move(m));
}
void ms_monitor_limit(Handle* h, int n) { h->mon->max_steps = n; }
int ms_monitor_overrun(Handle* h) { return h->mon->overrun; }
int ms_monitor_steps(Handle* h) { return h->mon ? h->mon->times.size() : -1; }
void ms_monitor_get(Handle* h, double* times, double* maxspeed, double* grav, double* xs, double* vs) {
    auto* m = h->mon;
    std::copy(m->times.begin(), m->times.end(), times);
    std::copy(m->maxspeed.begin(), m->maxspeed.end(), maxspeed);
    std::copy(m->gs.begin(), m->gs.end(), grav);
    if (m->keep && xs) { std::copy(m->xs.begin(), m->xs.end(), xs); std::copy(m->vs.begin(), m->vs.end(), vs); }
}
double ms_clock(Handle* h) { return h->mon ? h->sim.plates[h->mon->plate]->pos_lower : NAN; }

void ms_run_plain(Handle* h) { try { h->sim.simulate(); } catch (...) { h->sim.exit = 1; } }

// Runs the simulation; after `timeout` seconds asks it to stop through its public exit flag.
// Returns 0 finished, 1 stopped by the watchdog, 2 it threw.
int ms_simulate(Handle* h, double timeout) {
    std::mutex m; std::condition_variable cv; bool done = false; int rc = 0;
    std::thread dog([&] {
        std::unique_lock<std::mutex> lk(m);
        if (!cv.wait_for(lk, std::chrono::duration<double>(timeout), [&] { return done; })) { h->timed_out = 1; *(volatile int*)&h->sim.exit = 1; }
    });
    try { h->sim.simulate(); } catch (...) { rc = 2; }
    { std::lock_guard<std::mutex> lk(m); done = true; }
    cv.notify_all(); dog.join();
    return h->timed_out ? 1 : rc;
}

} // extern "C"
