// The analytic objects.
#include "shim.hpp"
#include "objects/object_bump.hpp"
#include "objects/object_curve.hpp"
#include "objects/object_gate.hpp"
#include "objects/object_ground.hpp"
#include "objects/object_ramp.hpp"
#ifdef THREEDIM
#include "objects/object_silo.hpp"
#endif

std::unique_ptr<ObjectGeneral> shim_mkobject(int kind, BC bc, double fr, const double* par) {
    switch (kind) {
        case 2: return std::make_unique<ObjectGround>(bc, fr, "", par[0]);
        case 3: return std::make_unique<ObjectCurve>(bc, fr);
        case 4: return std::make_unique<ObjectBump>(bc, fr);
        case 5: return std::make_unique<ObjectGate>(bc, fr, "", par[0]);
        case 6: return std::make_unique<ObjectRamp>(bc, fr);
#ifdef THREEDIM
        case 7: return std::make_unique<ObjectSilo>(bc, fr, "", par[0]);
#endif
    }
    return nullptr;
}

extern "C" {
int ms_obj_query(int kind, const double* par, int n, const double* X, int* inside, double* normal) {
    auto o = shim_mkobject(kind, BC::NoSlip, 0, par);
    if (!o) return 1;
    for (int i = 0; i < n; i++) { TV x; for (int d = 0; d < D; d++) x(d) = X[i * D + d]; inside[i] = o->inside(x); TV nn = o->normal(x); for (int d = 0; d < D; d++) normal[i * D + d] = nn(d); }
    return 0;
}
void ms_plate_inside(double pos, int type, double lo, double hi, int n, const double* X, int* inside) {
    double v[3] = {0, 0, 0}; 
#ifdef THREEDIM
    auto p = std::make_unique<ObjectPlate>(pos, (PlateType)type, BC::NoSlip, 0, lo, hi, v[0], v[1], v[2], 1, 0);
#else
    auto p = std::make_unique<ObjectPlate>(pos, (PlateType)type, BC::NoSlip, 0, lo, hi, v[0], v[1], 1, 0);
#endif

    for (int i = 0; i < n; i++) { TV x; for (int d = 0; d < D; d++) x(d) = X[i * D + d]; inside[i] = p->inside(x); }
}
} // extern "C"
