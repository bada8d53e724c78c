// Level sets from VDB files.
#include "shim.hpp"
#include "objects/object_vdb.hpp"
#include "sampling/regular_sampling_particles_vdb.hpp"
#include "sampling/sampling_particles_vdb.hpp"

extern "C" {
// Writes a dense level set: values[i][j][k] at index (i0+i, j0+j, k0+k), voxel size h, world position of index (0,0,0) at t.
int ms_vdb_write(const char* path, const int* n, const int* i0, double h, const double* t, const float* values, float background) {
    try {
        openvdb::initialize();
        auto g = openvdb::FloatGrid::create(background);
        auto tr = openvdb::math::Transform::createLinearTransform(h);
        tr->postTranslate(openvdb::Vec3d(t[0], t[1], t[2]));
        g->setTransform(tr);
        g->setGridClass(openvdb::GRID_LEVEL_SET);
        auto a = g->getAccessor();
        size_t l = 0;
        for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++)
            a.setValue(openvdb::Coord(i0[0] + i, i0[1] + j, i0[2] + k), values[l++]);
        openvdb::io::File f(path);
        openvdb::GridPtrVec v; v.push_back(g);
        f.write(v); f.close();
        return 0;
    } catch (...) { return 1; }
}
ObjectVdb* ms_vdb_open(const char* path) { openvdb::initialize(); try { return new ObjectVdb(path); } catch (...) { return nullptr; } }
void ms_vdb_close(ObjectVdb* o) { delete o; }
void ms_vdb_query(ObjectVdb* o, const double* X, int n, int* in, double* nrm) {
    for (int p = 0; p < n; p++) {
        TV x; for (int d = 0; d < D; d++) x(d) = X[p * D + d];
        in[p] = o->inside(x); TV v = o->normal(x);
        for (int d = 0; d < D; d++) nrm[p * D + d] = v(d);
    }
}
void ms_vdb_bounds(ObjectVdb* o, double* lo, double* hi) { TV a, b; o->bounds(a, b); for (int d = 0; d < D; d++) { lo[d] = a(d); hi[d] = b(d); } }
int ms_vdb_add(Handle* h, const char* path, int bc, double fr) { openvdb::initialize(); try { h->sim.objects.push_back(std::make_unique<ObjectVdb>(path, (BC)bc, fr)); return 0; } catch (...) { return 1; } }
void ms_vdb_sample(Handle* h, ObjectVdb* o, int regular, double radius, double ppc) {
    if (regular) regularSampleParticlesFromVdb(h->sim, *o, ppc); else sampleParticlesFromVdb(h->sim, *o, radius, ppc);
}
} // extern "C"
