// Interpolation kernels and small tools.
#include "shim.hpp"

extern "C" {
void ms_kernel(int n, const double* u, double* w, double* dw, double* ddw) { for (int i = 0; i < n; i++) { w[i] = N(u[i]); dw[i] = dNdu(u[i]); ddw[i] = d2Ndu2(u[i]); } }
int ms_arange(double a, double b, double s, double* out, int cap) { auto v = arange(a, b, s); for (size_t i = 0; i < v.size() && (int)i < cap; i++) out[i] = v[i]; return v.size(); }
int ms_sgn(double x) { return sgn(x); }

} // extern "C"
