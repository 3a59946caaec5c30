// Parse-only stand-in for abscab-cpp.
#ifndef VERIF_SHIM_ABSCAB_H_
#define VERIF_SHIM_ABSCAB_H_
namespace abscab {
const double MU_0 = 1.25663706212e-6;
void magneticFieldCircularFilament(double* center, double* normal, double radius, double current, int n, double* pos, double* out, int num_processors = 1);
void magneticFieldPolygonFilament(int nv, double* v, double current, int n, double* pos, double* out, int num_processors = 1);
void vectorPotentialCircularFilament(double* center, double* normal, double radius, double current, int n, double* pos, double* out, int num_processors = 1);
void vectorPotentialPolygonFilament(int nv, double* v, double current, int n, double* pos, double* out, int num_processors = 1);
}
#endif
