// Independent reference computations (plain arrays, no Eigen, no small_gicp), compiled without instrumentation.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
// point clouds are arrays of 4 doubles per point
void or_gen_cloud(double* out, size_t n, int kind, double scale, uint64_t seed);
const char* or_cloud_name(int kind);
enum { OR_CLOUD_KINDS = 11 };
// returns NULL if (idx, sq) is a valid answer of a k-nearest query, otherwise a description of what is wrong
const char* or_check_knn(const double* pts, size_t n, const double* q, size_t k, size_t found, const size_t* idx, const double* sq);
// k nearest by exhaustive scan (ties by index); returns count
size_t or_knn(const double* pts, size_t n, const double* q, size_t k, size_t* idx, double* sq);
// symmetric 3x3 eigen decomposition (Jacobi), ascending eigenvalues, columns of V (row-major V[r*3+c] is component r of vector c)
void or_eig3(const double* A, double* w, double* V);
// exp map se3 (rot, trans), row-major 4x4
void or_se3_exp(const double* xi, double* T);
void or_mat4_mul(const double* A, const double* B, double* C);
void or_mat4_inv_rigid(const double* T, double* R);
void or_transform(const double* T, const double* p, double* out);
double or_rot_angle_between(const double* T1, const double* T2);
double or_trans_between(const double* T1, const double* T2);
// voxel downsampling check: see oracle.cpp
const char* or_check_voxelgrid(const double* in, size_t n, double leaf, const double* out, size_t m, size_t block, int serial);
void or_set_out_eps(double e);  // rounding of the output cloud relative to the coordinates (0: double precision)
int or_voxel_coord(const double* p, double leaf, long* c);  // 1 if representable
// keyed sort
void or_sort_u64(uint64_t* a, size_t n);
char* or_msg(void);
#ifdef __cplusplus
}
#endif
