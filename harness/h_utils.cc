#include "w.h"
#include "nimble_utils.h"

API void u_sq_ft_f(const double* a, double* r) { Square_Full33T_Full33(a, r); }
API void u_sq_f_ft(const double* a, double* r) { Square_Full33_Full33T(a, r); }
API void u_mul_sf(double s, const double* a, double* r) { Mult_Scalar_Full33(s, a, r); }
API void u_mul_sf_alias(double s, double* r) { Mult_Scalar_Full33(s, r, r); }
API void u_sum_ff(const double* a, const double* b, double* r) { Sum_Full33_Full33(a, b, r); }
API void u_sum_ff_alias(double* r, const double* b) { Sum_Full33_Full33(r, b, r); }
API void u_sum_sf(const double* a, const double* b, double* r) { Sum_Sym33_Full33(a, b, r); }
API void u_mul_ff(const double* a, const double* b, double* r) { Mult_Full33_Full33(a, b, r); }
API void u_mul_symf(const double* a, const double* b, double* r) { Mult_Sym33_Full33(a, b, r); }
API void u_mul_sff(double s, const double* a, const double* b, double* r) { Mult_Scalar_Full33_Full33(s, a, b, r); }
API void u_mul_fsym_t(const double* a, const double* b, double* r) { Mult_Full33_Sym33_ReturnT(a, b, r); }
API void u_rotate(const double* s, const double* q, double* r) { Rotate_Sym33_Using_Rtranspose_S_R(s, q, r); }
API void u_unrotate(const double* s, const double* q, double* r) { Unrotate_Sym33_Using_R_S_Rtranspose(s, q, r); }
API void u_cross(const double* a, const double* b, double* r) { CrossProduct(a, b, r); }
API double u_det(const double* a) { return Determinant_Full33(a); }
API double u_norm_sym(const double* a) { return Norm_Sym33(a); }
API double u_norm_full(const double* a) { return Norm_Full33(a); }
API void u_zero(double* a) { Zero_Full33(a); }
API void u_seteq_full(const double* b, double* a) { SetEqual_Full33(b, a); }
API void u_seteq_sym(const double* b, double* a) { SetEqual_Sym33(b, a); }
API void u_sympart(const double* a, double* r) { SymPart_Full33(a, r); }
API void u_skewpart(const double* a, double* r) { SkewPart_Full33(a, r); }
API double u_invert_full(const double* a, double* r) { return Invert_Full33(a, r); }
API void u_bch(const double* x, const double* y, double* r) { BCH(x, y, r); }
API void u_bch_sym(const double* x, const double* y, double* r) { BCH_Sym33_Full33(x, y, r); }
API double u_invert3x3(const double* a, double* r)
{
  double m[3][3], i[3][3];
  for (int j = 0; j < 9; ++j) m[j / 3][j % 3] = a[j];
  double d = Invert3x3(m, i);
  for (int j = 0; j < 9; ++j) r[j] = i[j / 3][j % 3];
  return d;
}
API double u_multsign(double x, double y) { return MultiplySign(x, y); }
API double u_minimum(double x, double y) { return Minimum(x, y); }
API double u_if_then(int b, double x, double y) { return if_then(b != 0, x, y); }
API double u_if_then_else(int b, double x, double y) { return if_then_else(b != 0, x, y); }
API double u_if_then_else_zero(int b, double x) { return if_then_else_zero(b != 0, x); }
API void u_eigen(const double* t, double* ev, double* v)
{
  double e0, e1, e2;
  Eigen_Sym33_NonUnit(t, e0, e1, e2, v, v + 3, v + 6);
  ev[0] = e0; ev[1] = e1; ev[2] = e2;
}
API void u_polar(const double* m, double* s, double* q) { Polar_Decomp(m, s, q); }
API void u_polar_left(const double* m, double* s, double* q, double* l) { Polar_Left_LogV_Lame(m, s, q, l); }
API void u_log_rotation(const double* q, double* r) { Log_Rotation(q, r); }
API void u_log_rotation_pi(const double* q, double* r) { Log_Rotation_Pi(q, r); }
API int u_strlen(const char* s) { return StringLength(s); }
API int u_streq(const char* a, const char* b) { return StringsAreEqual(a, b) ? 1 : 0; }
