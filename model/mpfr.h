/* Declarations of MPFR for the symbolic encoding only: see gmp.h. */
#ifndef VP_MODEL_MPFR_H
#define VP_MODEL_MPFR_H
#include "gmp.h"
#ifdef __cplusplus
extern "C" {
#endif
#define MPFR_VERSION_MAJOR 4
#define MPFR_VERSION_MINOR 2
#define MPFR_VERSION MPFR_VERSION_NUM(4,2,1)
#define MPFR_VERSION_NUM(a,b,c) (((a) << 16L) | ((b) << 8) | (c))
typedef enum { MPFR_RNDN = 0, MPFR_RNDZ, MPFR_RNDU, MPFR_RNDD, MPFR_RNDA } mpfr_rnd_t;
#define mp_rnd_t mpfr_rnd_t
#define GMP_RNDN MPFR_RNDN
#define GMP_RNDZ MPFR_RNDZ
#define GMP_RNDU MPFR_RNDU
#define GMP_RNDD MPFR_RNDD
typedef long mpfr_prec_t;
typedef long mpfr_exp_t;
#define mp_prec_t mpfr_prec_t
typedef struct { long _mpfr_prec; long h; } __mpfr_struct;
typedef __mpfr_struct mpfr_t[1];
typedef __mpfr_struct *mpfr_ptr;
typedef const __mpfr_struct *mpfr_srcptr;
#define mpfr_custom_get_significand(x) (x)
void mpfr_set_default_prec(mpfr_prec_t);
mpfr_prec_t mpfr_get_default_prec(void);
mpfr_prec_t mpfr_get_prec(mpfr_srcptr);
void mpfr_set_prec(mpfr_ptr, mpfr_prec_t);
void mpfr_init(mpfr_ptr);
void mpfr_init2(mpfr_ptr, mpfr_prec_t);
void mpfr_clear(mpfr_ptr);
void mpfr_swap(mpfr_ptr, mpfr_ptr);
int mpfr_set(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_set_si(mpfr_ptr, long, mpfr_rnd_t);
int mpfr_set_ui(mpfr_ptr, unsigned long, mpfr_rnd_t);
int mpfr_set_si_2exp(mpfr_ptr, long, mpfr_exp_t, mpfr_rnd_t);
int mpfr_set_d(mpfr_ptr, double, mpfr_rnd_t);
int mpfr_set_ld(mpfr_ptr, long double, mpfr_rnd_t);
int mpfr_set_z(mpfr_ptr, mpz_srcptr, mpfr_rnd_t);
int mpfr_set_q(mpfr_ptr, mpq_srcptr, mpfr_rnd_t);
int mpfr_set_sj(mpfr_ptr, long, mpfr_rnd_t);
void mpfr_set_zero(mpfr_ptr, int);
int mpfr_cmp_ui(mpfr_srcptr, unsigned long);
int mpfr_cmp_z(mpfr_srcptr, mpz_srcptr);
int mpfr_cmpabs(mpfr_srcptr, mpfr_srcptr);
int mpfr_signbit(mpfr_srcptr);
int mpfr_regular_p(mpfr_srcptr);
int mpfr_less_p(mpfr_srcptr, mpfr_srcptr);
int mpfr_lessequal_p(mpfr_srcptr, mpfr_srcptr);
int mpfr_greater_p(mpfr_srcptr, mpfr_srcptr);
int mpfr_greaterequal_p(mpfr_srcptr, mpfr_srcptr);
int mpfr_add_si(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t);
int mpfr_sub_si(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t);
int mpfr_add_d(mpfr_ptr, mpfr_srcptr, double, mpfr_rnd_t);
int mpfr_sub_d(mpfr_ptr, mpfr_srcptr, double, mpfr_rnd_t);
int mpfr_mul_d(mpfr_ptr, mpfr_srcptr, double, mpfr_rnd_t);
int mpfr_div_d(mpfr_ptr, mpfr_srcptr, double, mpfr_rnd_t);
int mpfr_add_q(mpfr_ptr, mpfr_srcptr, mpq_srcptr, mpfr_rnd_t);
int mpfr_sub_q(mpfr_ptr, mpfr_srcptr, mpq_srcptr, mpfr_rnd_t);
int mpfr_mul_q(mpfr_ptr, mpfr_srcptr, mpq_srcptr, mpfr_rnd_t);
int mpfr_div_q(mpfr_ptr, mpfr_srcptr, mpq_srcptr, mpfr_rnd_t);
int mpfr_sqr(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_mul_si(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t);
int mpfr_mul_ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_div_ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_si_div(mpfr_ptr, long, mpfr_srcptr, mpfr_rnd_t);
int mpfr_si_sub(mpfr_ptr, long, mpfr_srcptr, mpfr_rnd_t);
int mpfr_ui_sub(mpfr_ptr, unsigned long, mpfr_srcptr, mpfr_rnd_t);
int mpfr_mul_2exp(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_div_2exp(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_div_2si(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t);
int mpfr_floor(mpfr_ptr, mpfr_srcptr);
int mpfr_ceil(mpfr_ptr, mpfr_srcptr);
int mpfr_trunc(mpfr_ptr, mpfr_srcptr);
void mpfr_set_inf(mpfr_ptr, int);
void mpfr_set_nan(mpfr_ptr);
#define mpfr_init_set(a, b, r) (mpfr_init(a), mpfr_set(a, b, r))
#define mpfr_init_set_si(a, b, r) (mpfr_init(a), mpfr_set_si(a, b, r))
#define mpfr_init_set_ui(a, b, r) (mpfr_init(a), mpfr_set_ui(a, b, r))
#define mpfr_init_set_d(a, b, r) (mpfr_init(a), mpfr_set_d(a, b, r))
#define mpfr_init_set_ld(a, b, r) (mpfr_init(a), mpfr_set_ld(a, b, r))
double mpfr_get_d(mpfr_srcptr, mpfr_rnd_t);
long double mpfr_get_ld(mpfr_srcptr, mpfr_rnd_t);
long mpfr_get_si(mpfr_srcptr, mpfr_rnd_t);
long mpfr_get_sj(mpfr_srcptr, mpfr_rnd_t);
int mpfr_get_z(mpz_ptr, mpfr_srcptr, mpfr_rnd_t);
mpfr_exp_t mpfr_get_z_exp(mpz_ptr, mpfr_srcptr);
int mpfr_set_z_2exp(mpfr_ptr, mpz_srcptr, mpfr_exp_t, mpfr_rnd_t);
mpfr_exp_t mpfr_get_exp(mpfr_srcptr);
mpfr_exp_t mpfr_get_emax(void);
int mpfr_fits_slong_p(mpfr_srcptr, mpfr_rnd_t);
int mpfr_fits_intmax_p(mpfr_srcptr, mpfr_rnd_t);
int mpfr_nan_p(mpfr_srcptr);
int mpfr_inf_p(mpfr_srcptr);
int mpfr_number_p(mpfr_srcptr);
int mpfr_zero_p(mpfr_srcptr);
int mpfr_integer_p(mpfr_srcptr);
int mpfr_sgn(mpfr_srcptr);
int mpfr_cmp(mpfr_srcptr, mpfr_srcptr);
int mpfr_cmp_si(mpfr_srcptr, long);
int mpfr_cmp_d(mpfr_srcptr, double);
int mpfr_cmp_ld(mpfr_srcptr, long double);
int mpfr_cmp_q(mpfr_srcptr, mpq_srcptr);
int mpfr_equal_p(mpfr_srcptr, mpfr_srcptr);
int mpfr_neg(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_abs(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_add(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_sub(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_add_ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_sub_ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_mul(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_div(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_div_si(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t);
int mpfr_ui_div(mpfr_ptr, unsigned long, mpfr_srcptr, mpfr_rnd_t);
int mpfr_mul_2ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_div_2ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_mul_2si(mpfr_ptr, mpfr_srcptr, long, mpfr_rnd_t);
int mpfr_min(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_max(mpfr_ptr, mpfr_srcptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_rint_floor(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_rint_ceil(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_rint_trunc(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_sqrt(mpfr_ptr, mpfr_srcptr, mpfr_rnd_t);
int mpfr_pow_ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
int mpfr_rootn_ui(mpfr_ptr, mpfr_srcptr, unsigned long, mpfr_rnd_t);
char *mpfr_get_str(char *, mpfr_exp_t *, int, size_t, mpfr_srcptr, mpfr_rnd_t);
void mpfr_free_str(char *);
size_t mpfr_out_str(FILE *, int, size_t, mpfr_srcptr, mpfr_rnd_t);
int mpfr_get_q(mpq_ptr, mpfr_srcptr);
#ifdef __cplusplus
}
#endif
#endif
