/* Declarations of GMP for the symbolic encoding only (replays use the real GMP).  Numbers are handles:
   the functions are built into the engine, which computes with exact integers and rationals of the solver. */
#ifndef VP_MODEL_GMP_H
#define VP_MODEL_GMP_H
#include <stddef.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long mp_limb_t;
typedef long mp_exp_t;
typedef unsigned long mp_bitcnt_t;
typedef long mp_size_t;
typedef struct { long h; } __mpz_struct;
typedef __mpz_struct mpz_t[1];
typedef __mpz_struct *mpz_ptr;
typedef const __mpz_struct *mpz_srcptr;
typedef struct { __mpz_struct _mp_num, _mp_den; } __mpq_struct;
typedef __mpq_struct mpq_t[1];
typedef __mpq_struct *mpq_ptr;
typedef const __mpq_struct *mpq_srcptr;
typedef __mpz_struct MP_INT;
typedef __mpq_struct MP_RAT;
typedef void *gmp_randstate_t[1];
#define __GNU_MP_VERSION 6
#define __GNU_MP_VERSION_MINOR 2
#define __GNU_MP_VERSION_PATCHLEVEL 1

#define mpq_numref(q) (&((q)->_mp_num))
#define mpq_denref(q) (&((q)->_mp_den))

void mpz_init(mpz_ptr);
void mpz_init_set(mpz_ptr, mpz_srcptr);
void mpz_init_set_si(mpz_ptr, long);
void mpz_init_set_ui(mpz_ptr, unsigned long);
void mpz_clear(mpz_ptr);
void mpz_set(mpz_ptr, mpz_srcptr);
void mpz_set_si(mpz_ptr, long);
void mpz_set_ui(mpz_ptr, unsigned long);
void mpz_set_d(mpz_ptr, double);
long mpz_get_si(mpz_srcptr);
unsigned long mpz_get_ui(mpz_srcptr);
double mpz_get_d(mpz_srcptr);
void mpz_swap(mpz_ptr, mpz_ptr);
int mpz_sgn(mpz_srcptr);
int mpz_cmp(mpz_srcptr, mpz_srcptr);
void mpz_init2(mpz_ptr, mp_bitcnt_t);
void mpz_init_set_d(mpz_ptr, double);
int mpz_cmp_d(mpz_srcptr, double);
int mpz_cmpabs_ui(mpz_srcptr, unsigned long);
int mpz_fits_ulong_p(mpz_srcptr);
int mpz_fits_uint_p(mpz_srcptr);
unsigned long mpz_tdiv_q_ui(mpz_ptr, mpz_srcptr, unsigned long);
unsigned long mpz_fdiv_q_ui(mpz_ptr, mpz_srcptr, unsigned long);
unsigned long mpz_fdiv_ui(mpz_srcptr, unsigned long);
unsigned long mpz_tdiv_ui(mpz_srcptr, unsigned long);
void mpz_tdiv_qr(mpz_ptr, mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_fdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_cdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_ui_sub(mpz_ptr, unsigned long, mpz_srcptr);
void mpz_set_q(mpz_ptr, mpq_srcptr);
int mpz_odd_p(mpz_srcptr);
int mpz_even_p(mpz_srcptr);
int mpz_divisible_ui_p(mpz_srcptr, unsigned long);
void mpz_addmul_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_submul_ui(mpz_ptr, mpz_srcptr, unsigned long);
int mpq_cmp_z(mpq_srcptr, mpz_srcptr);
void mpq_set_den(mpq_ptr, mpz_srcptr);
int mpz_cmp_si(mpz_srcptr, long);
int mpz_cmp_ui(mpz_srcptr, unsigned long);
int mpz_cmpabs(mpz_srcptr, mpz_srcptr);
void mpz_neg(mpz_ptr, mpz_srcptr);
void mpz_abs(mpz_ptr, mpz_srcptr);
void mpz_add(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_add_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_sub(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_sub_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_mul(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_mul_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_mul_si(mpz_ptr, mpz_srcptr, long);
void mpz_mul_2exp(mpz_ptr, mpz_srcptr, mp_bitcnt_t);
void mpz_tdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_tdiv_r(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_fdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_cdiv_q(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_cdiv_qr(mpz_ptr, mpz_ptr, mpz_srcptr, mpz_srcptr);
unsigned long mpz_cdiv_q_ui(mpz_ptr, mpz_srcptr, unsigned long);
void mpz_tdiv_q_2exp(mpz_ptr, mpz_srcptr, mp_bitcnt_t);
void mpz_fdiv_q_2exp(mpz_ptr, mpz_srcptr, mp_bitcnt_t);
void mpz_cdiv_q_2exp(mpz_ptr, mpz_srcptr, mp_bitcnt_t);
void mpz_divexact(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_mod(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_gcd(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_lcm(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_sqrt(mpz_ptr, mpz_srcptr);
int mpz_perfect_square_p(mpz_srcptr);
void mpz_pow_ui(mpz_ptr, mpz_srcptr, unsigned long);
int mpz_root(mpz_ptr, mpz_srcptr, unsigned long);
int mpz_fits_slong_p(mpz_srcptr);
size_t mpz_sizeinbase(mpz_srcptr, int);
size_t mpz_size(mpz_srcptr);
void *mpz_export(void *, size_t *, int, size_t, int, size_t, mpz_srcptr);
void mpz_import(mpz_ptr, size_t, int, size_t, int, size_t, const void *);
size_t mpz_out_str(FILE *, int, mpz_srcptr);
char *mpz_get_str(char *, int, mpz_srcptr);

void mpq_init(mpq_ptr);
void mpq_clear(mpq_ptr);
void mpq_canonicalize(mpq_ptr);
void mpq_set(mpq_ptr, mpq_srcptr);
void mpq_set_si(mpq_ptr, long, unsigned long);
void mpq_set_ui(mpq_ptr, unsigned long, unsigned long);
void mpq_set_z(mpq_ptr, mpz_srcptr);
void mpq_set_d(mpq_ptr, double);
double mpq_get_d(mpq_srcptr);
void mpq_swap(mpq_ptr, mpq_ptr);
int mpq_sgn(mpq_srcptr);
int mpq_cmp(mpq_srcptr, mpq_srcptr);
int mpq_cmp_si(mpq_srcptr, long, unsigned long);
int mpq_cmp_ui(mpq_srcptr, unsigned long, unsigned long);
int mpq_equal(mpq_srcptr, mpq_srcptr);
void mpq_neg(mpq_ptr, mpq_srcptr);
void mpq_abs(mpq_ptr, mpq_srcptr);
void mpq_inv(mpq_ptr, mpq_srcptr);
void mpq_add(mpq_ptr, mpq_srcptr, mpq_srcptr);
void mpq_sub(mpq_ptr, mpq_srcptr, mpq_srcptr);
void mpq_mul(mpq_ptr, mpq_srcptr, mpq_srcptr);
void mpq_div(mpq_ptr, mpq_srcptr, mpq_srcptr);
void mpq_mul_2exp(mpq_ptr, mpq_srcptr, mp_bitcnt_t);
void mpq_div_2exp(mpq_ptr, mpq_srcptr, mp_bitcnt_t);
size_t mpq_out_str(FILE *, int, mpq_srcptr);
char *mpq_get_str(char *, int, mpq_srcptr);
void mpz_addmul(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_submul(mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_fdiv_qr(mpz_ptr, mpz_ptr, mpz_srcptr, mpz_srcptr);
void mpz_gcdext(mpz_ptr, mpz_ptr, mpz_ptr, mpz_srcptr, mpz_srcptr);
int mpz_divisible_p(mpz_srcptr, mpz_srcptr);
void mpz_ui_pow_ui(mpz_ptr, unsigned long, unsigned long);
int mpz_fits_sint_p(mpz_srcptr);
void mpq_get_num(mpz_ptr, mpq_srcptr);
void mpq_get_den(mpz_ptr, mpq_srcptr);
void __gmpq_set_num(mpq_ptr, mpz_srcptr);
#define mpq_set_num __gmpq_set_num
#ifdef __cplusplus
}
#endif
#endif
