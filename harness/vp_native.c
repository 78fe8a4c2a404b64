/* Native replay runtime: reads the solver's values from the file in argv[1]. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <math.h>
#include <gmp.h>
#ifndef VP_ENTRY
#error VP_ENTRY
#endif
extern void VP_ENTRY(void);
static FILE *in;
static const char *next(void)
{
  static char buf[4096];
  for (;;) {
    if (!fgets(buf, sizeof buf, in)) { fprintf(stderr, "VPCUT inputs exhausted\n"); _exit(4); }
    if (buf[0] != '#') break;
  }
  buf[strcspn(buf, "\n")] = 0;
  return buf;
}
void vp_fail(const char *msg) { fprintf(stderr, "VPFAIL %s\n", msg); fflush(0); _exit(3); }
void vp_cut(const char *msg) { fprintf(stderr, "VPCUT %s\n", msg); fflush(0); _exit(4); }
/* "p/q": doubles carry it exactly or the replay is marked inexact */
static double num(void)
{
  mpq_t q; mpq_init(q);
  if (mpq_set_str(q, next(), 10)) vp_cut("bad number");
  mpq_canonicalize(q);
  double d = mpq_get_d(q);
  mpq_t r; mpq_init(r); mpq_set_d(r, d);
  if (!mpq_equal(q, r)) fprintf(stderr, "VPINEXACT\n");
  mpq_clear(q); mpq_clear(r);
  return d;
}
double vp_int(void) { return num(); }
double vp_real(void) { return num(); }
double vp_in(int lo, int hi) { double d = num(); if (d < lo || d > hi) vp_cut("input out of range"); return d; }
int vp_choice(int n) { if (n <= 1) return 0; int v = atoi(next()); if (v < 0 || v >= n) vp_cut("choice out of range"); return v; }
long vp_long(void) { return strtol(next(), 0, 10); }
int vp_isint(double x) { return x == floor(x); }
double vp_add(double a, double b) { return a + b; }
double vp_sub(double a, double b) { return a - b; }
double vp_mul(double a, double b) { return a * b; }
long vp_live(void) { return 0; }
void vp_mode(int a, int b) {}
void vp_print(double d) { fprintf(stderr, "  num %g\n", d); }
void vp_printi(long d) { fprintf(stderr, "  int %ld\n", d); }
void vp_assume_(int c, const char *what) { if (!c) vp_cut(what); }
void vp_assert_(int c, const char *msg) { if (!c) vp_fail(msg); }
void vp_cover_(void) {}
static void on_sig(int s) { static const char m[] = "VPFAIL fatal signal\n"; if (write(2, m, sizeof m - 1)) {} _exit(3); }
/* GMP contracts that GMP itself does not check (ld --wrap) */
#define CHK(c, m) do { if (!(c)) vp_fail("gmp contract: " m); } while (0)
#define QFIN(q) (mpz_sgn(mpq_denref(q)) != 0)
int __real___gmpq_cmp(mpq_srcptr a, mpq_srcptr b); void __real___gmpq_add(mpq_ptr a, mpq_srcptr b, mpq_srcptr c); void __real___gmpq_sub(mpq_ptr a, mpq_srcptr b, mpq_srcptr c);
void __real___gmpq_mul(mpq_ptr a, mpq_srcptr b, mpq_srcptr c); void __real___gmpq_div(mpq_ptr a, mpq_srcptr b, mpq_srcptr c); void __real___gmpz_divexact(mpz_ptr a, mpz_srcptr b, mpz_srcptr c);
int __wrap___gmpq_cmp(mpq_srcptr a, mpq_srcptr b) { CHK(QFIN(a) && QFIN(b), "mpq_cmp with denominator 0"); return __real___gmpq_cmp(a, b); }
void __wrap___gmpq_add(mpq_ptr a, mpq_srcptr b, mpq_srcptr c) { CHK(QFIN(b) && QFIN(c), "mpq_add/mpq_sub with denominator 0"); __real___gmpq_add(a, b, c); }
void __wrap___gmpq_sub(mpq_ptr a, mpq_srcptr b, mpq_srcptr c) { CHK(QFIN(b) && QFIN(c), "mpq_add/mpq_sub with denominator 0"); __real___gmpq_sub(a, b, c); }
void __wrap___gmpq_mul(mpq_ptr a, mpq_srcptr b, mpq_srcptr c) { CHK(QFIN(b) && QFIN(c), "mpq_mul with denominator 0"); __real___gmpq_mul(a, b, c); }
void __wrap___gmpq_div(mpq_ptr a, mpq_srcptr b, mpq_srcptr c) { CHK(QFIN(b) && QFIN(c), "mpq_div with denominator 0"); CHK(mpq_sgn(c) != 0, "mpq_div by zero"); __real___gmpq_div(a, b, c); }
void __wrap___gmpz_divexact(mpz_ptr a, mpz_srcptr b, mpz_srcptr c) { CHK(mpz_sgn(c) != 0 && mpz_divisible_p(b, c), "mpz_divexact not exact"); __real___gmpz_divexact(a, b, c); }
int main(int argc, char **argv)
{
  if (argc < 2 || !(in = fopen(argv[1], "r"))) return 2;
  signal(SIGSEGV, on_sig); signal(SIGFPE, on_sig); signal(SIGABRT, on_sig); signal(SIGBUS, on_sig);
  alarm(20);
  VP_ENTRY();
  fprintf(stderr, "VPOK\n");
  return 0;
}
