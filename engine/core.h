// Values, numbers, solver access, path control.
#pragma once
#include "ir.h"
#include <gmp.h>
#include <z3.h>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <functional>
#include <unordered_map>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
typedef Z3_ast ast;
typedef unsigned __int128 u128;
// INT concrete; BV symbolic bit-vector; BOOL symbolic i1; REAL number (index in nums); RB the bits of a
// double (same index); AGG first-class aggregate; PSEL symbolic choice between two pointers
enum Tag : uint8_t { INT, BV, BOOL, REAL, RB, AGG, PSEL };
struct Val { union { uint64_t u; ast a; }; Tag t; Val() : u(0), t(INT) {} explicit Val(uint64_t x) : u(x), t(INT) {} };
static inline Val vast(ast a, Tag t) { Val v; v.a = a; v.t = t; return v; }
static inline Val vreal(uint64_t i) { Val v; v.u = i; v.t = REAL; return v; }
struct PS { ast c; Val a, b; };
extern std::vector<std::vector<Val>> aggs;
extern std::vector<PS> psels;
// ---- numbers
enum NK : uint8_t { NQ, NS, NPINF, NNINF, NNAN, NNONE };
struct Num { NK k; bool isint; mpq_ptr q; ast a; };
extern std::vector<Num> nums;
extern Z3_context C; extern Z3_solver S; extern Z3_sort RS, IS, BS;
struct Stats {
  long paths, forks, branches, queries, unknown, asserts, instrs, killed, unsup, crashed, cutden, concretised, inputs, covered, errors, memops, timeouts;
  double solver;
  int nmsg; struct { char m[160]; long n, fails; } msg[400];
  int nuns; char uns[40][300];
  int ncut; struct { char m[100]; long n; } cut[100];
  int stop, held; volatile int nviol; double deadline; long maxpaths;
  sem_t tok, mtx; unsigned char fn[20000];
};
extern Stats *ST;
double now();
struct PathEnd { bool forked; explicit PathEnd(bool f = false) : forked(f) {} };
[[noreturn]] void endpath();
[[noreturn]] void unsupported(const std::string &m);
[[noreturn]] void cutpath(const char *why);
void violation(const std::string &msg, bool checked);   // records the current model as a counterexample
bool decide(ast c);
void assume(ast c);
void vassert(ast c, const std::string &msg);
int choose(int n);
ast simp(ast a);
static inline ast bTrue() { return Z3_mk_true(C); }
static inline ast bFalse() { return Z3_mk_false(C); }
ast bnot(ast a);
ast band(ast a, ast b); ast bor(ast a, ast b);
ast bite(ast c, ast a, ast b);
ast fresh(const char *p, Z3_sort s);
// numbers
uint64_t nq(mpq_srcptr q); uint64_t nsi(long x); uint64_t nsym(ast a, bool isint); uint64_t nspecial(NK k);
uint64_t ndouble(long double d);
ast nast(uint64_t i);
static inline bool nfin(uint64_t i) { return nums[i].k == NQ || nums[i].k == NS; }
uint64_t nadd(uint64_t a, uint64_t b), nsub(uint64_t a, uint64_t b), nmul(uint64_t a, uint64_t b), ndiv(uint64_t a, uint64_t b), nneg(uint64_t a), nabs_(uint64_t a);
bool nisint(uint64_t &a);
uint64_t nfloor(uint64_t a), nceil(uint64_t a), ntrunc(uint64_t a);
uint64_t nite(ast c, uint64_t a, uint64_t b);
uint64_t nconc(uint64_t a);             // concretise by case split
ast nlt(uint64_t a, uint64_t b), nle(uint64_t a, uint64_t b), neq(uint64_t a, uint64_t b);
int nsgnc(uint64_t a);                  // sign, by case split if needed
uint64_t nround(uint64_t e, int mode);  // 0 nearest 1 zero 2 up 3 down: abstract rounding
struct Cmp3 { ast lt, gt, eq; }; extern std::unordered_map<ast, Cmp3> cmps;
Val cmp3(uint64_t a, uint64_t b);       // i32: -1, 0, 1
extern int FPMODE;                      // 0 exact, 1 floating-point operations round up abstractly
struct Input { int kind; ast a; long c; }; // 0 choice, 1 number, 2 bit-vector
extern std::vector<Input> inputs;
extern std::string vdir; extern std::vector<std::string> callstack_names();
