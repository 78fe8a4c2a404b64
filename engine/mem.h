#pragma once
#include "core.h"
struct Obj { uint64_t base, size; uint8_t kind; /* 0 global 1 stack 2 heap 3 const global */ bool alive; };
extern std::vector<Obj> objs;
extern Prog P;
uint64_t mem_alloc(uint64_t n, int kind);
void mem_free(uint64_t a, const char *what);
void mem_release(uint64_t a); // stack
void chk(uint64_t a, uint64_t n, bool write);
Val mem_load(uint64_t a, Ty t);
void mem_store(uint64_t a, Val v, Ty t);
void mem_copy(uint64_t d, uint64_t s, uint64_t n);
void mem_set(uint64_t d, int c, uint64_t n);
uint64_t r64(uint64_t a); void w64(uint64_t a, uint64_t v);
int mem_byte(uint64_t a); // concrete byte (case split if symbolic)
std::string mem_str(uint64_t a);
uint64_t conc(Val v, int bits); // concrete value by case split
bool condb(Val v);              // truth of an i1
ast tobv(Val v, int bits); ast tobool(Val v);
Val mkbv(ast a, int bits);
Val mkbool(ast a);
long live_heap();
std::string where();
#define FNBASE 0x40000000ULL
