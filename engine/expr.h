// Bit-vector expressions: hash-consed DAG with simplification.
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <vector>
#include <string>
#include <algorithm>
typedef uint64_t u64; typedef uint32_t u32; typedef int64_t i64; typedef uint8_t u8;
enum Kind : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT };
struct Expr {
  Kind k; u8 w; u8 lo; u8 undef;      // undef: depends on uninitialised memory
  u8 dec;                             // width-1 only: 1 = known true on this path, 2 = known false
  u8 ctree;                           // number of constant leaves of an ite tree (0: not such a tree)
  u32 id; u32 hash;
  Expr *a,*b,*c; u64 v;               // v: constant or variable index
  u64 zeros, umin, umax;              // known-zero bits, unsigned range
  u64 supp; int onevar;               // support (mod 64); >=0: only this variable, -1: several, -2: none
  u64 mval; u32 mepoch;               // evaluation memo
  Expr* sub; u32 sepoch;              // substitution memo
  void* z;                            // solver term
  Expr* next;
};
struct Var { std::string name; u8 w; bool undef; bool input; Expr* e; bool fixed; u64 fval; u64 dom[4]; bool multi; u64 model; };
extern std::vector<Var> g_vars;
static inline u64 msk(int w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v,int w){ if(w>=64) return (i64)v; u64 s=1ull<<(w-1); return (i64)((v^s)-s); }

Expr* mkConst(u64 v,int w);
Expr* mkVar(const std::string& name,int w,bool undef,bool input);
Expr* mkBin(Kind k,Expr* a,Expr* b);       // arithmetic, logic, comparisons
Expr* mkIte(Expr* c,Expr* a,Expr* b);
Expr* mkZext(Expr* a,int w); Expr* mkSext(Expr* a,int w);
Expr* mkExtract(Expr* a,int lo,int w); Expr* mkConcat(Expr* hi,Expr* lo);
static inline Expr* mkNot(Expr* a){ return mkBin(K_XOR,a,mkConst(1,1)); }
u64 evalExpr(Expr* e);                      // under current model
u64 foldBin(Kind k,u64 x,u64 y,int w);
Expr* substFixed(Expr* e);
extern u32 g_modelEpoch, g_substEpoch; extern u64 g_fixedSupp; extern u64 g_exprCount;
std::string exprStr(Expr* e,int depth=4);
