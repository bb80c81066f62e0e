// Compact executable form of LLVM IR shared by the translator (ir2x.cpp) and
// the symbolic executor (symx.cpp).
#pragma once
#include <stdint.h>
namespace xir {
static const uint64_t GLOBAL_BASE = 0x100000000000ull;   // target addresses
static const uint64_t GLOBAL_SIZE = 0x40000000ull;
static const uint64_t STACK_BASE  = GLOBAL_BASE + GLOBAL_SIZE;
static const uint64_t STACK_SIZE  = 0x40000000ull;
static const uint64_t HEAP_BASE   = STACK_BASE + STACK_SIZE;
static const uint64_t HEAP_SIZE   = 0x380000000ull;
static const uint64_t REGION_END  = HEAP_BASE + HEAP_SIZE;
static const uint64_t FUNC_BASE   = 0x80000000ull;        // not addressable

enum Opc : uint16_t {
  O_NOP, O_MOV,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
  O_SELECT, O_ZEXT, O_SEXT, O_TRUN,
  O_GEP, O_GEPX, O_LOAD, O_STORE, O_ALLOCA, O_BYVAL,
  O_BR, O_CBR, O_SWITCH, O_CALL, O_CALLI, O_RET,
  O_UNREACHABLE, O_UNSUPPORTED, O_COV,
  O_UMIN, O_UMAX, O_SMIN, O_SMAX, O_USUBSAT, O_UADDSAT, O_CTLZ, O_CTTZ, O_CTPOP,
  O_BSWAP, O_FSHL, O_FSHR, O_ABS, O_BITREV,
  O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO,
  O_MEMCPY, O_MEMMOVE, O_MEMSET, O_STACKSAVE, O_STACKRESTORE, O_OBJSIZE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG, O_FCMP,
  O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC, O_FMULADD, O_FUN1,
  O_COUNT
};
struct Op { uint16_t opc; uint8_t w, w2; int32_t dst, a, b, c; int64_t imm; };
struct Edge { uint32_t target, mv, nmv; };
struct Move { int32_t dst, src; };
struct Case { uint64_t val; uint32_t edge; uint32_t pad; };
struct Const { uint64_t val; uint32_t undefw; uint32_t pad; };
struct Func { uint32_t name; uint32_t nparams; uint32_t nregs; uint32_t start; uint32_t nops; uint32_t nret; };
struct Glob { uint64_t addr, size, img; uint32_t name, flags; }; // flags 1: const, 2: external
struct Cov { uint32_t first, n; };          // list of source positions
struct Pos { uint32_t func, file, line; };  // string ids (offsets)
struct Section { uint64_t off, n; };
struct Header {
  uint64_t magic;
  Section ops, edges, moves, cases, consts, funcs, globs, image, args, strs, covs, poss, ctors;
};
static const uint64_t MAGIC = 0x58495232u;
}
