// Hash-consed bit-vector expressions with simplification, evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef int32_t s32; typedef uint16_t u16; typedef uint8_t u8;

enum Kind : u8 { K_CONST, K_VAR, K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE };

typedef std::vector<u32> VarSet;

struct Expr {
  Kind k; u8 w; u8 lo; u8 cleaf;   // cleaf: number of constant leaves if the node is an ite tree of constants (0 otherwise, saturates)
  u32 id; u64 hash;
  const Expr *a, *b, *c;
  u128 val;            // constant value, or var index
  u128 kz, ko;         // known zero / known one bits
  u128 umin, umax;
  const VarSet *vars;  // interned support
  mutable void *ast;   // Z3_ast
  mutable u32 epoch; mutable u128 ev; // evaluation cache
  bool isConst() const { return k == K_CONST; }
};
typedef const Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) { if(w >= 128) return (s128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ m) - m); }

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w);
const std::string &varName(u32 idx); unsigned varWidth(u32 idx); size_t varCount(); E varExpr(u32 idx);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b);
E mkUDiv(E a, E b); E mkSDiv(E a, E b); E mkURem(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E a, unsigned lo, unsigned w); E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w);
E mkTruncOrZ(E a, unsigned w);
E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkIte(E c, E a, E b);
static inline E mkBool(bool b) { return mkConst(b, 1); }
u128 foldBin(Kind k, unsigned w, u128 x, u128 y); // concrete semantics

typedef std::unordered_map<u32, u128> ModelMap;
u128 evalExpr(E e, const ModelMap &m);  // unassigned variables are 0
void evalBegin();                       // start a new evaluation epoch
u128 evalCached(E e, const ModelMap &m);// within current epoch
size_t exprCount();
std::string showExpr(E e, int depth = 6);

// Solver
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; u64 resets = 0; u64 trivial = 0; };
extern SolverStats gSolver;
extern unsigned gQueryTimeoutMs;
Res solverCheck(const std::vector<E> &cs, ModelMap *modelOut); // conjunction
