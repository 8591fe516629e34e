// Pre-decoded LLVM IR
#pragma once
#include "mem.h"
#include <llvm-c/Core.h>
#include <vector>
#include <string>
struct Op { s32 slot = -1; V c; };        // slot >= 0: register
enum OpC : u8 { O_BIN, O_ICMP, O_TRUNC, O_ZEXT, O_SEXT, O_MOVE, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_CALL, O_RET, O_BR, O_CBR, O_SWITCH, O_UNREACH,
  O_RMW, O_CMPXCHG, O_FENCE, O_FBIN, O_FCMP, O_FCAST, O_FNEG, O_BAD };
struct GepT { s32 slot; u64 scale; u8 w; };
struct Edge { s32 blk = -1; std::vector<std::pair<s32, Op>> moves; std::vector<u8> w; };
struct Func; 
struct Inst { OpC op = O_BAD; u8 w = 0, w2 = 0; u8 pred = 0; u8 kind = 0; bool atomic = false, vol = false; s32 dst = -1; u16 nelt = 1; u32 line = 0;
  std::vector<Op> a; std::vector<u8> aw; std::vector<GepT> g; u64 k = 0; std::vector<Edge> edges; std::vector<u64> cases; Func *callee = nullptr; int intr = 0; std::vector<u64> eo; std::string s; };
struct Block { std::vector<Inst> in; };
struct Func { std::string name; bool decl = true; bool vararg = false; u32 nslots = 0; std::vector<Block> blocks; std::vector<std::pair<s32, u16>> params; int intr = 0; u64 addr = 0; std::string file; bool executed = false; u64 count = 0; u16 retElts = 0; u8 retW = 0; LLVMValueRef v = nullptr; bool decoded = false; };
