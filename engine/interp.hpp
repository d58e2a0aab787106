#pragma once
#include "expr.hpp"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <atomic>

struct Val { u64 c = 0; const Ex* e = nullptr; };

struct SymB { const Ex* e; u32 idx; };
enum Kind : u8 { K_HEAP, K_STACK, K_GLOBAL, K_FUNC, K_EXC };
struct Obj {
    u64 base; u64 size; Kind kind; bool alive; bool ro; bool premain; u8* data; SymB* sym; u32 id; const void* site;
    ~Obj() { free(data); free(sym); }
};

struct FnInfo; struct Inst;
struct Edge { Inst* target = nullptr; std::vector<std::pair<int,int>> phis; };
struct CallAux {
    FnInfo* fn = nullptr; int callee = 0; std::vector<int> args; std::vector<u8> argw; std::vector<std::pair<int,u64>> byval; // operand index in args, size
    Edge* normal = nullptr; Edge* unwind = nullptr; int dst = -1; int nret = 0; std::vector<u8> retw; const llvm::CallBase* cb = nullptr;
};
struct GepAux { u64 off; std::vector<std::pair<int,u64>> idx; std::vector<u8> w; };
struct SwAux { std::vector<std::pair<u64, Edge*>> cases; Edge* def; };
struct LpAux { bool cleanup; std::vector<std::pair<bool, std::vector<u64>>> clauses; };
struct LsAux { std::vector<u8> w; std::vector<u32> off; std::vector<int> src; };

enum IOp : unsigned char {
    I_BIN, I_ICMP, I_FCMP, I_FBIN, I_SELECT, I_COPY, I_ZEXT, I_SEXT, I_TRUNC, I_FCAST, I_LOAD, I_STORE, I_LOADAGG, I_STOREAGG, I_ALLOCA, I_GEP,
    I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_LANDINGPAD, I_RESUME, I_UNREACHABLE, I_MULTICOPY, I_RMW, I_CMPXCHG, I_FNEG, I_DIV, I_UNSUPPORTED, I_NOP
};
struct Inst {
    IOp op; u8 sub; u8 w; u8 w2; int dst; int a, b, c; void* aux; Edge* e1; Edge* e2; const llvm::Instruction* li;
};
struct FnInfo {
    llvm::Function* f; u32 idx; bool decoded = false; int nregs = 0; std::vector<Inst> code; std::vector<Val> K; u64 addr = 0; int builtin = -1; bool isDecl; std::string name; int nargregs = 0; bool nounwind = false; std::vector<u8> retw;
};
