// Pre-decoded LLVM IR.
#pragma once
#include "expr.h"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>

struct Opnd {
    int32_t r = -1; // >=0 register slot (relative), -1 constant c, -2 constant pool at c
    uint64_t c = 0;
};
enum IOp : uint8_t {
    I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH,
    I_RET, I_CALL, I_COPY, I_EXTRACTV, I_INSERTV, I_SHUFFLE, I_LPAD, I_RESUME, I_UNREACH, I_CMPXCHG, I_RMW, I_NOP, I_UNSUP
};
struct DFunc;
struct Exec;
struct Edge { uint32_t pc; int32_t moves; }; // moves: index into DFunc::moveSets, -1 none
struct Move { int32_t dst; Opnd src; };
struct DInst {
    IOp op;
    uint8_t sub = 0;   // Op / predicate / cast opcode
    uint8_t w = 0, w2 = 0; // result width / operand width
    bool flag = false, invoke = false;
    uint16_t n = 1;    // number of leaves
    int32_t dst = -1;
    Opnd a, b, c;
    uint64_t imm = 0;
    std::vector<uint8_t> widths;   // leaf widths
    std::vector<uint32_t> offs;    // leaf offsets (load/store) / shuffle mask
    struct Idx { Opnd o; uint64_t scale; uint8_t w; };
    std::vector<Idx> idx;          // gep
    std::vector<Opnd> args; std::vector<uint8_t> argN; std::vector<uint8_t> argW;
    Edge t{0, -1}, f{0, -1};
    std::vector<std::pair<uint64_t, Edge>> cases;
    DFunc *callee = nullptr;
    int builtin = -1;
    std::vector<std::pair<int, const llvm::Constant *>> clauses; // landingpad: 0 catch 1 filter
    const llvm::Instruction *I = nullptr;
    const char *why = nullptr;
};
struct DFunc {
    llvm::Function *F = nullptr;
    uint32_t id = 0;
    bool decoded = false, inRepo = false, executed = false;
    uint32_t nregs = 0;
    int32_t retSlots = 0;
    std::vector<DInst> insts;
    std::vector<std::vector<Move>> moveSets;
    std::vector<uint8_t> covered;
    std::vector<uint32_t> lineOf;
    std::string name, file;
};
