#pragma once
#include "decode.h"
#include "mem.h"
#include "solver.h"
#include <set>
#include <unordered_map>
#include <unordered_set>

struct Val { uint64_t c; E e; };
static inline Val cv(uint64_t c) { return {c, nullptr}; }
static inline Val ev(E e) { return e->op == CONST ? Val{e->c, nullptr} : Val{0, e}; }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }

struct Frame {
    DFunc *f;
    uint32_t pc, regBase, stackMark;
    const DInst *call; // in the caller
};
struct Input { std::string name; Val v; unsigned w; };
struct Obs { std::string name; Val v; };
struct State {
    std::vector<Frame> fr;
    std::vector<Val> regs;
    ObjTable glob, heap, stk;
    std::vector<E> cons;
    Model model;
    std::vector<Input> inputs;
    std::unordered_map<std::string, int> nameCount;
    std::vector<Obs> obs;
    std::vector<std::string> decisions;
    uint64_t steps = 0, liveHeap = 0, liveMaps = 0, nfork = 0;
    bool undefDep = false;
    int undefCount = 0;
};

struct Options {
    std::string bc, entry, out, repo;
    int jobs = 1;
    double timeLimit = 600;
    uint64_t maxSteps = 400000000;
    int maxViol = 12, sample = 6;
    bool verbose = false;
    uint64_t seed = 1;
};
