// Flat bytecode produced from LLVM IR, and the memory arena.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include "expr.hpp"

namespace se {

enum BC : uint16_t {
    I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
    I_EQ, I_NE, I_ULT, I_ULE, I_UGT, I_UGE, I_SLT, I_SLE, I_SGT, I_SGE,
    I_ZEXT, I_SEXT, I_TRUNC, I_COPY,
    I_ADDI,            // d = a + imm
    I_MADD,            // d = a + sext(b,w2)*imm
    I_LOAD,            // d = [a+imm] w bits
    I_STORE,           // [b+imm] = a
    I_ALLOCA,          // d = alloca imm bytes (* b), align c
    I_SELECT,          // d = a ? b : c  (w2: 1 if pointer)
    I_BR, I_CBR,       // edge a / cond a edges b,c
    I_SWITCH,          // cond a; imm -> switch table
    I_CALL, I_RET, I_UNREACH, I_RESUME, I_LPAD,
    I_MEMCPY, I_MEMMOVE, I_MEMSET, // a=dst b=src/val c=len
    I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSHL, I_FSHR,
    I_USUBSAT, I_UADDSAT, I_SSUBSAT, I_SADDSAT,
    I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, // d=result d+1=flag
    I_TYPEID,
    I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG, I_FABS, I_FSQRT, I_FMINN, I_FMAXN,
    I_FCMP,            // imm = predicate, w2 = fw
    I_FTOSI, I_FTOUI, I_SITOF, I_UITOF, I_FTOF,
    I_FMULADD, I_FFLOOR, I_FCEIL, I_FTRUNC, I_FROUND, I_FCOPYSIGN,
    I_STACKSAVE, I_NOP, I_UNSUP, I_TRAP,
    I_FREEZE
};

struct Inst { uint16_t op; uint8_t w, w2; int32_t d, a, b, c; uint64_t imm; };
struct Edge { int32_t pc; int32_t cs, cn; int32_t blk; bool tmp; };
struct SwitchT { std::vector<std::pair<uint64_t, int>> cases; int def; int w; };
struct CallInfo {
    int callee = -1; int fp = 0; bool indirect = false;
    std::vector<int> args; std::vector<uint32_t> byval; // byval size per llvm arg slot (0 none)
    int dst = -1, nret = 0; int retw = 64; std::vector<uint8_t> argw;
    int normal = -1, unwind = -1;
};
struct LPad { bool cleanup; std::vector<uint64_t> types; std::vector<bool> filter; };

struct Func {
    std::string name, pretty; int nslots = 0, nargs = 0; int entry = -1; bool defined = false; int builtin = -1;
    std::vector<uint8_t> argw; int entryBlk = -1;
    uint64_t addr = 0;
};

struct Blk { int fn; std::vector<uint32_t> lines; }; // lines: index into 'lineTab'

struct Obj { uint64_t base, size; uint8_t alive, kind; };
enum { K_GLOBAL, K_CONST, K_HEAP, K_STACK, K_FUNC, K_EXTERN };

struct Arena {
    uint8_t *base = nullptr; uint64_t cap = 0; uint64_t bump = 0;
    uint32_t *gran = nullptr; uint8_t *init = nullptr, *sym = nullptr; uint64_t *shadow = nullptr;
    std::vector<Obj> objs; // index 0 unused
    uint64_t snapBump = 0; size_t snapObjs = 0; std::vector<uint8_t> snapMem, snapInit;
    uint64_t highwater = 0;
    void setup(uint64_t cap);
    uint64_t alloc(uint64_t size, int kind, uint64_t align = 16);
    void snapshot();
    void reset();
    inline Obj *find(uint64_t a) {
        uint64_t off = a - (uint64_t)base;
        if (off >= bump) return nullptr;
        uint32_t id = gran[off >> 4];
        return id ? &objs[id] : nullptr;
    }
    inline bool allInit(uint64_t off, unsigned n) const {
        uint64_t bits = *(const uint16_t *)(init + (off >> 3)) >> (off & 7);
        uint64_t m = (1u << n) - 1;
        return (bits & m) == m;
    }
    inline bool anySym(uint64_t off, unsigned n) const {
        uint64_t bits = *(const uint16_t *)(sym + (off >> 3)) >> (off & 7);
        return (bits & ((1u << n) - 1)) != 0;
    }
    inline void setBits(uint8_t *bm, uint64_t off, unsigned n) { *(uint16_t *)(bm + (off >> 3)) |= (uint16_t)(((1u << n) - 1) << (off & 7)); }
    inline void clrBits(uint8_t *bm, uint64_t off, unsigned n) { *(uint16_t *)(bm + (off >> 3)) &= ~(uint16_t)(((1u << n) - 1) << (off & 7)); }
};

struct Program {
    std::vector<Inst> code; std::vector<uint32_t> line; // parallel: line table idx
    std::vector<Edge> edges; std::vector<std::pair<int, int>> copies;
    std::vector<SwitchT> switches; std::vector<CallInfo> calls; std::vector<LPad> lpads;
    std::vector<Func> funcs; std::vector<uint64_t> cpool; std::vector<uint8_t> cpoolUndef;
    std::vector<Blk> blks; std::vector<std::string> lineTab; std::vector<std::string> msgs;
    std::unordered_map<uint64_t, int> funcByAddr; std::unordered_map<std::string, int> funcByName;
    std::unordered_map<uint64_t, std::string> globalName; std::unordered_map<std::string, uint64_t> globalAddr;
    std::unordered_map<uint64_t, uint8_t> globalDefined;
    std::vector<int> ctors;
    Arena mem;
};

bool loadProgram(const std::vector<std::string> &files, Program &P, std::string &err);
int builtinId(const std::string &name);
} // namespace se
