// Symbolic-execution API.  Under the symbolic executor these are interpreted; natively
// (replay.cpp) they read the counterexample file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_bits(uint64_t id, int width);        // symbolic value number id (zero-extended)
uint64_t sym_choice(uint32_t n);                  // nondeterministic choice 0..n-1 (one path each)
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_reach(const char *label);
void sym_fail(const char *label) __attribute__((noreturn));
void sym_note(const char *label, uint64_t v);
void sym_end() __attribute__((noreturn));
uint64_t sym_uf1(uint64_t id, uint64_t a);
uint64_t sym_uf2(uint64_t id, uint64_t a, uint64_t b);
uint64_t sym_uf3(uint64_t id, uint64_t a, uint64_t b, uint64_t c);
uint64_t sym_concrete(uint64_t v);
uint64_t sym_select(uint64_t c, uint64_t a, uint64_t b);   // bit 0 of c ? a : b, without forking
uint64_t sym_is_symbolic(uint64_t v);
}
