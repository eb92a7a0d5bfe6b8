// Native side of the sym_* API: replays one counterexample / witness against the real build.
// argv[1] = entry, $SYM_REPLAY = file.  Exit: 0 finished, 10 assertion failed, 11 assumption not met
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include <exception>
#include <dlfcn.h>
static std::vector<uint64_t> choices; static size_t ci;
static std::map<uint64_t, uint64_t> vars; static std::map<uint64_t, uint64_t> ufelse;
static std::map<std::pair<uint64_t, std::vector<uint64_t>>, uint64_t> ufs;
static void done(int rc) { fflush(stdout); fflush(stderr); _Exit(rc); }
static uint64_t uf(uint64_t id, std::vector<uint64_t> a) {
    auto it = ufs.find({id, a});
    if (it != ufs.end()) return it->second;
    auto e = ufelse.find(id);
    return e == ufelse.end() ? 0 : e->second;
}
extern "C" {
uint64_t sym_select(uint64_t c, uint64_t a, uint64_t b) { return c & 1 ? a : b; }
uint64_t sym_bits(uint64_t id, int w) { auto it = vars.find(id << 7 | (uint64_t)w); return it == vars.end() ? 0 : it->second; }
uint64_t sym_choice(uint32_t n) { if (n <= 1) { ++ci; return 0; } if (ci >= choices.size()) { printf("REPLAY choices exhausted\n"); done(12); } return choices[ci++]; }
void sym_assume(bool c) { if (!c) { printf("REPLAY assume-failed\n"); done(11); } }
void sym_assert(bool c, const char *l) { if (!c) { printf("REPLAY FAILED %s\n", l); done(10); } }
void sym_fail(const char *l) { printf("REPLAY FAILED %s\n", l); done(10); abort(); }
void sym_reach(const char *l) { printf("REACH %s\n", l); }
void sym_note(const char *l, uint64_t v) { printf("NOTE %s = %llu\n", l, (unsigned long long)v); }
void sym_end() { printf("REPLAY END\n"); done(0); abort(); }
uint64_t sym_uf1(uint64_t id, uint64_t a) { return uf(id, {a}); }
uint64_t sym_uf2(uint64_t id, uint64_t a, uint64_t b) { return uf(id, {a, b}); }
uint64_t sym_uf3(uint64_t id, uint64_t a, uint64_t b, uint64_t c) { return uf(id, {a, b, c}); }
uint64_t sym_concrete(uint64_t v) { return v; }
uint64_t sym_is_symbolic(uint64_t) { return 0; }
}
int main(int argc, char **argv) {
    if (argc < 2) return 2;
    if (const char *p = getenv("SYM_REPLAY")) {
        std::ifstream f(p); std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l); std::string k; is >> k;
            if (k == "choices") { uint64_t v; while (is >> v) choices.push_back(v); }
            else if (k == "var") { uint64_t a, b; is >> a >> b; vars[a] = b; }
            else if (k == "uf") { uint64_t id, n, v; is >> id >> n; std::vector<uint64_t> a(n); for (auto &x : a) is >> x; is >> v; ufs[{id, a}] = v; }
            else if (k == "ufelse") { uint64_t id, v; is >> id >> v; ufelse[id] = v; }
        }
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("REPLAY no entry\n"); return 2; }
    try { fn(); } catch (std::exception &e) { printf("REPLAY UNCAUGHT std::exception\n"); done(13); } catch (...) { printf("REPLAY UNCAUGHT\n"); done(13); }
    printf("REPLAY END\n");
    done(0);
}
