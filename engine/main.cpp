// Driver: loads bitcode, explores every path of the entry functions in parallel worker processes.
#include "interp.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cxxabi.h>
using namespace se;

static const int MAXD = 3000, NSLOT = 96, MAXE = 64;
struct Job { int entry, n, fixed; Dec d[MAXD]; };
struct EntryStat { uint64_t paths, ok, assumed, viol, unsup, limit, unknown, insts, aborted; };
struct Shared {
    pthread_mutex_t mu; volatile int idle, stop, nq, timedOut; volatile uint64_t viols;
    int active[64]; // entry a worker is on, -1 idle
    EntryStat es[MAXE];
    Job q[NSLOT];
};
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
struct Lock { pthread_mutex_t *m; Lock(pthread_mutex_t *m) : m(m) { pthread_mutex_lock(m); } ~Lock() { pthread_mutex_unlock(m); } };

int main(int argc, char **argv) {
    std::vector<std::string> files, entries, known; std::string out = "/dev/stdout";
    double limit = 60; int jobs = 8; uint64_t maxInsts = 30000000; unsigned st = 10000; int stopAfter = 4; bool fpExact = false, split = false, limviol = true, nosat = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-e") entries.push_back(argv[++i]);
        else if (a == "-o") out = argv[++i];
        else if (a == "-t") limit = atof(argv[++i]);
        else if (a == "-j") jobs = atoi(argv[++i]);
        else if (a == "-m") maxInsts = strtoull(argv[++i], 0, 10);
        else if (a == "-s") st = atoi(argv[++i]);
        else if (a == "--stop") stopAfter = atoi(argv[++i]);
        else if (a == "--known") known.push_back(argv[++i]);
        else if (a == "--fp") fpExact = true;
        else if (a == "--split") split = true;
        else if (a == "--limit-ok") limviol = false;
        else files.push_back(a);
    }
    (void)nosat;
    double t0 = now();
    Program P; std::string err;
    if (!loadProgram(files, P, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 3; }
    std::vector<int> fns;
    for (auto &e : entries) {
        auto it = P.funcByName.find(e);
        if (it == P.funcByName.end() || P.funcs[it->second].entry < 0) { fprintf(stderr, "no entry %s\n", e.c_str()); return 3; }
        fns.push_back(it->second);
    }
    if (entries.empty()) {
        std::vector<std::pair<std::string, int>> es;
        for (auto &f : P.funcByName) if (f.first.rfind("chk_", 0) == 0 && P.funcs[f.second].entry >= 0) es.push_back(f);
        std::sort(es.begin(), es.end());
        for (auto &x : es) { entries.push_back(x.first); fns.push_back(x.second); }
    }
    if (fns.empty() || fns.size() > (size_t)MAXE) { fprintf(stderr, "bad number of entries\n"); return 3; }
    double tload = now() - t0;
    auto *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *hit = (uint8_t *)mmap(nullptr, P.blks.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&sh->mu, &at);
    for (size_t i = 0; i < fns.size(); ++i) { Job &j = sh->q[sh->nq++]; j.entry = (int)(fns.size() - 1 - i); j.n = 0; j.fixed = 0; }
    for (int i = 0; i < 64; ++i) sh->active[i] = -1;
    std::vector<pid_t> pids; std::vector<std::string> tmp;
    for (int w = 0; w < jobs; ++w) {
        tmp.push_back(out + ".w" + std::to_string(w));
        if (out == "/dev/stdout") tmp.back() = "/tmp/symex." + std::to_string(getpid()) + ".w" + std::to_string(w);
        pid_t pid = fork();
        if (pid) { pids.push_back(pid); continue; }
        C = new Ctx(); C->fp_exact = fpExact;
        Interp I(P); I.blkHit = hit; I.maxInsts = maxInsts; I.solverTimeout = st; I.limitIsViol = limviol; I.splitSelects = split;
        I.boot();
        FILE *f = fopen(tmp[w].c_str(), "w");
        bool isIdle = false; int samples = 0; uint64_t np = 0, nextSample = 1; std::map<std::string, int> perLabel;
        auto *job = new Job;
        for (;;) {
            bool got = false;
            {
                Lock l(&sh->mu);
                if (sh->stop) break;
                if (sh->nq) { Job &q = sh->q[--sh->nq]; memcpy(job, &q, offsetof(Job, d) + sizeof(Dec) * q.n); got = true; if (isIdle) { isIdle = false; --sh->idle; } sh->active[w] = job->entry; }
                else { if (!isIdle) { isIdle = true; ++sh->idle; } sh->active[w] = -1; if (sh->idle >= jobs) { sh->stop = 1; break; } }
            }
            if (!got) { usleep(500); continue; }
            I.decs.assign(job->d, job->d + job->n); I.fixedLen = job->fixed;
            int e = job->entry;
            for (;;) {
                Stats b = I.st;
                int r = I.runPath(fns[e]);
                ++np;
                EntryStat &S = sh->es[e];
                __sync_fetch_and_add(&S.paths, 1); __sync_fetch_and_add(&S.insts, I.st.insts - b.insts);
                __sync_fetch_and_add(&S.assumed, I.st.assumed - b.assumed);
                if (r == PE_OK) __sync_fetch_and_add(&S.ok, 1);
                else if (r == PE_VIOL) __sync_fetch_and_add(&S.viol, 1);
                else if (r == PE_UNSUP) __sync_fetch_and_add(&S.unsup, 1);
                else if (r == PE_LIMIT) __sync_fetch_and_add(&S.limit, 1);
                else __sync_fetch_and_add(&S.unknown, 1);
                if (I.cutPath()) __sync_fetch_and_add(&S.unknown, 1);
                for (auto &v : I.viols) {
                    if (perLabel[entries[e] + v.label]++ >= 3) continue;
                    bool kn = false; for (auto &k : known) if (v.label == k || (!k.empty() && k.back() == '*' && v.label.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0)) kn = true;
                    fprintf(f, "V {\"entry\":\"%s\",\"kind\":\"%s\",\"label\":\"%s\",\"where\":\"%s\",\"replay\":\"%s\"}\n", entries[e].c_str(), esc(v.kind).c_str(), esc(v.label).c_str(), esc(v.where).c_str(), esc(v.replay).c_str());
                    fflush(f);
                    if (!kn && __sync_add_and_fetch(&sh->viols, 1) >= (uint64_t)stopAfter) sh->stop = 1;
                }
                if (r == PE_OK && I.st.assumed == b.assumed && np >= nextSample && samples < 12) {
                    std::string t = I.sample();
                    if (!t.empty()) {
                        std::string rs; for (auto &x : I.pathReach) rs += (rs.empty() ? "" : "|") + x;
                        fprintf(f, "S {\"entry\":\"%s\",\"reach\":\"%s\",\"replay\":\"%s\"}\n", entries[e].c_str(), esc(rs).c_str(), esc(t).c_str());
                        ++samples; nextSample = np + 1 + np * 2;
                    }
                }
                if (now() - t0 > limit) { Lock l(&sh->mu); sh->stop = 1; sh->timedOut = 1; }
                if (sh->stop) break;
                if (!I.backtrack()) break;
                if (sh->idle > sh->nq) {
                    std::vector<Dec> o;
                    if (I.donate(o)) {
                        Lock l(&sh->mu);
                        if ((int)o.size() <= MAXD && sh->nq < NSLOT) {
                            Job &q = sh->q[sh->nq++]; q.entry = e; q.n = (int)o.size(); q.fixed = (int)o.size() - 1; memcpy(q.d, o.data(), sizeof(Dec) * o.size());
                        } else __sync_fetch_and_add(&S.aborted, 1);
                    }
                }
            }
            if (sh->stop) __sync_fetch_and_add(&sh->es[e].aborted, 1);
        }
        for (auto &r : I.reach) fprintf(f, "R %llu %s\n", (unsigned long long)r.second, r.first.c_str());
        for (auto &r : I.unsupMsgs) { std::string m = r.first; std::replace(m.begin(), m.end(), '\n', ' '); fprintf(f, "U %llu %s\n", (unsigned long long)r.second, m.c_str()); }
        auto &s = I.st;
        fprintf(f, "T %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %f %zu\n", (unsigned long long)s.insts, (unsigned long long)s.forks, (unsigned long long)s.decisions, (unsigned long long)s.asserts, (unsigned long long)s.assertsTrivial, (unsigned long long)C->nqueries, (unsigned long long)C->nsat, (unsigned long long)C->nunsat, (unsigned long long)C->nunknown, (unsigned long long)s.cacheHits, C->zsecs, C->nexprs());
        fprintf(f, "END\n");
        fclose(f);
        _exit(0);
    }
    int crashed = 0; double hard = limit + 60; size_t left = pids.size();
    while (left) {
        int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
        if (p > 0) { --left; if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { ++crashed; sh->stop = 1; } continue; }
        if (now() - t0 > hard) { for (pid_t q : pids) kill(q, SIGKILL); hard = 1e18; }
        usleep(2000);
    }
    // merge
    std::map<std::string, uint64_t> reach, unsup; std::vector<std::string> V, S; unsigned long long T[10] = {0}; double z = 0; int ends = 0; size_t ne = 0;
    for (auto &t : tmp) {
        std::ifstream in(t); std::string l;
        while (std::getline(in, l)) {
            if (l[0] == 'V') V.push_back(l.substr(2));
            else if (l[0] == 'S') S.push_back(l.substr(2));
            else if (l[0] == 'R' || l[0] == 'U') { size_t p = l.find(' ', 2); (l[0] == 'R' ? reach : unsup)[l.substr(p + 1)] += strtoull(l.c_str() + 2, 0, 10); }
            else if (l[0] == 'T') { std::istringstream is(l.substr(2)); unsigned long long x; for (int i = 0; i < 10; ++i) { is >> x; T[i] += x; } double d; is >> d; z += d; size_t n; is >> n; ne += n; }
            else if (l == "END") ++ends;
        }
        unlink(t.c_str());
    }
    std::ofstream o(out);
    bool complete = !crashed && ends == jobs && !sh->timedOut && sh->nq == 0;
    std::map<int, int> pend; for (int i = 0; i < sh->nq; ++i) ++pend[sh->q[i].entry];
    o << "{\"load_s\":" << tload << ",\"wall_s\":" << now() - t0 << ",\"timed_out\":" << (sh->timedOut ? "true" : "false") << ",\"crashed\":" << crashed << ",\"complete\":";
    for (size_t e = 0; e < fns.size(); ++e) if (sh->es[e].aborted || pend[(int)e]) complete = false;
    o << (complete ? "true" : "false") << ",\n\"entries\":[";
    for (size_t e = 0; e < fns.size(); ++e) {
        auto &s = sh->es[e];
        o << (e ? ",\n" : "\n") << " {\"name\":\"" << entries[e] << "\",\"complete\":" << (!crashed && !s.aborted && !pend[(int)e] && s.paths ? "true" : "false") << ",\"paths\":" << s.paths << ",\"ok\":" << s.ok << ",\"assumed\":" << s.assumed << ",\"viol\":" << s.viol << ",\"unsup\":" << s.unsup << ",\"limit\":" << s.limit << ",\"unknown\":" << s.unknown << ",\"insts\":" << s.insts << "}";
    }
    static const char *tn[] = {"insts", "forks", "decisions", "asserts", "asserts_trivial", "queries", "sat", "unsat", "qunknown", "cache_hits"};
    o << "],\n\"stats\":{";
    for (int i = 0; i < 10; ++i) o << "\"" << tn[i] << "\":" << T[i] << ",";
    o << "\"solver_s\":" << z << ",\"terms\":" << ne << "},\n\"reach\":{";
    bool first = true; for (auto &r : reach) { o << (first ? "" : ",") << "\"" << esc(r.first) << "\":" << r.second; first = false; }
    o << "},\n\"unsup\":{";
    first = true; for (auto &r : unsup) { o << (first ? "" : ",") << "\"" << esc(r.first) << "\":" << r.second; first = false; }
    o << "},\n\"violations\":["; for (size_t i = 0; i < V.size(); ++i) o << (i ? ",\n" : "\n") << V[i];
    o << "],\n\"samples\":["; for (size_t i = 0; i < S.size(); ++i) o << (i ? ",\n" : "\n") << S[i];
    // functions and lines
    std::set<std::string> fnset, lineset;
    for (size_t b = 0; b < P.blks.size(); ++b) if (hit[b]) {
        fnset.insert(P.funcs[P.blks[b].fn].pretty);
        for (uint32_t l : P.blks[b].lines) lineset.insert(P.lineTab[l]);
    }
    o << "],\n\"functions\":["; first = true; for (auto &s : fnset) { o << (first ? "" : ",\n") << "\"" << esc(s) << "\""; first = false; }
    o << "],\n\"lines\":["; first = true; for (auto &s : lineset) { o << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
    o << "]}\n";
    return crashed ? 4 : 0;
}
