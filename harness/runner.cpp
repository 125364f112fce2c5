// Runs the cases of one property: forks a fresh process per chunk of cases (the library's state is static),
// collects counters and distinct case digests in shared memory, records violations with a replayable log.
#include "vh.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <map>
#include <set>
#include <fcntl.h>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#else
#define RUNNING_ON_VALGRIND 0
#define VALGRIND_COUNT_ERRORS 0
#endif

static const unsigned DIG_BITS = 26;
struct Shared {
    volatile int lock;
    int ncnt;
    struct { char name[48]; uint64_t v; } cnt[256];
    uint64_t evals, nontrivial, excluded; char exkey[128], exmsg[1500]; int exmode; uint64_t exidx, exfrom;
    uint8_t bitmap[1u << (DIG_BITS - 3)];
    struct Slot { uint64_t cur; char key[128]; char where[64]; char msg[1500]; int failed; char sample[4][3000]; int nsample; } slot[64];
};
extern FILE *g_logf;
static Shared *S;
static Shared::Slot *MY;

// names the place a crash would happen at: recorded findings are identified by it
void crash_where(const char *w) { snprintf(MY->where, sizeof MY->where, "%s", w); }
static void lk() { while (__sync_lock_test_and_set(&S->lock, 1)) usleep(10); }
static void ulk() { __sync_lock_release(&S->lock); }
int cnt_id(const char *name) {
    lk();
    int i;
    for (i = 0; i < S->ncnt; i++) if (!strncmp(S->cnt[i].name, name, sizeof S->cnt[i].name - 1)) break;
    if (i == S->ncnt && S->ncnt < 255) { snprintf(S->cnt[i].name, sizeof S->cnt[i].name, "%s", name); S->ncnt++; }
    ulk();
    return i;
}
static uint64_t local_cnt[256];
void cnt_add(int id, uint64_t n) { local_cnt[id] += n; }
static void flush_cnt() {
    for (int i = 0; i < 256; i++) if (local_cnt[i]) { __sync_fetch_and_add(&S->cnt[i].v, local_cnt[i]); local_cnt[i] = 0; }
}
static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }

// CPU-time watchdog: a case that burns more than HANG_S seconds of CPU time is reported as a hang
static int HANG_S = 8;
static volatile uint64_t wd_seen = ~0ull; static volatile int wd_same = 0;
static void on_prof(int) {
    if (!C.in_case) { wd_same = 0; return; }
    if (wd_seen == MY->cur) { if (++wd_same >= HANG_S) _exit(12); }
    else { wd_seen = MY->cur; wd_same = 0; }
}

static void run_cases(const Prop &p, const Mode &m, uint64_t seed, uint64_t from, uint64_t to, bool logcase, uint64_t logidx, unsigned nsamples) {
    uint64_t h = hash_str(p.id) ^ (hash_str(m.name) * 31);
    uint64_t evals = 0, nt = 0;
    const bool memcheck = RUNNING_ON_VALGRIND; // the vg build
    if (memcheck) HANG_S = 200;
    unsigned errs = VALGRIND_COUNT_ERRORS;
    for (uint64_t i = from; i < to; i++) {
        MY->cur = i;
        Rng r; r.s = seed * 0xD1342543DE82EF95ull + h; r.next(); r.s ^= i * 0x9E3779B97F4A7C15ull; r.next();
        C.rng = r; C.seed = seed; C.index = i;
        C.logging = (logcase && i == logidx) || (i - from < nsamples && MY->nsample < 4);
        C.log.clear(); C.digest = h; C.nontrivial = false; C.failed = C.excluded = false;
        C.in_case = true;
        m.fn();
        C.in_case = false;
        evals++;
        if (memcheck) {
            COUNT("cases observed by memcheck", 1);
            if (VALGRIND_COUNT_ERRORS != errs && (!C.failed || C.excluded)) { C.failed = true; C.excluded = false; C.key = "memcheck"; C.msg = "memcheck reports the use of an undefined value or of invalid memory (its report is shown when the case is reproduced under valgrind)"; }
            errs = VALGRIND_COUNT_ERRORS;
        }
        if (C.nontrivial) {
            nt++;
            uint64_t d = C.digest * 0x9E3779B97F4A7C15ull; d >>= 64 - DIG_BITS;
            __sync_fetch_and_or(&S->bitmap[d >> 3], (uint8_t)(1 << (d & 7)));
        }
        if (C.logging && i - from < nsamples && MY->nsample < 4) {
            snprintf(MY->sample[MY->nsample++], sizeof MY->sample[0], "mode %s case %llu:\n%s", m.name, (unsigned long long)i, C.log.c_str());
        }
        if (C.failed && C.excluded) {
            COUNT("cases ended by deviations outside this property", 1);
            if (__sync_fetch_and_add(&S->excluded, 1) == 0) { snprintf(S->exkey, sizeof S->exkey, "%s", C.key.c_str()); snprintf(S->exmsg, sizeof S->exmsg, "%s", C.msg.c_str()); S->exmode = &m - &p.modes[0]; S->exidx = i; S->exfrom = from; }
        } else if (C.failed) {
            snprintf(MY->key, sizeof MY->key, "%s", C.key.c_str());
            snprintf(MY->msg, sizeof MY->msg, "%s", C.msg.c_str());
            MY->failed = 1;
            break;
        }
    }
    __sync_fetch_and_add(&S->evals, evals);
    __sync_fetch_and_add(&S->nontrivial, nt);
    flush_cnt();
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

struct Job { int mode; uint64_t from, to; };
struct Viol { std::string key, msg, replay; int mode; uint64_t idx; };

static const char *errdir; // stderr of children (sanitizer reports)
static pid_t spawn(const Prop &p, int slot, const Job &j, uint64_t seed, bool logcase, uint64_t logidx, const char *logfile, unsigned nsamples) {
    Shared::Slot &sl = S->slot[slot];
    memset(&sl, 0, sizeof sl);
    fflush(NULL);
    pid_t pid = fork();
    if (pid) return pid;
    MY = &sl;
    char ef[600]; snprintf(ef, sizeof ef, "%s/slot%d.err", errdir, slot);
    int fd = open(ef, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    signal(SIGPROF, on_prof);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, 0);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (logfile) { g_logf = fopen(logfile, "a"); if (!g_logf) _exit(3); }
    run_cases(p, p.modes[j.mode], seed, j.from, j.to, logcase, logidx, nsamples);
    if (g_logf) fclose(g_logf);
    _exit(sl.failed ? 10 : 0);
}
static std::string slurp(const char *fn, size_t max) {
    std::string s; FILE *f = fopen(fn, "r"); if (!f) return s;
    char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < max) s.append(b, n);
    fclose(f); return s;
}
static std::string first_report_line(const std::string &e) {
    static const char *pat[] = {"runtime error:", "ERROR: AddressSanitizer:", "ERROR: "};
    for (auto q : pat) {
        size_t k = e.find(q);
        if (k != std::string::npos) {
            size_t b = e.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1;
            size_t n = e.find('\n', k);
            return e.substr(b, (n == std::string::npos ? e.size() : n) - b);
        }
    }
    return "";
}
// the kind of a sanitizer report, without addresses and line numbers
static std::string report_key(const std::string &e) {
    size_t k = e.find("AddressSanitizer:");
    if (k != std::string::npos) {
        k += 17; while (k < e.size() && e[k] == ' ') k++;
        size_t n = e.find_first_of(" \n", k);
        return "asan-" + e.substr(k, n - k);
    }
    k = e.find("runtime error:");
    if (k != std::string::npos) {
        k += 14; while (k < e.size() && e[k] == ' ') k++;
        std::string w = e.substr(k, 24), r;
        for (char c : w) { if (c == '\n') break; r += (isalnum((unsigned char)c) ? c : '-'); }
        return "ubsan-" + r;
    }
    return "";
}

int main(int argc, char **argv) {
    const char *prop = 0, *tier = "quick", *out = 0, *rdir = "."; const char *only = 0; const char *known = 0, *tag = "";
    uint64_t seed = 1; int jobs = 8; double scale = 1; long long logcase = -1, fromc = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
        if (a == "--prop") prop = v(); else if (a == "--tier") tier = v(); else if (a == "--out") out = v();
        else if (a == "--seed") seed = strtoull(v(), 0, 10); else if (a == "--jobs") jobs = atoi(v());
        else if (a == "--replay-dir") rdir = v(); else if (a == "--mode") only = v();
        else if (a == "--case") logcase = atoll(v()); else if (a == "--from") fromc = atoll(v());
        else if (a == "--scale") scale = atof(v()); else if (a == "--known") known = v(); else if (a == "--tag") tag = v();
        else if (a == "--list") { for (auto &p : props()) { printf("%s", p.id); for (auto &m : p.modes) printf(" %s:%llu/%llu", m.name, (unsigned long long)m.quick, (unsigned long long)m.thorough); printf("\n"); } return 0; }
        else { fprintf(stderr, "unknown argument %s\n", argv[i]); return 2; }
    }
    const Prop *P = 0;
    for (auto &p : props()) if (prop && !strcmp(p.id, prop)) P = &p;
    if (!P) { fprintf(stderr, "no such property\n"); return 2; }
    DM.role = MASTER; DS.role = SLAVE;
    scope_set(P->id);
    S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) return 2;
    C.thorough = !strcmp(tier, "thorough");
    std::set<std::string> knownkeys;
    if (known) { std::string k = known; size_t b = 0; while (b < k.size()) { size_t e = k.find(',', b); if (e == std::string::npos) e = k.size(); knownkeys.insert(k.substr(b, e - b)); b = e + 1; } }
    char ed[] = "/tmp/vhXXXXXX";
    errdir = mkdtemp(ed);
    if (!errdir) return 2;
    auto cleanup = [&]() { for (int i = 0; i < 64; i++) { char f[600]; snprintf(f, sizeof f, "%s/slot%d.err", errdir, i); unlink(f); } rmdir(errdir); };

    if (logcase >= 0) { // replay one case: runs from --from up to it, prints its log
        int mi = -1; for (size_t i = 0; i < P->modes.size(); i++) if (only && !strcmp(P->modes[i].name, only)) mi = i;
        if (mi < 0) { cleanup(); return 2; }
        uint64_t f = fromc >= 0 ? fromc : logcase / P->modes[mi].chunk * P->modes[mi].chunk;
        Job j = {mi, f, (uint64_t)logcase + 1};
        pid_t pid = spawn(*P, 0, j, seed, true, logcase, "/dev/stdout", 0);
        int st; waitpid(pid, &st, 0);
        printf("exit status %d key %s: %s\n", st, S->slot[0].key, S->slot[0].msg);
        char f2[600]; snprintf(f2, sizeof f2, "%s/slot0.err", errdir);
        printf("%s", slurp(f2, 20000).c_str());
        cleanup();
        return S->slot[0].failed || st ? 1 : 0;
    }

    std::deque<Job> todo;
    for (size_t mi = 0; mi < P->modes.size(); mi++) {
        const Mode &m = P->modes[mi];
        if (only && !strstr((std::string(",") + only + ",").c_str(), (std::string(",") + m.name + ",").c_str())) continue;
        uint64_t n = (uint64_t)((C.thorough ? m.thorough : m.quick) * scale);
        if (n == 0 && (C.thorough ? m.thorough : m.quick)) n = 1;
        for (uint64_t f = 0; f < n; f += m.chunk) todo.push_back({(int)mi, f, std::min<uint64_t>(f + m.chunk, n)});
    }
    // spread modes over time so that samples and early violations come from all of them
    struct Run { pid_t pid; Job j; bool confirm; };
    std::map<pid_t, std::pair<int, Run>> running;
    std::vector<int> freeslots; for (int i = jobs - 1; i >= 0; i--) freeslots.push_back(i);
    std::vector<Viol> viols; std::vector<std::string> samples; std::map<std::string, uint64_t> knowncount; std::map<std::string, Viol> knownv;
    std::set<std::string> keys; std::set<int> sampled; bool stop = false; int harness_err = 0;
    std::set<std::pair<int, uint64_t>> retried;
    auto report = [&](const Viol &v0, const Job &j, int s, const std::string &err, bool rerun) {
        Viol v = v0;
        char rf[800]; snprintf(rf, sizeof rf, "%s/%s%s-%s-%llu.txt", rdir, P->id, tag, P->modes[j.mode].name, (unsigned long long)v.idx);
        FILE *f = fopen(rf, "w");
        if (f) {
            fprintf(f, "property %s\nviolation %s: %s\nreproduce: %s%s --prop %s --tier %s --seed %llu --mode %s --from %llu --case %llu\n", P->id, v.key.c_str(), v.msg.c_str(), RUNNING_ON_VALGRIND ? "valgrind --child-silent-after-fork=no " : "", argv[0], P->id, tier,
                    (unsigned long long)seed, P->modes[j.mode].name, (unsigned long long)j.from, (unsigned long long)v.idx);
            if (!err.empty()) fprintf(f, "--- stderr of the run\n%s\n", err.c_str());
            fprintf(f, "--- event log of the case\n");
            fclose(f);
        }
        Job lj = {j.mode, j.from, v.idx + 1};
        if (rerun) { // rerun with the log (not for hangs)
            pid_t lp = spawn(*P, s, lj, seed, true, v.idx, rf, 0);
            int s2; while (waitpid(lp, &s2, 0) < 0 && errno == EINTR) {}
        }
        v.replay = rf;
        viols.push_back(v);
    };
    while ((!todo.empty() && !stop) || !running.empty()) {
        while (!todo.empty() && !stop && !freeslots.empty()) {
            Job j = todo.front(); todo.pop_front();
            int s = freeslots.back(); freeslots.pop_back();
            unsigned ns = (j.from == 0 && !sampled.count(j.mode)) ? 2 : 0;
            if (ns) sampled.insert(j.mode);
            pid_t pid = spawn(*P, s, j, seed, false, 0, 0, ns);
            if (pid < 0) { harness_err = 1; stop = true; break; }
            running[pid] = {s, {pid, j, false}};
        }
        int st; pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) { if (errno == EINTR) continue; break; }
        auto it = running.find(pid); if (it == running.end()) continue;
        int s = it->second.first; Job j = it->second.second.j; running.erase(it);
        Shared::Slot &sl = S->slot[s];
        for (int k = 0; k < sl.nsample; k++) samples.push_back(sl.sample[k]);
        std::string key, msg; uint64_t idx = sl.cur;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { freeslots.push_back(s); continue; }
        char ef[600]; snprintf(ef, sizeof ef, "%s/slot%d.err", errdir, s);
        std::string err = slurp(ef, 60000), rl = first_report_line(err), rk = report_key(err);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { key = sl.key; msg = sl.msg; }
        else {
            bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
            bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 12;
            if (killed || (hang && !retried.count({j.mode, j.from}))) { // memory pressure or a hang: run once more before believing it
                if (retried.count({j.mode, j.from})) { harness_err = 1; fprintf(stderr, "worker killed twice\n"); freeslots.push_back(s); continue; }
                retried.insert({j.mode, j.from}); todo.push_front(j); freeslots.push_back(s); continue;
            }
            if (!hang && sl.where[0]) { key = std::string("crash:") + sl.where; msg = rk.empty() ? "crash with signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) : rl; }
            else if (hang) { key = "hang"; msg = "a library call does not return"; }
            else if (!rk.empty()) { key = rk; msg = rl; }
            else if (WIFSIGNALED(st)) { key = "crash"; msg = "the library crashed with signal " + std::to_string(WTERMSIG(st)); }
            else { key = "crash"; msg = "unexpected exit status " + std::to_string(st) + " " + err.substr(0, 300); }
        }
        if (knownkeys.count(key)) {
            knowncount[key]++;
            Viol v; v.key = key; v.msg = msg; v.mode = j.mode; v.idx = idx; if (!knownv.count(key)) knownv[key] = v;
            if (idx + 1 < j.to) todo.push_back({j.mode, idx + 1, j.to});
            freeslots.push_back(s);
            continue;
        }
        if (!keys.count(key) && viols.size() < 6) {
            keys.insert(key);
            Viol v; v.key = key; v.msg = msg; v.mode = j.mode; v.idx = idx;
            report(v, j, s, err, !(WIFEXITED(st) && WEXITSTATUS(st) == 12));
        }
        if (viols.size() >= 3 || key == "hang") stop = true;
        if (!viols.empty() && todo.size() > 64) todo.erase(todo.begin() + 64, todo.end()); // broken: a bounded rest of the run is enough
        freeslots.push_back(s);
    }
    if (viols.empty() && S->excluded * 2 > S->evals) { // hardly anything could be judged
        Viol v; v.key = S->exkey; v.msg = std::string("most cases cannot be carried out: ") + S->exmsg; v.mode = S->exmode; v.idx = S->exidx;
        report(v, {S->exmode, S->exfrom, S->exidx + 1}, 0, "", true);
    }
    cleanup();
    uint64_t distinct = 0;
    for (size_t i = 0; i < sizeof S->bitmap; i += 8) distinct += __builtin_popcountll(*(uint64_t *)(S->bitmap + i));
    FILE *f = out ? fopen(out, "w") : stdout;
    if (!f) return 2;
    fprintf(f, "{\"property\":\"%s\",\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"rule\":", P->id, (unsigned long long)S->evals, (unsigned long long)S->nontrivial, (unsigned long long)distinct);
    json_str(f, P->rule);
    fprintf(f, ",\"counters\":{");
    for (int i = 0; i < S->ncnt; i++) { if (i) fputc(',', f); json_str(f, S->cnt[i].name); fprintf(f, ":%llu", (unsigned long long)S->cnt[i].v); }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size() && i < 6; i++) { if (i) fputc(',', f); json_str(f, samples[i].substr(0, 1500).c_str()); }
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < viols.size(); i++) {
        if (i) fputc(',', f);
        fprintf(f, "{\"key\":"); json_str(f, viols[i].key.c_str()); fprintf(f, ",\"msg\":"); json_str(f, viols[i].msg.c_str());
        fprintf(f, ",\"replay\":"); json_str(f, viols[i].replay.c_str()); fprintf(f, "}");
    }
    fprintf(f, "],\"known\":{");
    bool first = true;
    for (auto &k : knowncount) { if (!first) fputc(',', f); first = false; json_str(f, k.first.c_str()); fprintf(f, ":{\"count\":%llu,\"msg\":", (unsigned long long)k.second); json_str(f, knownv[k.first].msg.c_str()); fprintf(f, "}"); }
    fprintf(f, "},\"harness_error\":%d}\n", harness_err);
    if (out) fclose(f);
    return harness_err ? 2 : viols.empty() ? 0 : 1;
}
