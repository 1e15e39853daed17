// Worker pool, confirmation, minimisation, replay files and evidence.
#include "ops.h"
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/resource.h>

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
           "detect_odr_violation=0:quarantine_size_mb=16:handle_abort=0:use_sigaltstack=1:symbolize=0:log_to_syslog=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:exitcode=99:symbolize=0:print_summary=1"; }

enum { MAXREC = 1 << 19, MAXPRE = 2048, SETBITS = 23, MAXEDGE = 8192 };
enum State { ST_RUN = 0, ST_VIOL = 1 };
struct WStat {
    u64 runs, nontrivial, steps, ops, faulted, ok, err, switches, choices;
    u64 fired[F__COUNT], errSeen[CYAML_ERR__COUNT], probes[P__COUNT], alarms[O__COUNT], modeRuns[8];
};
struct WShm {
    std::atomic<u64> cur; std::atomic<u64> beat;
    u32 nIdx; u64 idx[MAXPRE];
    int state, oracle; u64 hash; char msg[1600];
    u32 recLen; u64 rec[MAXREC];
    u32 trLen; char tr[1 << 17];
    WStat st;
};
struct Shm {
    std::atomic<u64> next; std::atomic<int> stop;
    std::atomic<u64> distinct;
    u8 edges[MAXEDGE];
    std::atomic<u64> set[1u << SETBITS];
    WShm w[65];
    struct { char prop[16]; u64 seed, idx; bool replay, trace; u32 nPre, nIn; u64 pre[MAXPRE]; u64 in[MAXREC]; } req;      // what the zygote is to run
};
static Shm *shm; static WShm *me;
u8 *simEdges; u64 *simRec; u32 *simRecLen; u32 simRecMax = MAXREC;
void hangExit() { _exit(77); }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string g_prop; static u64 g_seed; static std::vector<std::pair<std::string, std::string>> known;
static std::map<std::string, u64> knownHits;

static bool isKnown(const std::string &msg) { for (auto &k : known) if (msg.find(k.first) != std::string::npos) return true; return false; }

static void bindShm(WShm *w) { me = w; simEdges = shm->edges; simRec = w->rec; simRecLen = &w->recLen; simTr = w->tr; simTrLen = &w->trLen; simTrMax = sizeof w->tr; }

// The library's own static data (sim/first.s and sim/last.s bound it) as it was before any run: every run starts from it,
// so what a run does cannot depend on which runs the process did before.
extern "C" { extern volatile u8 simLibData0, simLibData1, simLibBss0, simLibBss1; }
static u8 *keptData, *keptBss;
__attribute__((no_sanitize("address"), noinline)) static void rawCopy(volatile u8 *to, const volatile u8 *from, size_t n) { for (size_t i = 0; i < n; i++) if (to[i] != from[i]) to[i] = from[i]; }
static void keepLibrary() {
    size_t d = &simLibData1 - &simLibData0, b = &simLibBss1 - &simLibBss0;
    keptData = (u8 *)mmap(nullptr, d + b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); keptBss = keptData + d;
    rawCopy(keptData, &simLibData0, d); rawCopy(keptBss, &simLibBss0, b);
}
static void resetLibrary() {
    rawCopy(&simLibData0, keptData, &simLibData1 - &simLibData0); rawCopy(&simLibBss0, keptBss, &simLibBss1 - &simLibBss0);
}

// one run; fills R
static void doRun(Run &run, u64 idx, const u64 *in, u32 nIn, bool trace) {
    resetLibrary();
    R = &run;
    run.prop = g_prop; run.want = propOracles(g_prop); run.trace = trace;
    run.c.seed(g_seed, hashBytes(g_prop.data(), g_prop.size()), idx);
    if (in) { run.c.replay = true; run.c.in = in; run.c.nIn = nIn; }
    me->recLen = 0;
    try { runProperty(g_prop); } catch (RunAbort &) {}
    run.hash = mix(run.hash, run.steps);
    resetBlocks();
}
static void addSet(u64 h) {
    if (!h) h = 1;
    u64 m = (1u << SETBITS) - 1, i = h & m;
    for (int k = 0; k < 64; k++, i = (i + 1) & m) {
        u64 z = 0;
        if (shm->set[i].compare_exchange_strong(z, h)) { shm->distinct++; return; }
        if (z == h) return;
    }
}
static int slowFd = -1; static double slowLog;       // for tuning: SIM_SLOW=seconds names runs that take longer
extern "C" int __llvm_profile_write_file(void) __attribute__((weak));
static void worker(int id, double until, unsigned recycle, u64 maxRuns) {
    WShm *w = &shm->w[id];
    bindShm(w);
    w->nIdx = 0; w->state = ST_RUN;
    for (unsigned k = 0; k < recycle && k < MAXPRE; k++) {
        if (shm->stop || now() > until) break;
        u64 i = shm->next++;
        if (maxRuns && i >= maxRuns) break;
        w->cur = i; w->idx[w->nIdx++] = i; w->beat++;
        std::unique_ptr<Run> r(new Run);
        double tRun = now();
        doRun(*r, i, nullptr, 0, false);
        if (slowLog && now() - tRun > slowLog) dprintf(slowFd, "slow run %llu: %.1fs, %llu steps, %u operations\n", (unsigned long long)i, now() - tRun, (unsigned long long)r->steps, r->ops);
        WStat &s = w->st;
        s.runs++; s.nontrivial += r->nontrivial; s.steps += r->steps; s.ops += r->ops; s.faulted += r->faultedOps; s.ok += r->okOps; s.err += r->errOps; s.switches += r->switches; s.choices += r->c.rec.size();
        for (int q = 0; q < F__COUNT; q++) s.fired[q] += r->fired[q];
        for (int q = 0; q < CYAML_ERR__COUNT; q++) s.errSeen[q] += r->errSeen[q];
        for (int q = 0; q < P__COUNT; q++) s.probes[q] += r->probes[q] ? 1 : 0;
        for (int q = 0; q < O__COUNT; q++) s.alarms[q] += r->otherAlarms[q] ? 1 : 0;
        if (r->nontrivial) addSet(mix(mix(r->hash, r->fp), r->schedHash));
        if (r->viol != O_NONE && !isKnown(r->violMsg)) {
            w->state = ST_VIOL; w->oracle = r->viol; w->hash = r->hash;
            snprintf(w->msg, sizeof w->msg, "%s", r->violMsg.c_str());
            _exit(3);
        }
        if (r->viol != O_NONE) break;      // a known finding may leave damage: start clean
    }
    if (__llvm_profile_write_file) __llvm_profile_write_file();      // coverage builds only
    _exit(0);
}

// ------------------------------------------------------------------ isolated executions
enum Kind { OK_, VIOL_, CRASH_, HANG_, ODD_ };
struct Outcome { Kind k = OK_; int oracle = 0; std::string msg; u64 hash = 0; std::vector<u64> rec; std::string trace; u64 steps = 0;
    std::string sig() const { return std::to_string(k) + "/" + (k == VIOL_ ? oracleName[oracle] : k == CRASH_ ? msg : ""); } };

static std::string crashText(int fd, int status, std::string *stack) {
    std::string s; char b[4096]; lseek(fd, 0, SEEK_SET);
    ssize_t n; while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 200000) s.append(b, n);
    size_t p;
    std::string r;
    if ((p = s.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
        p += 25; size_t e = s.find_first_of(" \n", p); r = "AddressSanitizer " + s.substr(p, e - p);
        // first frame inside the program
    } else if ((p = s.find("runtime error: ")) != std::string::npos) {
        size_t e = s.find('\n', p), b0 = s.rfind('\n', p); b0 = b0 == std::string::npos ? 0 : b0 + 1;
        r = "undefined behaviour " + s.substr(b0, std::min<size_t>(e - b0, 200));
    } else if ((p = s.find("Assertion")) != std::string::npos) { size_t e = s.find('\n', p), b0 = s.rfind('\n', p); b0 = b0 == std::string::npos ? 0 : b0 + 1; r = "assertion failed: " + s.substr(b0, std::min<size_t>(e - b0, 300)); }
    else if (WIFSIGNALED(status)) r = std::string("killed by signal ") + strsignal(WTERMSIG(status));
    else r = "exit status " + std::to_string(WEXITSTATUS(status)) + " " + s.substr(0, 200);

    if (stack && getenv("SIM_RAW")) fputs(s.c_str(), stderr);
    if (stack) {
        // frames of the report, resolved with addr2line when it is there
        size_t q = 0; int n = 0;
        while (n < 12 && (q = s.find("    #", q)) != std::string::npos) {
            size_t e = s.find('\n', q); std::string l = s.substr(q, e - q); q = e == std::string::npos ? s.size() : e;
            size_t o = l.find("+0x"); n++;
            if (o != std::string::npos) {
                std::string cmd = "addr2line -Cfsp -e /proc/" + std::to_string(getpid()) + "/exe 0x" + l.substr(o + 3, l.find(')', o) - o - 3) + " 2>/dev/null";
                if (FILE *f = popen(cmd.c_str(), "r")) { char b[400] = ""; if (fgets(b, sizeof b, f)) { if (char *nl = strchr(b, '\n')) *nl = 0; l = l.substr(0, 8) + b; } pclose(f); }
            }
            *stack += l + "\n";
        }
    }
    return r;
}
static int tmpFd() { return memfd_create("simerr", 0); }

// Isolated executions happen in children of a process forked before anything else was done, so that the
// addresses the allocator hands out depend on the decisions alone: the same in this process and in a later --replay.
static int zyReq[2], zyAns[2], zyErr;
static void zygote() {
    char b;
    for (;;) {
        ssize_t n = read(zyReq[0], &b, 1);
        if (n != 1) _exit(0);
        pid_t p = fork();
        if (p == 0) {
            dup2(zyErr, 2);
            bindShm(&shm->w[64]);
            auto &q = shm->req;
            g_prop = q.prop; g_seed = q.seed;
            for (u32 i = 0; i < q.nPre; i++) { std::unique_ptr<Run> r(new Run); doRun(*r, q.pre[i], nullptr, 0, false); }
            std::unique_ptr<Run> r(new Run);
            doRun(*r, q.idx, q.replay ? q.in : nullptr, q.nIn, q.trace);
            me->hash = r->hash; me->oracle = r->viol; me->st.steps = r->steps;
            snprintf(me->msg, sizeof me->msg, "%s", r->violMsg.c_str());
            _exit(r->viol != O_NONE ? 3 : 0);
        }
        int st = 0;
        if (write(zyAns[1], &p, sizeof p) != sizeof p) _exit(1);
        waitpid(p, &st, 0);
        if (write(zyAns[1], &st, sizeof st) != sizeof st) _exit(1);
    }
}
static void startZygote() {
    zyErr = tmpFd();
    if (pipe(zyReq) || pipe(zyAns)) { perror("pipe"); exit(2); }
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) { close(zyReq[1]); close(zyAns[0]); zygote(); }
    close(zyReq[0]); close(zyAns[1]);
}
static Outcome isolated(u64 idx, const std::vector<u64> *in, const std::vector<u64> &prelude, bool trace, double limit = 40) {
    WShm *w = &shm->w[64];
    w->recLen = 0; w->trLen = 0; w->state = ST_RUN; w->msg[0] = 0;
    if (ftruncate(zyErr, 0)) {}
    lseek(zyErr, 0, SEEK_SET);
    auto &q = shm->req;
    snprintf(q.prop, sizeof q.prop, "%s", g_prop.c_str()); q.seed = g_seed; q.idx = idx; q.trace = trace; q.replay = in != nullptr;
    q.nIn = in ? std::min<size_t>(in->size(), MAXREC) : 0; if (q.nIn) memcpy(q.in, in->data(), q.nIn * 8);
    q.nPre = std::min<size_t>(prelude.size(), MAXPRE); if (q.nPre) memcpy(q.pre, prelude.data(), q.nPre * 8);
    double t0 = now(); int st = 0; bool killed = false; pid_t p = 0;
    if (write(zyReq[1], "x", 1) != 1 || read(zyAns[0], &p, sizeof p) != sizeof p || p < 0) { perror("isolated execution"); exit(2); }
    for (;;) {
        pollfd f = {zyAns[0], POLLIN, 0};
        double left = limit - (now() - t0);
        if (left <= 0 && !killed) { kill(p, SIGKILL); killed = true; }
        if (poll(&f, 1, killed ? 1000 : (int)(left * 1000) + 1) == 1) break;
    }
    if (read(zyAns[0], &st, sizeof st) != sizeof st) { perror("isolated execution"); exit(2); }
    int fd = zyErr;
    Outcome o;
    o.rec.assign(w->rec, w->rec + std::min<u32>(w->recLen, MAXREC));
    if (trace) o.trace.assign(w->tr, w->trLen);
    if (killed) { o.k = HANG_; o.msg = "no end within the time limit"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.k = OK_; o.hash = w->hash; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { o.k = VIOL_; o.hash = w->hash; o.oracle = w->oracle; o.msg = w->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.k = HANG_; o.msg = "an operation did not end within its step limit"; }
    else { o.k = CRASH_; o.msg = crashText(fd, st, trace ? &o.trace : nullptr); o.hash = hashBytes(o.msg.data(), o.msg.size()); }
    return o;
}

static std::vector<u64> shrink(u64 idx, std::vector<u64> best, const std::vector<u64> &prelude, const std::string &sig, double until, unsigned &tries) {
    auto test = [&](const std::vector<u64> &cand, std::vector<u64> *norm) {
        tries++;
        Outcome o = isolated(idx, &cand, prelude, false);
        if (o.k == OK_ || o.sig() != sig) return false;
        if (norm) { *norm = o.rec; while (!norm->empty() && norm->back() == 0) norm->pop_back(); }
        return true;
    };
    auto better = [](const std::vector<u64> &a, const std::vector<u64> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && now() < until) {
        progress = false;
        for (size_t len = best.size() / 2; len >= 1 && now() < until; len /= 2) {
            for (size_t at = 0; at + len <= best.size() && now() < until;) {
                std::vector<u64> c = best, nrm;
                size_t i = best.size() - len - at;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (test(c, &nrm)) { best = better(nrm, c) ? nrm : c; progress = true; continue; }
                c = best; bool any = false;
                for (size_t k = i; k < i + len; k++) { any |= c[k] != 0; c[k] = 0; }
                if (any && len > 1 && test(c, &nrm)) { if (better(nrm, best)) best = nrm; else best = c; progress = true; at = 0; if (best.size() < len) break; continue; }
                at += len > 8 ? len / 2 : len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() < until; i++) {
            u64 lo = 0, hi = best[i];
            while (lo < hi && now() < until && i < best.size()) {
                u64 mid = lo + (hi - lo) / 2;
                std::vector<u64> c = best, nrm; c[i] = mid;
                if (test(c, &nrm)) { hi = mid; best = c; progress = true; } else lo = mid + 1;
            }
        }
    }
    return best;
}

// output stays plain text whatever the documents hold
static std::string plain(const std::string &s) {
    std::string o;
    for (u8 c : s) if (c == '\n' || c == '\t' || (c >= 32 && c < 127)) o += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    return o;
}
// ------------------------------------------------------------------ JSON helpers
static std::string js(const std::string &s) {
    std::string o = "\"";
    for (u8 c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static std::string writeReplay(const std::string &dir, u64 idx, const std::vector<u64> &ch, const std::vector<u64> &pre, const Outcome &o) {
    mkdir(dir.c_str(), 0777);
    std::string path = dir + "/" + g_prop + "-" + std::to_string(g_seed) + "-" + std::to_string(idx) + ".json";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "{\"property\": \"%s\", \"seed\": %llu, \"run\": %llu, \"class\": %s,\n \"message\": %s,\n \"hash\": %llu,\n \"prelude\": [", g_prop.c_str(), (unsigned long long)g_seed, (unsigned long long)idx,
            js(o.k == VIOL_ ? oracleName[o.oracle] : o.k == CRASH_ ? "crash" : "hang").c_str(), js(o.msg).c_str(), (unsigned long long)o.hash);
    for (size_t i = 0; i < pre.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)pre[i]);
    fprintf(f, "],\n \"choices\": [");
    for (size_t i = 0; i < ch.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)ch[i]);
    fprintf(f, "],\n \"trace\": [\n");
    size_t p = 0; bool first = true;
    while (p < o.trace.size()) { size_t e = o.trace.find('\n', p); if (e == std::string::npos) e = o.trace.size(); fprintf(f, "%s  %s", first ? "" : ",\n", js(o.trace.substr(p, e - p)).c_str()); first = false; p = e + 1; }
    fprintf(f, "\n ]}\n");
    fclose(f);
    return path;
}
static std::string slurp(const std::string &p) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) { perror(p.c_str()); exit(2); } char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); return s; }
static std::vector<u64> numList(const std::string &s, const char *key) {
    std::vector<u64> v; size_t p = s.find(std::string("\"") + key + "\": [");
    if (p == std::string::npos) return v;
    p = s.find('[', p) + 1;
    while (s[p] != ']') { char *e; v.push_back(strtoull(&s[p], &e, 10)); p = e - s.data(); if (s[p] == ',') p++; }
    return v;
}
static u64 numField(const std::string &s, const char *key) { size_t p = s.find(std::string("\"") + key + "\": "); return p == std::string::npos ? 0 : strtoull(&s[p + strlen(key) + 4], nullptr, 10); }

static int replayFile(const std::string &path, bool quiet) {
    std::string s = slurp(path);
    size_t p = s.find("\"property\": \"") + 13;
    g_prop = s.substr(p, s.find('"', p) - p);
    if (!knownProperty(g_prop)) { fprintf(stderr, "unknown property in %s\n", path.c_str()); return 2; }
    g_seed = numField(s, "seed"); u64 idx = numField(s, "run"), h = numField(s, "hash");
    std::vector<u64> ch = numList(s, "choices"), pre = numList(s, "prelude");
    Outcome o = isolated(idx, &ch, pre, true, 120);
    if (!quiet) fputs(plain(o.trace).c_str(), stdout);
    const char *kn[] = {"no violation", "violation", "crash", "hang", "?"};
    printf("replay: %s%s%s: %s\n", kn[o.k], o.k == VIOL_ ? " " : "", o.k == VIOL_ ? oracleName[o.oracle] : "", plain(o.msg).c_str());
    if (o.k == OK_) return 0;
    bool same = o.k != VIOL_ || o.hash == h;
    printf("replay: %s the recorded execution\n", same ? "identical to" : "differs from");
    if (o.k != OK_) printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), path.c_str());
    return same ? 1 : 4;
}

int main(int argc, char **argv) {
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shm == MAP_FAILED) { perror("mmap"); return 2; }
    keepLibrary();
    startZygote();
    if (getenv("SIM_SLOW")) { slowLog = atof(getenv("SIM_SLOW")); slowFd = dup(1); }
    std::string tier = "quick", out, replays = "replays", knownPath, replay, self = argv[0], buildNote;
    double seconds = 30; int workers = 8; u64 maxRuns = 0, one = ~0ull; bool trace = false, quiet = false, dumpHashes = false; double shrinkSecs = 40; unsigned recycle = 1500;
    g_seed = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") g_prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--seconds") seconds = atof(val().c_str()); else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--runs") maxRuns = strtoull(val().c_str(), nullptr, 0); else if (a == "--evidence") out = val(); else if (a == "--replays") replays = val();
        else if (a == "--known") knownPath = val(); else if (a == "--replay") replay = val(); else if (a == "--one") one = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--trace") trace = true; else if (a == "--quiet") quiet = true; else if (a == "--hashes") dumpHashes = true; else if (a == "--shrink") shrinkSecs = atof(val().c_str());
        else if (a == "--recycle") recycle = atoi(val().c_str());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    bindShm(&shm->w[64]);
    if (!replay.empty()) return replayFile(replay, quiet);
    if (!knownProperty(g_prop)) { fprintf(stderr, "unknown property %s\n", g_prop.c_str()); return 2; }
    if (one != ~0ull) {
        Outcome o = isolated(one, nullptr, {}, trace, 600);
        fputs(plain(o.trace).c_str(), stdout);
        const char *kn[] = {"ok", "violation", "crash", "hang", "?"};
        printf("run %llu: %s %s %s hash %016llx, %zu choices\n", (unsigned long long)one, kn[o.k], o.k == VIOL_ ? oracleName[o.oracle] : "", plain(o.msg).c_str(), (unsigned long long)o.hash, o.rec.size());
        return o.k == OK_ ? 0 : 1;
    }
    if (!knownPath.empty()) {
        FILE *f = fopen(knownPath.c_str(), "r"); char line[2000];
        std::string pre = "finding: property=" + g_prop + " match=\"";
        while (f && fgets(line, sizeof line, f)) {
            std::string l = line; while (!l.empty() && (l.back() == '\n')) l.pop_back();
            if (l.compare(0, pre.size(), pre)) continue;
            size_t e = l.find('"', pre.size()); if (e == std::string::npos) continue;
            known.push_back({l.substr(pre.size(), e - pre.size()), l.size() > e + 2 ? l.substr(e + 2) : ""});
        }
        if (f) fclose(f);
    }
    for (auto &k : known) printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), k.second.c_str());

    double t0 = now(), until = t0 + seconds;
    std::vector<pid_t> pid(workers, 0); std::vector<int> efd(workers, -1);
    std::vector<double> beatT(workers); std::vector<u64> beat(workers);
    auto spawn = [&](int i) {
        if (efd[i] >= 0) close(efd[i]);
        efd[i] = tmpFd();
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { dup2(efd[i], 2); worker(i, until, recycle, maxRuns); }
        pid[i] = p; beatT[i] = now(); beat[i] = shm->w[i].beat;
    };
    struct Fail { u64 idx; std::vector<u64> pre; std::string msg; bool hang; };
    std::vector<Fail> fails;
    int rc = 0; std::string violPath; u64 nviol = 0; bool unrepro = false; double searchWall = 0;
    do {        // a failure that does not repeat exactly is set aside and the search goes on
    double r0 = now(); fails.clear(); shm->stop = 0;
    for (int i = 0; i < workers; i++) spawn(i);
    int live = workers; bool stopping = false;
    while (live > 0) {
        bool any = false;
        for (int i = 0; i < workers; i++) {
            if (!pid[i]) continue;
            int st; pid_t q = waitpid(pid[i], &st, WNOHANG);
            WShm *w = &shm->w[i];
            bool hang = false;
            if (q == 0) {
                if (w->beat != beat[i]) { beat[i] = w->beat; beatT[i] = now(); continue; }
                else if (now() - beatT[i] > 90) { kill(pid[i], SIGKILL); waitpid(pid[i], &st, 0); hang = true; }
                else continue;
            }
            any = true; pid[i] = 0;
            bool fail = hang || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
            if (fail && !(stopping && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
                Fail f; f.idx = w->cur; f.hang = hang || (WIFEXITED(st) && WEXITSTATUS(st) == 77);
                f.pre.assign(w->idx, w->idx + (w->nIdx ? w->nIdx - 1 : 0));
                f.msg = w->state == ST_VIOL ? w->msg : f.hang ? "hang" : crashText(efd[i], st, nullptr);
                if (!isKnown(f.msg)) { fails.push_back(f); shm->stop = 1; if (!stopping) { stopping = true; } }
            }
            if (!stopping && now() < until && !(maxRuns && shm->next >= maxRuns)) spawn(i); else live--;
        }
        if (stopping && !any && now() > until + 5) for (int i = 0; i < workers; i++) if (pid[i]) kill(pid[i], SIGKILL);
        if (!any) usleep(3000);
    }
    searchWall += now() - r0;
    std::sort(fails.begin(), fails.end(), [](const Fail &a, const Fail &b) { return a.idx < b.idx; });
    for (auto &f : fails) {
        if (nviol) break;
        std::vector<u64> pre;
        Outcome a = isolated(f.idx, nullptr, pre, false, 60);
        if (a.k == OK_ && !f.pre.empty()) {      // needs state left behind by earlier runs of the same process
            pre = f.pre; a = isolated(f.idx, nullptr, pre, false, 200);
            if (a.k != OK_) {
                double lim = now() + 30;
                for (size_t len = pre.size() / 2; len >= 1 && now() < lim; len /= 2)
                    for (size_t at = 0; at + len <= pre.size() && now() < lim;) {
                        std::vector<u64> c = pre; c.erase(c.begin() + at, c.begin() + at + len);
                        Outcome b = isolated(f.idx, nullptr, c, false, 60);
                        if (b.sig() == a.sig()) pre = c; else at += len;
                    }
                a = isolated(f.idx, nullptr, pre, false, 60);
            }
        }
        Outcome b = isolated(f.idx, nullptr, pre, false, 60);
        if (a.k == OK_ || a.sig() != b.sig() || (a.k == VIOL_ && a.hash != b.hash)) {
            fprintf(stderr, "run %llu failed (%s) but does not repeat exactly (%s / %s)\n", (unsigned long long)f.idx, plain(f.msg).c_str(), a.sig().c_str(), b.sig().c_str());
            unrepro = true; continue;
        }
        unsigned tries = 0;
        size_t before = a.rec.size();
        std::vector<u64> ch = shrink(f.idx, a.rec, pre, a.sig(), now() + shrinkSecs, tries);
        Outcome fin = isolated(f.idx, &ch, pre, true, 60);
        if (fin.k == OK_ || fin.sig() != a.sig()) { ch = a.rec; fin = isolated(f.idx, &ch, pre, true, 60); }
        violPath = writeReplay(replays, f.idx, ch, pre, fin);
        // a fresh process must agree
        std::string cmd = "'" + self + "' --replay '" + violPath + "' --quiet >/dev/null 2>&1";
        int st = system(cmd.c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4 && now() > until) fprintf(stderr, "replay of %s in a fresh process shows the same violation in an execution that differs\n", violPath.c_str());
        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "replay of %s in a fresh process does not reproduce (status %d)\n", violPath.c_str(), st); unrepro = true; continue; }
        nviol++;
        printf("violation class: %s\n%s\n", fin.k == VIOL_ ? oracleName[fin.oracle] : fin.k == CRASH_ ? "crash" : "hang", plain(fin.msg).c_str());
        printf("seed %llu run %llu, %zu choices minimised to %zu in %u executions%s\n", (unsigned long long)g_seed, (unsigned long long)f.idx, before, ch.size(), tries, pre.empty() ? "" : " (needs earlier runs of the same process)");
        size_t lines = 0, p = 0; while (p < fin.trace.size() && lines < 60) { size_t e = fin.trace.find('\n', p); if (e == std::string::npos) e = fin.trace.size(); printf("  | %s\n", plain(fin.trace.substr(p, e - p)).c_str()); p = e + 1; lines++; }
    }
    } while (!nviol && !fails.empty() && now() < until);
    for (int fd : efd) if (fd >= 0) close(fd);
    double wall = searchWall;
    WStat T; memset(&T, 0, sizeof T);
    for (int i = 0; i < workers; i++) { u64 *a = (u64 *)&T, *b = (u64 *)&shm->w[i].st; for (size_t k = 0; k < sizeof(WStat) / 8; k++) a[k] += b[k]; }

    if (nviol) rc = 1; else if (unrepro) rc = 2;

    // samples
    std::string samples;
    int ns = 0;
    for (u64 i = 0; i < 40 && ns < 3 && !nviol; i++) {
        Outcome o = isolated(i, nullptr, {}, true, 60);
        if (o.k == OK_ && o.trace.size() > 300 && o.trace.size() < 6000) { samples += (ns ? ",\n    " : "") + js("run " + std::to_string(i) + ":\n" + o.trace.substr(0, 3500)); ns++; }
    }
    if (nviol) samples = js("replay " + violPath);
    if (!out.empty()) {
        FILE *f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 2; }
        u64 edges = 0; for (int i = 0; i < MAXEDGE; i++) edges += shm->edges[i] != 0;
        extern u32 simEdgeTotal;
        auto P = [&](const char *k, u64 v) { fprintf(f, "    \"%s\": %llu,\n", k, (unsigned long long)v); };
        fprintf(f, "{\n  \"property\": \"%s\",\n  \"tier\": \"%s\",\n  \"seed\": %llu,\n  \"level\": \"%s\",\n  \"coverage\": {\n", g_prop.c_str(), tier.c_str(), (unsigned long long)g_seed, "exploration");
        P("evaluations", T.runs); P("distinct_nontrivial", shm->distinct);
        fprintf(f, "    \"rule\": %s,\n", js(std::string("One evaluation is one simulated run decided by one seed: ") + propRule(g_prop) + ". A run is non-trivial when its scenario reached the state the property is about (a fault fired inside an operation, a switch happened, a comparison was made); distinct by the hash of the complete event log, documents and schedule.").c_str());
        P("seeds_per_hour", wall > 0 ? (u64)(T.runs / wall * 3600) : 0);
        P("operations", T.ops); P("operations_ok", T.ok); P("operations_failed", T.err); P("operations_with_fault_fired", T.faulted);
        P("simulated_steps", T.steps); P("context_switches", T.switches); P("decisions", T.choices); P("library_edges_reached", edges); P("library_edges_total", simEdgeTotal);
        fprintf(f, "    \"simulated_time\": \"steps of instrumented library code (the library has no clock or timers)\",\n    \"faults_fired\": {");
        for (int i = 0, n = 0; i < F__COUNT; i++) if (T.fired[i]) fprintf(f, "%s\"%s\": %llu", n++ ? ", " : "", faultName[i], (unsigned long long)T.fired[i]);
        fprintf(f, "},\n    \"runs_hitting\": {");
        for (int i = 0; i < P__COUNT; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", probeName[i], (unsigned long long)T.probes[i]);
        fprintf(f, "},\n    \"results_seen\": {");
        for (int i = 0, n = 0; i < CYAML_ERR__COUNT; i++) if (T.errSeen[i]) fprintf(f, "%s%s: %llu", n++ ? ", " : "", js(cyaml_strerror((cyaml_err_t)i)).c_str(), (unsigned long long)T.errSeen[i]);
        fprintf(f, "},\n    \"runs_with_alarm_by_class\": {");
        for (int i = 0, n = 0; i < O__COUNT; i++) if (T.alarms[i]) fprintf(f, "%s\"%s\": %llu", n++ ? ", " : "", oracleName[i], (unsigned long long)T.alarms[i]);
        fprintf(f, "},\n    \"real_components\": [\"all of libcyaml built from /repo/src\", \"libyaml (system static library)\", \"glibc stdio\"],\n"
                   "    \"stub_components\": [\"client allocator, log and validation functions\", \"libyaml's malloc/free\", \"file storage behind stdio\", \"thread scheduler (C09)\"],\n");
        fprintf(f, "    \"samples\": [\n    %s\n    ]\n  },\n", samples.c_str());
        fprintf(f, "  \"assumptions\": [\"sampling: a clean batch is evidence, not proof\", \"the reference models are trusted\", \"libyaml's event parser is shared by the model and the library\"],\n  \"wall_s\": %.1f,\n  \"violations\": %llu\n}\n", now() - t0, (unsigned long long)nviol);
        fclose(f);
    }
    printf("%s seed %llu: %llu runs (%llu distinct non-trivial), %llu operations, %llu with faults, %llu steps, %.1f s\n", g_prop.c_str(), (unsigned long long)g_seed, (unsigned long long)T.runs, (unsigned long long)shm->distinct, (unsigned long long)T.ops, (unsigned long long)T.faulted, (unsigned long long)T.steps, wall);
    if (dumpHashes) { u64 h = 0; for (u32 i = 0; i < 1u << SETBITS; i++) h += shm->set[i] * 0x9e3779b97f4a7c15ull; printf("set hash %016llx\n", (unsigned long long)h); }
    for (int i = 0, n = 0; i < O__COUNT; i++) if (T.alarms[i]) { printf("%s%s=%llu", n++ ? " " : "alarms of other classes: ", oracleName[i], (unsigned long long)T.alarms[i]); if (i == O__COUNT - 1) puts(""); }
    for (int i = 0; i < O__COUNT; i++) if (T.alarms[i]) { puts(""); break; }
    if (nviol) printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), violPath.c_str());
    return rc;
}
