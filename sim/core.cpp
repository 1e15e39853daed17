// Choices, block tracking, allocator/stream/log/validation seams, scheduler.
#include "sim.h"
#include <fcntl.h>
#include <cerrno>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <clocale>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define HAVE_ASAN 1
#endif
#endif
#ifndef HAVE_ASAN
#define ASAN_POISON_MEMORY_REGION(a, b) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, b) ((void)0)
#endif

Run *R = nullptr;
thread_local OpCtx *tl_op = nullptr;

const char *const oracleName[O__COUNT] = {
    "none", "leak", "libyaml-leak", "bad-free", "memory", "output-on-failure", "source-modified", "result",
    "masked-fault", "error-class", "file-content", "stream-lifecycle", "callback-history", "log", "allocator-contract",
    "unset-not-zero", "retry", "steps", "diverge", "serial-equivalence", "save-content", "shared-memory", "round-trip",
    "copy", "alias", "default", "corrupt-input", "disk", "misuse" };
const char *const faultName[F__COUNT] = {
    "client-alloc-fail", "libyaml-alloc-fail", "open-fail", "read-error", "short-read", "write-error", "disk-full",
    "short-write", "close-fail", "callback-veto", "reentrant-call", "crash", "torn-write", "corrupt-bytes", "truncate",
    "preemption", "realloc-moved", "garbage-fill", "address-reuse", "lost-block", "odd-stdio-buffer",
    "errno-left-dirty", "decimal-comma-locale" };
const char *const probeName[P__COUNT] = {
    "alias", "nested-alias", "default-applied", "deep-default", "state-stack>16", "mapping>32-fields", "sequence>256",
    "file>16K", "nested-fixed-sequence", "empty-sequence", "null-pointer", "veto-mid-document", "fault-in-default",
    "fault-in-replay", "save-multi-flush", "torn-file-loaded-ok", "corrupt-loaded-ok", "corrupt-rejected", "reenter-in-save",
    "switch-in-save", "recursive-schema", "copy-into-caller-memory", "multi-document", "unknown-key-skipped",
    "case-folded-key", "utf16-input", "masked-fault-checked", "flush-failed-at-close", "retry-after-fault", "count-capacity",
    "ignored-value>16-deep", "invalid-schema", "anchors>64", "sequence>4096", "sequence>65535", "mapping>256-fields", "string>64K", "state-stack>64", "output>64K", "events>4096" };

// ------------------------------------------------------------------ choices
extern u8 *simEdges; extern u64 *simRec; extern u32 *simRecLen; extern u32 simRecMax;
u32 simEdgeTotal = 0;
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 splitmix(u64 &x) {
    u64 z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
void Choices::seed(u64 a, u64 b, u64 c) {
    u64 x = mix(mix(mix(0x51a1, a), b), c);
    s[0] = splitmix(x); s[1] = splitmix(x);
    if (!s[0] && !s[1]) s[0] = 1;
    rec.clear(); in = nullptr; nIn = 0; replay = false;
}
u64 Choices::next() {
    u64 s0 = s[0], s1 = s[1], r = rotl(s0 * 5, 7) * 9;
    s1 ^= s0;
    s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    s[1] = rotl(s1, 37);
    return r;
}
u64 Choices::draw(u64 n) {
    u64 v;
    if (n <= 1) return 0;
    if (replay) v = rec.size() < nIn ? in[rec.size()] : 0;
    else v = next();
    v = n == ~0ull ? v : v % n;
    rec.push_back(v);
    if (simRecLen && *simRecLen < simRecMax) simRec[(*simRecLen)++] = v;
    return v;
}
bool Choices::chance(unsigned num, unsigned den) {
    if (num == 0) return false;
    if (num >= den) return true;
    return draw(den) >= den - num;
}
unsigned Choices::pick(std::initializer_list<unsigned> w) {
    unsigned t = 0, i = 0;
    for (unsigned x : w) t += x;
    u64 v = draw(t);
    for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
    return 0;
}
u64 Choices::logn(u64 maxbits) {
    u64 b = draw(maxbits + 1);
    if (!b) return 0;
    return (1ull << (b - 1)) + (b > 1 ? draw(1ull << (b - 1)) : 0);
}
u64 hashBytes(const void *p, size_t n, u64 h) {
    const u8 *c = (const u8 *)p;
    for (; n >= 8; n -= 8, c += 8) { u64 w; memcpy(&w, c, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    while (n--) { h ^= *c++; h *= 1099511628211ull; }
    return h ^ (h >> 31);
}

// ------------------------------------------------------------------ reporting
void violate(Oracle o, const char *fmt, ...) {
    char buf[1600];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
    static const char *const show = getenv("SIM_OTHER");       // for tuning: a file to name alarms in that do not refute the property
    if (show && !(R->want >> o & 1)) { int fd = open(show, O_WRONLY | O_CREAT | O_APPEND, 0600); if (fd >= 0) { dprintf(fd, "[%s] %s\n", oracleName[o], buf); close(fd); } }
    R->otherAlarms[o]++;
    if (R->trace) { traceOut((std::string("ALARM [") + oracleName[o] + "] " + buf).c_str()); }
    if (R->viol == O_NONE && (R->want >> o & 1)) { R->viol = o; R->violMsg = buf; }
    R->hash = mix(R->hash, 0xBAD0 + o);
}
char *simTr; u32 *simTrLen; u32 simTrMax;
void traceOut(const char *line) {
    size_t n = strlen(line);
    if (!simTr || *simTrLen + n + 2 >= simTrMax) return;
    memcpy(simTr + *simTrLen, line, n); *simTrLen += n; simTr[(*simTrLen)++] = '\n';
}
void tracef(const char *fmt, ...) {
    if (!R->trace) return;
    char buf[4000];
    va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
    traceOut(buf);
}
std::string FaultPlan::show() const {
    std::string s; char b[160];
    auto add = [&](const char *f, long long v) { snprintf(b, sizeof b, "%s=%lld ", f, v); s += b; };
    if (callocK >= 0) add(callocFrom ? "client-alloc-fails-from" : "client-alloc-fails-at", callocK);
    if (callocK2 >= 0) add("and-at", callocK2);
    auto more = [&](u64 m) { if (m) { snprintf(b, sizeof b, "and-after-it-by-mask=%llx ", (unsigned long long)m); s += b; } };
    if (callocK >= 0) more(callocMore);
    if (callocBig) add("client-alloc-refuses-larger-than", callocBig);
    if (yallocK >= 0) add(yallocFrom ? "libyaml-alloc-fails-from" : "libyaml-alloc-fails-at", yallocK), more(yallocMore);
    if (openErr) add("open-errno", openErr);
    if (readErrK >= 0) { add("read-error-at", readErrK); add("errno", readErrno); }
    if (!rchunk.empty()) { add("read-sizes", rchunk.size()); for (size_t i = 0; i < rchunk.size() && i < 6; i++) add("r", rchunk[i]); }
    if (!wchunk.empty()) { add("write-sizes", wchunk.size()); for (size_t i = 0; i < wchunk.size() && i < 6; i++) add("w", wchunk[i]); }
    if (writeErrK >= 0) { add("write-error-at", writeErrK); more(writeMore); add("errno", writeErrno); }
    if (space >= 0) add("disk-space", space);
    if (closeErr) add("close-fails", 1);
    if (vetoK >= 0) add("veto-callback", vetoK);
    if (bufsize >= 0) add("stdio-buffer", bufsize);
    if (reKind) { add("reenter-kind", reKind); add("at", reK); }
    if (dirtyErrno) add("errno-left-at", dirtyErrno);
    if (point) { s += "decimal-point="; s += point; s += " "; }
    return s.empty() ? "none" : s;
}
bool FaultPlan::any() const {
    return callocK >= 0 || callocBig || yallocK >= 0 || openErr || readErrK >= 0 || writeErrK >= 0 || space >= 0 ||
           closeErr || vetoK >= 0 || reKind;
}

// ------------------------------------------------------------------ step accounting
extern void hangExit();
static bool sched_on = false;
static inline void fire(OpCtx *op, FaultKind k) { op->fired[k]++; R->fired[k]++; }

static inline void step(u32 id) {
    OpCtx *op = tl_op;
    if (!op) return;
    op->steps++;
    R->steps++;
    simEdges[id & 8191] = 1;
    op->edgeHash = (op->edgeHash ^ id) * 0x100000001b3ull;
    if (__builtin_expect(op->steps > op->budget, 0)) hangExit();
    if (sched_on) schedPoint();
}
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
    static uint32_t n = 0;
    if (start == stop || *start) return;
    for (uint32_t *x = start; x < stop; x++) *x = ++n;
    simEdgeTotal = n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) { step(*guard); }
#define COVLS(nm) void nm(void *) { if (sched_on && tl_op) schedPoint(); }
COVLS(__sanitizer_cov_load1) COVLS(__sanitizer_cov_load2) COVLS(__sanitizer_cov_load4) COVLS(__sanitizer_cov_load8)
COVLS(__sanitizer_cov_load16) COVLS(__sanitizer_cov_store1) COVLS(__sanitizer_cov_store2) COVLS(__sanitizer_cov_store4)
COVLS(__sanitizer_cov_store8) COVLS(__sanitizer_cov_store16)
}

static void reenter(OpCtx *op, int kind, i64 k) {
    FaultPlan &p = op->plan;
    if (p.reKind != kind || p.reK != k || !p.reFn) return;
    auto fn = p.reFn; p.reFn = nullptr;
    fire(op, F_REENTER);
    ev(0x4E, k);
    fn();
    tl_op = op;
}

// ------------------------------------------------------------------ blocks
static std::unordered_map<const void *, Blk *> blocks;
static u64 nextBlk = 1;
Blk *findBlk(const void *p) { auto it = blocks.find(p); return it == blocks.end() ? nullptr : it->second; }
void moveBlk(Blk *b, Holder *to) {
    if (b->h) b->h->live.erase(b->id);
    b->h = to; to->live[b->id] = b;
}
static Blk *addBlk(u8 *p, size_t size, Env *e, bool y, Holder *h) {
    Blk *b = new Blk{p, size, nextBlk++, e, y, h};
    blocks[p] = b; h->live[b->id] = b;
    return b;
}
static void delBlk(Blk *b) { blocks.erase(b->p); if (b->h) b->h->live.erase(b->id); delete b; }

// capacity-based raw storage of one client
static std::unordered_map<void *, size_t> caps;   // INPLACE/REUSE capacities
static size_t classOf(size_t n) { size_t c = 16; while (c < n) c *= 2; return c; }
extern "C" void *cyaml_mem(void *, void *, size_t);

static u8 *rawNew(Env *e, size_t n) {
    u8 *p;
    switch (e->mode) {
    case AM_INPLACE: case AM_REUSE: {
        size_t c = classOf(n);
        auto &fl = e->freeList[c];
        if (e->mode == AM_REUSE && !fl.empty()) {
            p = fl.back(); fl.pop_back();
            ASAN_UNPOISON_MEMORY_REGION(p, c);
            R->fired[F_REUSE]++;
        } else {
            p = (u8 *)malloc(c); memset(p, e->fill, c);
        }
        caps[p] = c;
        ASAN_POISON_MEMORY_REGION(p + n, c - n);
        return p; }
    case AM_DEFAULT: {
        OpCtx *op = tl_op;
        if (op) op->inDefault = true;
        p = (u8 *)cyaml_mem(nullptr, nullptr, n);
        if (op) op->inDefault = false;
        if (p) memset(p, e->fill, n);
        return p; }
    default:
        p = (u8 *)malloc(n ? n : 1); memset(p, e->fill, n);
        return p;
    }
}
static void rawFree(Env *e, u8 *p, size_t n) {
    switch (e->mode) {
    case AM_INPLACE: case AM_REUSE: {
        size_t c = caps[p]; caps.erase(p);
        ASAN_UNPOISON_MEMORY_REGION(p, c);
        if (e->mode == AM_REUSE) {
            ASAN_POISON_MEMORY_REGION(p, c);     // stale contents stay for the next owner
            e->freeList[c].push_back(p);
        } else { memset(p, 0xDD, c); free(p); }
        return; }
    case AM_DEFAULT: {
        OpCtx *op = tl_op;
        if (op) op->inDefault = true;
        void *r = cyaml_mem(nullptr, p, 0);
        if (op) op->inDefault = false;
        if (r) violate(O_ALLOC, "cyaml_mem returned memory for a release");
        return; }
    default:
        memset(p, 0xDD, n); free(p);
    }
}
static u8 *rawResize(Env *e, u8 *p, size_t old, size_t n) {
    if (e->mode == AM_INPLACE && caps[p] >= n) {
        size_t c = caps[p];
        ASAN_UNPOISON_MEMORY_REGION(p, c);
        if (n > old) memset(p + old, e->fill, n - old);
        ASAN_POISON_MEMORY_REGION(p + n, c - n);
        return p;
    }
    if (e->mode == AM_DEFAULT) {
        OpCtx *op = tl_op;
        if (op) op->inDefault = true;
        u8 *q = (u8 *)cyaml_mem(nullptr, p, n);
        if (op) op->inDefault = false;
        if (q && n > old) memset(q + old, e->fill, n - old);
        return q;
    }
    u8 *q = rawNew(e, n);
    memcpy(q, p, std::min(old, n));
    rawFree(e, p, old);
    R->fired[F_MOVE]++;
    return q;
}
void *envAlloc(Env *e, Holder *h, size_t n) {
    NoOp guard;
    u8 *p = rawNew(e, n);
    memset(p, 0, n);
    addBlk(p, n, e, false, h);
    return p;
}
void envFree(Env *e, void *p) {
    NoOp guard;
    Blk *b = findBlk(p);
    if (!b) return;
    size_t n = b->size; delBlk(b);
    rawFree(e, (u8 *)p, n);
}
void dropHolder(Holder &h) {      // forget blocks nobody will release
    NoOp guard;
    while (!h.live.empty()) {
        Blk *b = h.live.begin()->second;
        u8 *p = b->p; size_t n = b->size; Env *e = b->env; bool y = b->y;
        delBlk(b);
        if (y || !e) free(p); else rawFree(e, p, n);
    }
}
void dropEnv(Env *e) {
    for (auto &c : e->freeList) for (u8 *p : c.second) { ASAN_UNPOISON_MEMORY_REGION(p, c.first); free(p); }
    e->freeList.clear();
}
void resetBlocks() {              // between runs: forget leaked blocks
    std::vector<Blk *> all;
    for (auto &x : blocks) all.push_back(x.second);
    for (Blk *b : all) {
        u8 *p = b->p; bool y = b->y;
        auto it = caps.find(p);
        if (it != caps.end()) { ASAN_UNPOISON_MEMORY_REGION(p, it->second); caps.erase(it); }
        blocks.erase(p); delete b;
        if (!y) free(p); else free(p);
    }
    nextBlk = 1;
}

static bool callocFault(OpCtx *op, size_t size) {
    i64 k = op->cnt.calloc_++;
    const FaultPlan &p = op->plan;
    bool f = false;
    if (FaultPlan::at(k, p.callocK, p.callocMore) || (p.callocFrom && p.callocK >= 0 && k > p.callocK)) f = true;
    if (p.callocK2 >= 0 && k == p.callocK2) f = true;
    if (p.callocBig && size > p.callocBig) f = true;
    if (size > (64u << 20)) f = true;
    if (f) { fire(op, F_CALLOC); ev(0xA1, k); if (R->trace) tracef("      op%d: client allocation #%lld of %zu bytes refused", op->id, (long long)k, size); }
    return f;
}

struct Dirty { OpCtx *op; ~Dirty() { if (op && op->plan.dirtyErrno) errno = op->plan.dirtyErrno; } };
extern "C" void *sim_mem(void *ctx, void *ptr, size_t size) {
    OpCtx *op = tl_op;
    Env *e = (Env *)ctx;
    if (!op) { fprintf(stderr, "sim: mem_fn outside an operation\n"); abort(); }
    Dirty dirty{op};
    if (e != op->env) {
        violate(O_ALLOC, "mem_fn called with a context that is not the configuration's");
        e = op->env;
    }
    if (sched_on) schedPoint();
    Blk *b = nullptr;
    if (ptr) {
        b = findBlk(ptr);
        if (!b || b->y || b->env != e) {
            violate(O_BADFREE, "%s given a pointer that is not a live block of this client (%s)",
                    size ? "resize" : "release", b ? (b->y ? "it is libyaml's" : "it is another client's") : "unknown or already released");
            return size ? (void *)0 : nullptr;
        }
        if (b->h != &op->client) {
            violate(O_BADFREE, "%s of a block that belongs to other live data, not to this call", size ? "resize" : "release");
            if (!size) return nullptr;
        }
    }
    if (size == 0) {
        if (b) { size_t n = b->size; ev(0xF0, b->id); delBlk(b); rawFree(e, (u8 *)ptr, n); }
        return nullptr;
    }
    reenter(op, 1, op->cnt.calloc_);
    if (callocFault(op, size)) return nullptr;
    if (!b) {
        u8 *p = rawNew(e, size);
        Blk *nb = addBlk(p, size, e, false, &op->client);
        ev(0xA0, size); (void)nb;
        return p;
    }
    size_t old = b->size;
    u8 *q = rawResize(e, (u8 *)ptr, old, size);
    ev(0xA2, size);
    if (q != ptr) { blocks.erase(ptr); b->p = q; blocks[q] = b; }
    b->size = size;
    return q;
}

// libc allocation calls made by libcyaml itself
static void *cAlloc(size_t n, bool zero) {
    OpCtx *op = tl_op;
    if (!op || op->inDefault) return zero ? calloc(1, n ? n : 1) : malloc(n ? n : 1);
    violate(O_ALLOC, "library allocated %zu bytes from the C library instead of the client's allocator", n);
    if (callocFault(op, n)) { errno = ENOMEM; return nullptr; }
    u8 *p = (u8 *)malloc(n ? n : 1);
    memset(p, zero ? 0 : 0xA5, n);
    addBlk(p, n, nullptr, true, &op->ylib);
    return p;
}
extern "C" {
void *simc_malloc(size_t n) { return cAlloc(n, false); }
void *simc_calloc(size_t a, size_t b) { return cAlloc(a * b, true); }
void simc_free(void *p) {
    OpCtx *op = tl_op;
    if (!p) return;
    if (!op || op->inDefault) { free(p); return; }
    violate(O_ALLOC, "library released memory through the C library instead of the client's allocator");
    Blk *b = findBlk(p);
    if (b && b->y) { delBlk(b); free(p); }
    else if (b && b->env) {       // the program would corrupt the client's heap; keep running deterministically
        Env *e = b->env; size_t n = b->size; delBlk(b); rawFree(e, (u8 *)p, n);
    } else violate(O_BADFREE, "free() of an unknown pointer");
}
void *simc_realloc(void *p, size_t n) {
    OpCtx *op = tl_op;
    if (!op || op->inDefault) {
        if (n == 0 && op && op->inDefault) { free(p); return nullptr; }
        return realloc(p, n);
    }
    if (!p) return cAlloc(n, false);
    violate(O_ALLOC, "library resized memory through the C library instead of the client's allocator");
    Blk *b = findBlk(p);
    if (!b || !b->y) return nullptr;
    if (callocFault(op, n)) return nullptr;
    u8 *q = (u8 *)malloc(n ? n : 1);
    memcpy(q, p, std::min(n, b->size));
    delBlk(b); free(p);
    addBlk(q, n, nullptr, true, &op->ylib);
    return q;
}
char *simc_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)cAlloc(n, false); if (p) memcpy(p, s, n); return p; }
char *simc_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)cAlloc(n + 1, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

// ---- libyaml's own allocations
static bool yallocFault(OpCtx *op) {
    i64 k = op->cnt.yalloc++;
    const FaultPlan &p = op->plan;
    if (FaultPlan::at(k, p.yallocK, p.yallocMore) || (p.yallocFrom && p.yallocK >= 0 && k > p.yallocK)) {
        fire(op, F_YALLOC); ev(0xB1, k);
        if (R->trace) tracef("      op%d: libyaml allocation #%lld refused", op->id, (long long)k);
        errno = ENOMEM;
        return true;
    }
    return false;
}
void *simy_malloc(size_t n) {
    OpCtx *op = tl_op;
    if (!op) return malloc(n ? n : 1);
    if (sched_on) schedPoint();
    if (yallocFault(op)) return nullptr;
    Dirty dirty{op};
    u8 *p = (u8 *)malloc(n ? n : 1);
    addBlk(p, n, nullptr, true, &op->ylib);
    return p;
}
void simy_free(void *p) {
    if (!p) return;
    OpCtx *op = tl_op;
    if (!op) { free(p); return; }
    Blk *b = findBlk(p);
    if (!b || !b->y) { violate(O_BADFREE, "libyaml release of a pointer that is not live (an event deleted twice or never created)"); return; }
    if (b->h != &op->ylib) violate(O_BADFREE, "libyaml release of memory of another call");
    delBlk(b); free(p);
}
void *simy_realloc(void *p, size_t n) {
    OpCtx *op = tl_op;
    if (!op) return realloc(p, n);
    if (!p) return simy_malloc(n);
    if (sched_on) schedPoint();
    if (yallocFault(op)) return nullptr;
    Blk *b = findBlk(p);
    if (!b || !b->y) { violate(O_BADFREE, "libyaml resize of a pointer that is not live"); return nullptr; }
    u8 *q = (u8 *)realloc(p, n ? n : 1);
    blocks.erase(p); b->p = q; b->size = n; blocks[q] = b;
    return q;
}
void *simy_calloc(size_t a, size_t b) { void *p = simy_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
char *simy_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)simy_malloc(n); if (p) memcpy(p, s, n); return p; }
}

// ------------------------------------------------------------------ streams
static std::vector<OpenStream *> streams;
struct Cookie { OpenStream *s; u64 pos; size_t ri, wi; };

static ssize_t ckRead(void *ck, char *buf, size_t n) {
    Cookie *c = (Cookie *)ck; OpCtx *op = c->s->op;
    if (sched_on) schedPoint();
    i64 k = op->cnt.reads++;
    reenter(op, 4, k);
    FaultPlan &p = op->plan;
    if (p.readErrK == k) {
        fire(op, F_READERR); ev(0xC1, k);
        if (R->trace) tracef("      op%d: read #%lld fails with errno %d", op->id, (long long)k, p.readErrno);
        errno = p.readErrno; return -1;
    }
    auto &d = op->disk->files[c->s->path].data;
    size_t left = c->pos < d.size() ? d.size() - c->pos : 0;
    size_t m = std::min(n, left);
    if (!p.rchunk.empty() && m) {
        u32 lim = p.rchunk[c->ri++ % p.rchunk.size()];
        if (lim && lim < m) { m = lim; fire(op, F_SHORTREAD); }
    }
    memcpy(buf, d.data() + c->pos, m);
    c->pos += m;
    ev(0xC0, m);
    Dirty dirty{op};
    return (ssize_t)m;
}
static ssize_t ckWrite(void *ck, const char *buf, size_t n) {
    Cookie *c = (Cookie *)ck; OpCtx *op = c->s->op;
    size_t done = 0;
    FaultPlan &p = op->plan;
    auto &f = op->disk->files[c->s->path];
    while (done < n) {
        if (sched_on) schedPoint();
        i64 k = op->cnt.writes++;
        reenter(op, 4, k);
        if (FaultPlan::at(k, p.writeErrK, p.writeMore)) {
            fire(op, F_WRITEERR); ev(0xD1, k);
            if (R->trace) tracef("      op%d: write #%lld fails with errno %d", op->id, (long long)k, p.writeErrno);
            errno = p.writeErrno; return (ssize_t)done;
        }
        size_t m = n - done;
        if (!p.wchunk.empty()) {
            u32 lim = p.wchunk[c->wi++ % p.wchunk.size()];
            if (lim && lim < m) { m = lim; fire(op, F_SHORTWRITE); }
        }
        if (p.space >= 0) {
            if (p.space == 0) {
                fire(op, F_NOSPACE); ev(0xD2, k); errno = ENOSPC;
                if (R->trace) tracef("      op%d: write #%lld: no space left", op->id, (long long)k);
                return (ssize_t)done;
            }
            if ((i64)m > p.space) { m = p.space; fire(op, F_SHORTWRITE); }
            p.space -= m;
        }
        DiskOp j; j.trunc = false; j.off = c->pos; j.data.assign((const u8 *)buf + done, (const u8 *)buf + done + m);
        if (f.data.size() < c->pos + m) f.data.resize(c->pos + m);
        memcpy(f.data.data() + c->pos, buf + done, m);
        op->disk->journal.push_back({c->s->path, std::move(j)});
        c->pos += m; done += m;
        ev(0xD0, m);
        if (p.dirtyErrno) errno = p.dirtyErrno;
    }
    return (ssize_t)done;
}
static int ckSeek(void *ck, off64_t *off, int wh) {
    Cookie *c = (Cookie *)ck;
    i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)c->pos : (i64)c->s->op->disk->files[c->s->path].data.size();
    if (base + *off < 0) { errno = EINVAL; return -1; }
    c->pos = base + *off; *off = c->pos; return 0;
}
static int ckClose(void *ck) {
    Cookie *c = (Cookie *)ck; OpCtx *op = c->s->op;
    int r = 0;
    op->cnt.closes++;
    if (op->plan.closeErr) { fire(op, F_CLOSE); ev(0xE1); errno = EIO; r = -1; if (R->trace) tracef("      op%d: close fails", op->id); }
    delete c;
    return r;
}
extern "C" FILE *simc_fopen(const char *path, const char *mode) {
    OpCtx *op = tl_op;
    if (!op || !op->disk) { violate(O_STREAM, "a file was opened by a call that has no file"); errno = EACCES; return nullptr; }
    if (sched_on) schedPoint();
    op->cnt.opens++;
    op->opens.push_back({path ? path : "(null)", mode ? mode : "(null)"});
    reenter(op, 4, -1);
    if (op->plan.openErr) { fire(op, F_OPEN); ev(0xE2); errno = op->plan.openErr; if (R->trace) tracef("      op%d: open fails", op->id); return nullptr; }
    std::string p = path ? path : "", m = mode ? mode : "";
    bool exists = op->disk->files.count(p);
    bool wr = m.find_first_of("wa+") != std::string::npos;
    char k = m.empty() ? 0 : m[0];
    if (k != 'r' && k != 'w' && k != 'a') { errno = EINVAL; return nullptr; }
    if (k == 'r' && !exists) { errno = ENOENT; op->fired[F_OPEN]++; return nullptr; }
    if (m.find('x') != std::string::npos && exists) { errno = EEXIST; op->fired[F_OPEN]++; return nullptr; }
    if (k == 'w') {
        DiskOp j; j.trunc = true; j.off = 0;
        op->disk->files[p].data.clear();
        op->disk->journal.push_back({p, j});
    } else if (!exists) op->disk->files[p];
    Cookie *c = new Cookie{nullptr, k == 'a' ? op->disk->files[p].data.size() : 0, 0, 0};
    OpenStream *s = new OpenStream{nullptr, p, wr, op};
    c->s = s;
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE *f = fopencookie(c, mode, io);
    s->f = f;
    if (op->plan.bufsize >= 0) {
        R->fired[F_BUFSIZE]++;
        if (op->plan.bufsize == 0) setvbuf(f, nullptr, _IONBF, 0);
        else setvbuf(f, nullptr, _IOFBF, op->plan.bufsize);
    }
    streams.push_back(s); op->open.push_back(s);
    ev(0xE0, hashBytes(p.data(), p.size()));
    return f;
}
extern "C" int simc_fclose(FILE *f) {
    OpCtx *op = tl_op;
    OpenStream *s = nullptr; size_t i = 0;
    for (; i < streams.size(); i++) if (streams[i]->f == f) { s = streams[i]; break; }
    if (!s) { violate(O_STREAM, "fclose of a stream that is not open (closed twice?)"); errno = EBADF; return EOF; }
    if (s->op != op) violate(O_STREAM, "fclose of a stream of another call");
    auto &ov = s->op->open;
    ov.erase(std::find(ov.begin(), ov.end(), s));
    streams.erase(streams.begin() + i);
    if (sched_on) schedPoint();
    i64 w0 = s->op->fired[F_WRITEERR] + s->op->fired[F_NOSPACE];
    int r = fclose(f);
    if (s->op->fired[F_WRITEERR] + s->op->fired[F_NOSPACE] > w0) probe(P_FLUSHFAIL);
    s->op->closedOk++;
    ev(0xE3, r);
    delete s;
    return r;
}
void abandonStreams(OpCtx *op) {
    while (!op->open.empty()) {
        OpenStream *s = op->open.back(); op->open.pop_back();
        streams.erase(std::find(streams.begin(), streams.end(), s));
        FaultPlan keep = op->plan; op->plan = FaultPlan();
        fclose(s->f);
        op->plan = keep;
        delete s;
    }
}

// ------------------------------------------------------------------ file system calls libcyaml has no business making
static int fsOp(const char *what, const char *a, const char *b, bool trunc) {
    OpCtx *op = tl_op;
    violate(O_DISK, "library called %s(\"%s\")", what, a ? a : "(null)");
    if (!op || !op->disk || !a) { errno = EACCES; return -1; }
    auto it = op->disk->files.find(a);
    if (it == op->disk->files.end()) { errno = ENOENT; return -1; }
    if (trunc) { it->second.data.clear(); return 0; }
    if (b) op->disk->files[b] = it->second;
    op->disk->files.erase(a);
    return 0;
}
// ------------------------------------------------------------------ standard output and error
static bool stdStream(FILE *f, const char *s, size_t n) {
    OpCtx *op = tl_op;
    if (!op || (f != stderr && f != stdout)) return false;
    if (f == stdout) violate(O_LOG, "library wrote to the standard output: %.*s", (int)std::min<size_t>(n, 100), s);
    else if (op->env->cfg.log_fn != cyaml_log) violate(O_LOG, "library wrote to the standard error stream although that is not its log: %.*s", (int)std::min<size_t>(n, 100), s);
    if (sched_on) schedPoint();
    op->errText.append(s, n);
    return true;
}
static int vOut(FILE *f, const char *fmt, va_list a) {
    OpCtx *op = tl_op;
    if (!op || (f != stderr && f != stdout)) return vfprintf(f, fmt, a);
    va_list b; va_copy(b, a);
    int n = vsnprintf(nullptr, 0, fmt, b); va_end(b);
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, fmt, a);
    stdStream(f, s.data(), n);
    return n;
}
extern "C" {
int simc_remove(const char *p) { return fsOp("remove", p, nullptr, false); }
int simc_unlink(const char *p) { return fsOp("unlink", p, nullptr, false); }
int simc_rename(const char *p, const char *q) { return fsOp("rename", p, q, false); }
int simc_truncate(const char *p, long) { return fsOp("truncate", p, nullptr, true); }
int simc_vfprintf(FILE *f, const char *fmt, va_list a) { return vOut(f, fmt, a); }
int simc_fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = vOut(f, fmt, a); va_end(a); return n; }
int simc_vprintf(const char *fmt, va_list a) { return vOut(stdout, fmt, a); }
int simc_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int n = vOut(stdout, fmt, a); va_end(a); return n; }
int simc_fputs(const char *s, FILE *f) { return stdStream(f, s, strlen(s)) ? 0 : fputs(s, f); }
int simc_fputc(int ch, FILE *f) { char b = (char)ch; return stdStream(f, &b, 1) ? ch : fputc(ch, f); }
int simc_putc(int ch, FILE *f) { return simc_fputc(ch, f); }
int simc_putchar(int ch) { return simc_fputc(ch, stdout); }
int simc_puts(const char *s) { return simc_fputs((std::string(s) + "\n").c_str(), stdout); }
size_t simc_fwrite(const void *p, size_t z, size_t n, FILE *f) { return stdStream(f, (const char *)p, z * n) ? n : fwrite(p, z, n, f); }
}

// ------------------------------------------------------------------ locale
// The C library's number conversions, in a locale whose decimal point is the plan's.
static const char *locPoint() { OpCtx *op = tl_op; if (!op || !op->plan.point) return nullptr; fire(op, F_LOCALE); return op->plan.point; }
template <class F> static auto locParse(const char *s, char **end, F conv) -> decltype(conv(s, end)) {
    const char *pt = locPoint();
    if (!pt) return conv(s, end);
    std::string t; std::vector<size_t> pos;            // s as the C locale would need it, and where each byte came from
    size_t n = strlen(s), m = strlen(pt); bool seen = false;
    for (size_t i = 0; i < n;) {
        pos.push_back(i);
        if (!seen && !strncmp(s + i, pt, m)) { t += '.'; i += m; seen = true; }
        else { t += s[i] == '.' ? '\x01' : s[i]; i++; }
    }
    pos.push_back(n);
    char *e = nullptr;
    auto v = conv(t.c_str(), &e);
    if (end) *end = (char *)s + pos[e - t.c_str()];
    return v;
}
static std::string locFormat(const char *fmt, va_list a) {
    va_list b; va_copy(b, a);
    int n = vsnprintf(nullptr, 0, fmt, b); va_end(b);
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, fmt, a); s.resize(n);
    bool flt = false;
    for (const char *p = fmt; *p; p++) if (*p == '%') { p++; while (*p && strchr("-+ #0123456789.*hlLqjzt'", *p)) p++; if (!*p) break; if (strchr("aAeEfFgG", *p)) flt = true; }
    const char *pt = flt ? locPoint() : nullptr;
    size_t d = pt ? s.find('.') : std::string::npos;
    if (d != std::string::npos) s.replace(d, 1, pt);
    return s;
}
extern "C" {
double simc_strtod(const char *s, char **end) { return locParse(s, end, [](const char *x, char **y) { return strtod(x, y); }); }
float simc_strtof(const char *s, char **end) { return locParse(s, end, [](const char *x, char **y) { return strtof(x, y); }); }
long double simc_strtold(const char *s, char **end) { return locParse(s, end, [](const char *x, char **y) { return strtold(x, y); }); }
double simc_atof(const char *s) { return simc_strtod(s, nullptr); }
int simc_vsprintf(char *o, const char *fmt, va_list a) { std::string s = locFormat(fmt, a); memcpy(o, s.c_str(), s.size() + 1); return (int)s.size(); }
int simc_vsnprintf(char *o, size_t n, const char *fmt, va_list a) {
    std::string s = locFormat(fmt, a);
    if (n) { size_t k = std::min(n - 1, s.size()); memcpy(o, s.data(), k); o[k] = 0; }
    return (int)s.size();
}
int simc_sprintf(char *o, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = simc_vsprintf(o, fmt, a); va_end(a); return n; }
int simc_snprintf(char *o, size_t z, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = simc_vsnprintf(o, z, fmt, a); va_end(a); return n; }
struct lconv *simc_localeconv(void) {
    static thread_local struct lconv l;
    l = *localeconv();
    if (const char *pt = locPoint()) { l.decimal_point = (char *)pt; l.thousands_sep = (char *)"."; }
    return &l;
}
}

// ------------------------------------------------------------------ log
extern "C" void sim_log(cyaml_log_t level, void *ctx, const char *fmt, va_list args) {
    OpCtx *op = tl_op;
    if (!op) { fprintf(stderr, "sim: log outside an operation\n"); abort(); }
    if (sched_on) schedPoint();
    Dirty dirty{op};
    if (ctx != (void *)&op->env->logTag) violate(O_LOG, "log function called with the wrong context");
    if (level < op->env->cfg.log_level) violate(O_LOG, "message of level %d delivered although the level is %d", (int)level, (int)op->env->cfg.log_level);
    if ((unsigned)level > CYAML_LOG_ERROR) violate(O_LOG, "message of unknown level %d", (int)level);
    char buf[2048];
    int n = vsnprintf(buf, sizeof buf, fmt, args);
    if (n < 0) violate(O_LOG, "malformed log format");
    if (strstr(buf, "(null)") && !strstr(fmt, "(null)")) {
        // glibc prints this for a NULL string argument (pointers print "(nil)")
        violate(O_LOG, "a NULL string was passed to the log format \"%s\"", fmt);
    }
    i64 k = op->cnt.logs++;
    if (level == CYAML_LOG_ERROR) op->errLogs++;
    if (op->keepLogs) op->logs.push_back({(int)level, buf});
    reenter(op, 2, k);
}

// ------------------------------------------------------------------ scheduler
namespace {
struct Th { pthread_t t; sem_t sem; std::function<void()> body; bool done = false; };
std::vector<Th *> ths;
const std::vector<SchedStep> *plan_;
size_t planPos; u64 slice; int cur = -1; sem_t mainSem;
thread_local int self_ = -1;

void nextSlice() {
    if (planPos < plan_->size()) slice = (*plan_)[planPos].slice; else slice = ~0ull;
}
int choose(bool mustChange) {
    std::vector<int> live;
    for (size_t i = 0; i < ths.size(); i++) if (!ths[i]->done && (!mustChange || (int)i != cur)) live.push_back(i);
    if (live.empty()) return -1;
    u32 pk = planPos < plan_->size() ? (*plan_)[planPos].pick : 0;
    planPos++;
    return live[pk % live.size()];
}
void *threadMain(void *a) {
    Th *t = (Th *)a;
    for (size_t i = 0; i < ths.size(); i++) if (ths[i] == t) self_ = i;
    while (sem_wait(&t->sem)) ;
    try { t->body(); } catch (RunAbort &) {}
    t->done = true;
    int n = choose(true);
    if (n < 0) { sem_post(&mainSem); return nullptr; }
    cur = n; nextSlice();
    sem_post(&ths[n]->sem);
    return nullptr;
}
}
void schedPoint() {
    if (!sched_on || self_ < 0) return;
    if (slice-- > 0 && slice != ~0ull) return;
    if (planPos >= plan_->size()) { slice = ~0ull - 1; return; }
    int me = self_;
    int n = choose(true);
    nextSlice();
    if (n < 0 || n == me) return;
    R->switches++; R->fired[F_PREEMPT]++;
    R->schedHash = mix(R->schedHash, mix((u64)me << 8 | n, tl_op ? tl_op->edgeHash : 0));
    if (tl_op && !strncmp(tl_op->name, "save", 4)) probe(P_SWITCH_IN_SAVE);
    ev(0x5C, (u64)me << 8 | n);
    if (R->trace) tracef("      switch: thread %d -> thread %d (op%d after %llu steps)", me, n, tl_op ? tl_op->id : -1, (unsigned long long)(tl_op ? tl_op->steps : 0));
    int e = errno;
    cur = n;
    sem_post(&ths[n]->sem);
    while (sem_wait(&ths[me]->sem)) ;
    errno = e;     // errno is per thread anyway
}
void runThreads(std::vector<std::function<void()>> bodies, const std::vector<SchedStep> &plan) {
    plan_ = &plan; planPos = 0; sem_init(&mainSem, 0, 0);
    ths.clear();
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (auto &b : bodies) { Th *t = new Th; t->body = b; sem_init(&t->sem, 0, 0); ths.push_back(t); }
    for (Th *t : ths) pthread_create(&t->t, &at, threadMain, t);
    pthread_attr_destroy(&at);
    sched_on = true; cur = -1;
    int n = choose(false);
    cur = n; nextSlice();
    sem_post(&ths[n]->sem);
    while (sem_wait(&mainSem)) ;
    sched_on = false;
    for (Th *t : ths) { pthread_join(t->t, nullptr); sem_destroy(&t->sem); delete t; }
    ths.clear(); sem_destroy(&mainSem);
}
