// Deterministic simulator for libcyaml: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <memory>
#include <algorithm>
#include <cyaml/cyaml.h>
#include <yaml.h>

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ------------------------------------------------------------------ choices
// Every decision of a run is one draw.  0 is always the simplest alternative.
struct Choices {
    std::vector<u64> rec;          // what was decided
    const u64 *in = nullptr;       // decisions to replay
    size_t nIn = 0;
    bool replay = false;
    u64 s[2];
    void seed(u64 a, u64 b, u64 c);
    u64 next();
    u64 draw(u64 n);               // [0, n)
    bool chance(unsigned num, unsigned den);   // false is simplest
    i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)(hi - lo + 1)); }
    unsigned pick(std::initializer_list<unsigned> w);
    u64 logn(u64 maxbits);         // log-uniform in [0, 2^maxbits)
};

static inline u64 mix(u64 h, u64 v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ull);

// ------------------------------------------------------------------ oracles
enum Oracle {
    O_NONE, O_LEAK, O_LEAK_Y, O_BADFREE, O_MEM, O_OUTPUT, O_SOURCE, O_RESULT, O_MASKED,
    O_ERRCLASS, O_FILE, O_STREAM, O_CB, O_LOG, O_ALLOC, O_ZERO, O_RETRY, O_STEPS,
    O_DIVERGE, O_SERIAL, O_SAVE, O_SHARED, O_ROUNDTRIP, O_COPY, O_ALIAS, O_DEFAULT,
    O_CORRUPT, O_DISK, O_PARAM, O__COUNT
};
extern const char *const oracleName[O__COUNT];

// ------------------------------------------------------------------ schema model
struct Val {
    enum K : u8 { NUL, NUM, STR, MAP, SEQ, IGN } k = NUL;
    u64 n = 0;                 // raw little-endian bits of a number
    std::string s;
    std::vector<Val> kids;     // fields or entries
    static Val null() { return Val(); }
    static Val num(u64 x) { Val v; v.k = NUM; v.n = x; return v; }
    static Val str(std::string x) { Val v; v.k = STR; v.s = std::move(x); return v; }
    static Val seq() { Val v; v.k = SEQ; return v; }
    static Val map() { Val v; v.k = MAP; return v; }
    static Val ign() { Val v; v.k = IGN; return v; }
    bool operator==(const Val &o) const;
    bool operator!=(const Val &o) const { return !(*this == o); }
    std::string show(int budget = 400) const;
    u64 hash() const;
};

struct SNode;
struct Field {
    std::string key;
    SNode *val = nullptr;
    u32 off = 0, coff = 0; u8 csz = 0;
};
struct MapDef {
    std::vector<Field> fields;
    u32 size = 1, align = 1;
    std::vector<std::pair<u32, u32>> gaps;   // bytes no field or count covers
    cyaml_schema_field_t *cf = nullptr;      // materialised array
    bool done = false;
};
struct BitDef { std::string name; u8 off, bits; };

struct SNode {
    cyaml_type_e type = CYAML_INT;
    unsigned flags = 0;
    u32 dsize = 0;               // schema data_size
    u32 isize = 0, align = 1;    // size in its container (8 when a pointer)
    i64 imin = 0, imax = 0; u64 umin = 0, umax = 0;
    u32 smin = 0, smax = 0;      // string lengths or entry counts
    std::vector<std::pair<std::string, i64>> strs;
    std::vector<BitDef> bits;
    MapDef *map = nullptr;
    SNode *entry = nullptr;
    bool cb = false;
    bool hasDef = false; Val def;
    cyaml_schema_value_t *sv = nullptr;
    int id = 0;
    bool rec = false;            // leads back into an enclosing mapping
    bool ptr() const { return flags & CYAML_FLAG_POINTER; }
    bool opt() const { return flags & CYAML_FLAG_OPTIONAL; }
    bool nullable() const { return (flags & CYAML_FLAG_POINTER_NULL) == CYAML_FLAG_POINTER_NULL; }
    bool nullstr() const { return (flags & CYAML_FLAG_POINTER_NULL_STR) == CYAML_FLAG_POINTER_NULL_STR; }
    bool isSeq() const { return type == CYAML_SEQUENCE || type == CYAML_SEQUENCE_FIXED; }
    bool strict() const { return flags & CYAML_FLAG_STRICT; }
};

struct Feat {                    // per-run swarm switches
    unsigned depth = 3, width = 4;
    unsigned pOpt = 3, pPtr = 4, pDef = 3, pCb = 0, pNull = 3, pRec = 1;  // of 10
    bool bigMap = false, wideSeq = false, odd = false, utf8 = false, style = false, caseF = false, names = false;
    bool fixedFocus = false, ignoreF = true, smallCount = false;
    unsigned huge = 0;           // 1 long sequences, 2 wide mappings, 3 long strings, 4 many anchors, 6 a sequence of about 65536 entries
    unsigned deep = 0;           // nesting to aim for through recursive schemas
    unsigned types = 0xfff;
};

struct Schema {
    SNode *root = nullptr;
    std::vector<std::unique_ptr<SNode>> nodes;
    std::vector<std::unique_ptr<MapDef>> maps;
    std::vector<std::pair<void *, size_t>> mem;    // C memory pieces (for hashing)
    std::vector<std::pair<void *, size_t>> rw;     // default data
    std::unordered_map<const cyaml_schema_value_t *, SNode *> bySv;
    SNode *inlineRoot = nullptr;                    // same root without POINTER (copy into caller memory)
    u64 hash() const;
    ~Schema();
    void *alloc(size_t n, bool deflt = false);
    const char *str(const std::string &s);
    std::string show() const;
    bool anyDefault = false, anyCb = false;
};
std::unique_ptr<Schema> genSchema(Choices &c, const Feat &f);
u32 elemSize(const SNode *e);
u64 maskSize(u64 v, unsigned size);
i64 signExt(u64 v, unsigned size);

// a value the client may legally hold for node n
struct VGen { Choices &c; const Feat &f; int budget; unsigned depth = 0; bool forDefault = false; bool nonconf = false; };
bool countsFit(const SNode *n, const Val &v);
Val genVal(VGen &g, const SNode *n, bool field);
Val zeroVal(const SNode *n);
Val genNum(VGen &g, const SNode *n);
std::string genStr(Choices &c, const Feat &f, u32 min, u32 max);

// memory <-> Val.  alloc callback obtains pointee memory.
typedef std::function<void *(size_t)> AllocFn;
void storeVal(const SNode *n, u8 *at, const Val &v, const AllocFn &al, u8 *countAt, unsigned csz);

// ------------------------------------------------------------------ memory tracking
struct Env; struct OpCtx;
struct Holder;
struct Blk { u8 *p; size_t size; u64 id; Env *env; bool y; Holder *h; };
struct Holder { std::map<u64, Blk *> live; };
Blk *findBlk(const void *p);
void moveBlk(Blk *b, Holder *to);

enum AllocMode { AM_MOVE, AM_INPLACE, AM_REUSE, AM_DEFAULT, AM__COUNT };
struct Env {                 // a client: its allocator, log and validation contexts
    u64 magic = 0xC11E17;
    int mode = AM_MOVE; u8 fill = 0xA5;
    cyaml_config_t cfg;
    char logTag = 0, valTag = 0;      // addresses serve as contexts
    Schema *schema = nullptr;
    std::map<size_t, std::vector<u8 *>> freeList;
};
void *envAlloc(Env *e, Holder *h, size_t n);     // harness acting as the client
void envFree(Env *e, void *p);

// ------------------------------------------------------------------ disk
struct DiskOp { bool trunc; u64 off; std::vector<u8> data; };
struct SimFile { std::vector<u8> data; };
struct Disk {
    std::map<std::string, SimFile> files;
    std::vector<std::pair<std::string, DiskOp>> journal;
};

// ------------------------------------------------------------------ faults
enum FaultKind { F_CALLOC, F_YALLOC, F_OPEN, F_READERR, F_SHORTREAD, F_WRITEERR, F_NOSPACE,
                 F_SHORTWRITE, F_CLOSE, F_VETO, F_REENTER, F_CRASH, F_TORN, F_CORRUPT, F_TRUNC,
                 F_PREEMPT, F_MOVE, F_GARBAGE, F_REUSE, F_LOSTBLOCK, F_BUFSIZE, F_ERRNO, F_LOCALE, F__COUNT };
extern const char *const faultName[F__COUNT];

struct Counters { i64 calloc_ = 0, yalloc = 0, reads = 0, writes = 0, opens = 0, closes = 0, cbs = 0, logs = 0; };

struct FaultPlan {
    i64 callocK = -1, callocK2 = -1; bool callocFrom = false; size_t callocBig = 0;
    i64 yallocK = -1; bool yallocFrom = false;
    u64 callocMore = 0, yallocMore = 0, writeMore = 0;     // which of the 64 calls after the first failing one fail too
    int openErr = 0;
    i64 readErrK = -1; int readErrno = 5;
    std::vector<u32> rchunk, wchunk;   // sizes of successive reads/writes (cyclic, 0 = all)
    i64 writeErrK = -1; int writeErrno = 5;
    i64 space = -1;                    // bytes until the disk is full
    bool closeErr = false;
    i64 vetoK = -1;
    int bufsize = -1;                  // stdio buffer of the stream
    int dirtyErrno = 0;                // left in errno by the caller and by every seam that succeeds
    const char *point = nullptr;       // decimal point of the process's locale (NULL: ".")
    int reKind = 0; i64 reK = -1; std::function<void()> reFn;
    std::string show() const;
    bool any() const;
    static bool at(i64 k, i64 first, u64 more) { return first >= 0 && (k == first || (k > first && k - first <= 64 && more >> (k - first - 1) & 1)); }
};

struct CbRec { const SNode *n; Val v; u64 count = 0; };
struct LogRec { int level; std::string msg; };

struct OpenStream { FILE *f; std::string path; bool wr; OpCtx *op; };

struct OpCtx {
    int id = 0;
    const char *name = "";
    Env *env = nullptr;
    Disk *disk = nullptr;
    FaultPlan plan;
    Counters cnt;
    u32 fired[F__COUNT] = {0};
    u64 steps = 0, budget = 0;
    u64 edgeHash = 0;
    Holder client, ylib;
    const std::vector<CbRec> *expCbs = nullptr; size_t cbIdx = 0; bool cbCheck = false;
    std::vector<LogRec> logs;
    bool keepLogs = false; u64 errLogs = 0;
    std::string errText;               // what the library wrote to the standard error stream
    std::vector<std::pair<std::string, std::string>> opens;   // path, mode
    std::vector<OpenStream *> open;
    i64 closedOk = 0;
    bool inDefault = false;
    OpCtx *outer = nullptr;
    // callback value extraction
    std::string cbErr;
};
extern thread_local OpCtx *tl_op;

// ------------------------------------------------------------------ run state
struct Run {
    std::string prop;
    Choices c;
    Oracle viol = O_NONE; std::string violMsg;
    u64 hash = 0x1234567;
    u64 fp = 0;                      // fingerprint for distinctness
    bool trace = false;
    u64 steps = 0, enough = 3000000; u32 ops = 0, faultedOps = 0, okOps = 0, errOps = 0;
    u32 fired[F__COUNT] = {0};
    u32 errSeen[CYAML_ERR__COUNT] = {0};
    u32 probes[64] = {0};
    u64 switches = 0, schedHash = 0;
    bool nontrivial = false, styles = false;
    std::string sample;
    u32 otherAlarms[O__COUNT] = {0};
    u64 want = ~0ull;                // oracle classes that refute the property
};
extern Run *R;
void violate(Oracle o, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
extern char *simTr; extern u32 *simTrLen, simTrMax;      // shared with the supervisor, so a crash keeps its trace
void traceOut(const char *line);
void tracef(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
struct RunAbort {};
static inline void ev(u64 a, u64 b = 0) { R->hash = mix(mix(R->hash, a), b); }

enum Probe { P_ALIAS, P_NESTALIAS, P_DEFAULT, P_DEEPDEF, P_STACK16, P_FIELDS32, P_SEQ256, P_BIGFILE, P_FIXEDNEST,
             P_EMPTYSEQ, P_NULLPTR, P_VETO_MID, P_FAULT_IN_DEFAULT, P_FAULT_IN_REPLAY, P_SAVE_MULTIFLUSH, P_TORNLOAD_OK,
             P_CORRUPT_OK, P_CORRUPT_ERR, P_REENTER_SAVE, P_SWITCH_IN_SAVE, P_RECURSIVE, P_COPY_INLINE, P_MULTIDOC,
             P_UNKNOWNKEY, P_CASEFOLD, P_UTF16, P_MASKED_CHECKED, P_FLUSHFAIL, P_RETRY, P_COUNTWRAP,
             P_DEEPIGNORED, P_BADSCHEMA, P_ANCHORS64, P_SEQ4096, P_SEQ65536, P_FIELDS256, P_STRING64K, P_STACK64, P_OUT64K, P_EVENTS4096, P__COUNT };
extern const char *const probeName[P__COUNT];
static inline void probe(Probe p) { R->probes[p]++; }

// ------------------------------------------------------------------ scheduler
struct SchedStep { u32 slice; u32 pick; };
void runThreads(std::vector<std::function<void()>> bodies, const std::vector<SchedStep> &plan);
void schedPoint();

// ------------------------------------------------------------------ reference model
struct Ev { int t; bool hasAnchor = false; std::string anchor; std::string val; int style = 0; size_t pos = 0; unsigned line = 0, col = 0; };
struct EvList { std::vector<Ev> ev; bool error = false; };   // error: libyaml rejects what follows
EvList parseEvents(const u8 *p, size_t n);
struct RefResult {
    cyaml_err_t err = CYAML_OK;
    bool anyErr = false;             // the exact code is not specified
    Val val; unsigned count = 0;
    std::vector<CbRec> cbs;
    std::vector<std::string> path;   // mapping fields leading to the failing node
    std::vector<std::pair<std::pair<unsigned, unsigned>, std::pair<unsigned, unsigned>>> pathAt;   // line and column of each of their keys and values
    std::vector<std::pair<size_t, std::pair<unsigned, unsigned>>> entryAt;   // sequence entries leading to it: number, line and column
    std::vector<std::string> ignored;                    // keys whose values were skipped
    bool docErr = false;             // failure is due to the document
    bool repeated = false;           // it fails because a key is repeated
    bool unexplained = false;        // the library fails it without a message of its own
    bool tooBig = false, ambiguous = false;
    bool usedAlias = false, usedDefault = false, nestAlias = false, maxDepth16 = false, multiDoc = false;
    bool defaultedNonEmpty = false;
    size_t expanded = 0, anchors = 0;
    std::set<const void *> seen;     // schema nodes whose values were begun, and sequence fields that got an entry
};
RefResult refLoad(const Schema &s, unsigned cfgFlags, const EvList &e, bool track = false);
struct RefEv { int t = 0; std::string text; const SNode *num = nullptr; u64 n = 0; const SNode *style = nullptr; bool null = false; };
struct RefSave { cyaml_err_t err = CYAML_OK; std::vector<RefEv> ev; };
RefSave refSave(const SNode *root, const Val &v);
bool matchSaved(const RefSave &r, const EvList &e, std::string &why);
bool libyamlCarries(const RefSave &r, unsigned cfg);
bool matchStyle(const RefSave &r, const EvList &e, unsigned cfg, std::string &why);
cyaml_err_t refCopyErr(const SNode *n, const Val &v);     // CYAML_OK when a copy must succeed
bool foldEq(const std::string &a, const std::string &b);

// ------------------------------------------------------------------ documents
struct DNode {
    enum K { SC, SQ, MP, AL } k = SC;
    std::string text; int style = 0;     // 0 plain if possible, 1 single, 2 double, 3 literal
    std::string anchor; std::string tag;
    std::vector<DNode *> keys, kids; DNode *target = nullptr;
    bool flow = false;
};
struct DocGen {
    Choices &c; const Schema &s; const Feat &f; unsigned cfgFlags;
    unsigned pAlias = 0, pErr = 0, pComment = 0;   // of 100 / of 1000 / of 10
    bool flow = false, crlf = false, multiDoc = false, markers = false;
    int budget = 200; struct TooMany {};       // thrown when required nodes multiply out of hand
    std::vector<std::unique_ptr<DNode>> pool;
    std::vector<std::pair<const SNode *, DNode *>> anchored;
    int nextAnchor = 0, nextUnknown = 0; bool injected = false, giant = false;
    std::string text(); std::string expanded();   // both after build()
    DNode *root = nullptr;
    void build();
    DNode *mk(DNode::K k); DNode *value(const SNode *n, unsigned depth, bool field);
    DNode *junk(unsigned depth);
    std::vector<std::string> anchorNames; std::string anchorName(unsigned id);
    DNode *scalarFor(const SNode *n);
    void maybeAnchor(const SNode *n, DNode *d);
    std::string emit(bool expand);
    Choices *ec = nullptr;
};
std::string corrupt(Choices &c, const std::string &s, std::string &what);

// ------------------------------------------------------------------ per-property entry
void runProperty(const std::string &prop);
bool knownProperty(const std::string &p);
u64 propOracles(const std::string &p);
const char *propRule(const std::string &p);

// utilities for C seams
struct NoOp { OpCtx *save; NoOp() : save(tl_op) { tl_op = nullptr; } ~NoOp() { tl_op = save; } };
