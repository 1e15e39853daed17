#pragma once
#include "sim.h"
#include "value.h"

struct Doc {
    Env *env = nullptr; Schema *S = nullptr; const SNode *n = nullptr;
    u8 *data = nullptr; unsigned count = 0;
    Val v; Holder h; bool zero = true;
    std::unique_ptr<u8[]> mem; size_t memLen = 0;      // caller-owned object of an in-place copy
    ~Doc();
};
typedef std::unique_ptr<Doc> DocP;

enum OpKind { K_LOAD_DATA, K_LOAD_FILE, K_SAVE_DATA, K_SAVE_FILE, K_COPY, K_COPY_INLINE, K_FREE, K__COUNT };
enum BadParam { BP_NONE, BP_CONFIG, BP_MEMFN, BP_SCHEMA, BP_COUNT, BP_DATA, BP_NONPTR, BP_TARGET, BP_NULLDST, BP_FREENULL, BP__COUNT };

struct OpSpec {
    OpKind kind = K_LOAD_DATA; Env *env = nullptr; Schema *S = nullptr; Disk *disk = nullptr; std::string path;
    const std::string *input = nullptr;
    Doc *src = nullptr;
    const RefResult *ref = nullptr;
    const RefSave *rsave = nullptr; bool carries = true;
    FaultPlan plan;
    BadParam bad = BP_NONE;
    bool badSchema = false;      // the schema contradicts itself: the caller judges the status
    bool keepLogs = false;
    unsigned weight = 0;         // schema weight for the step bound
};
struct OpRes {
    cyaml_err_t err = CYAML_OK;
    DocP out; std::string saved;
    u64 steps = 0, edgeHash = 0; Counters cnt; u32 fired[F__COUNT] = {0};
    std::vector<LogRec> logs; std::string errText;
    std::string logText() const;   // everything logged, addresses left out
    size_t journal0 = 0, journal1 = 0;
    bool isLoad = false;
    u64 outcome() const;          // hash of everything observable about the result
};
OpRes execOp(const OpSpec &s);
bool faultExplains(const u32 *fired, OpKind k, cyaml_err_t e);   // may the call fail with e because of the faults that fired?
bool checkDoc(Doc &d, Oracle o, const char *when);      // the document still holds exactly d.v
DocP makeDoc(Choices &c, const Feat &f, Env *e, Schema *S, Val v);   // a document built by the client
size_t valSize(const Val &v);
unsigned schemaWeight(const Schema &S);
const char *kindName(OpKind k);
void abandonStreams(OpCtx *op);
void dropHolder(Holder &h);
void resetBlocks();
void dropEnv(Env *e);
