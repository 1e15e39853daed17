// One operation of a client against the real library, with every generic check.
#include "ops.h"
#include <cerrno>
extern "C" { void *sim_mem(void *, void *, size_t); void sim_log(cyaml_log_t, void *, const char *, va_list); }

static const char *const kn[] = {"load_data", "load_file", "save_data", "save_file", "copy", "copy_into", "free"};
const char *kindName(OpKind k) { return kn[k]; }
Doc::~Doc() { dropHolder(h); }
size_t valSize(const Val &v) { size_t n = 1 + v.s.size() / 16; for (auto &k : v.kids) n += valSize(k); return n; }
unsigned schemaWeight(const Schema &S) {
    size_t w = 0;
    for (auto &n : S.nodes) {
        for (auto &s : n->strs) w += 40 + s.first.size() * 40;
        for (auto &b : n->bits) w += 40 + b.name.size() * 40;
        if (n->hasDef) w += 400 * valSize(n->def) + n->dsize;
    }
    for (auto &m : S.maps) for (auto &f : m->fields) w += 120 + f.key.size() * 40;
    return (unsigned)w;
}

static u64 hashDoc(const Doc *d) {
    u64 h = mix((u64)(uintptr_t)d->data, d->count);
    for (auto &b : d->h.live) h = hashBytes(b.second->p, b.second->size, h);
    if (d->mem) h = hashBytes(d->mem.get(), d->memLen, h);
    return h;
}
static void extractDoc(const SNode *n, u8 *const &data, const unsigned &count, Ext &x, Val &v) {
    const u8 *at = n->ptr() ? (const u8 *)&data : data;
    bool seq = n->type == CYAML_SEQUENCE;
    extractVal(n, at, seq ? (const u8 *)&count : nullptr, seq ? 4 : 0, x, v, 0);
}
bool checkDoc(Doc &d, Oracle o, const char *when) {
    Ext x; x.h = &d.h; x.zero = d.zero; Val v;
    extractDoc(d.n, d.data, d.count, x, v);
    if (!x.err.empty()) { violate(o, "%s: document is damaged: %s", when, x.err.c_str()); return false; }
    if (!sameVal(d.n, d.v, v)) { violate(o, "%s: document changed %s", when, diffVal(d.n, d.v, v).c_str()); return false; }
    return true;
}
DocP makeDoc(Choices &, const Feat &, Env *e, Schema *S, Val v) {
    DocP d(new Doc); d->env = e; d->S = S; d->n = S->root; d->v = v;
    storeVal(S->root, (u8 *)&d->data, v, [&](size_t z) { return envAlloc(e, &d->h, z); }, nullptr, 0);
    d->count = S->root->type == CYAML_SEQUENCE ? v.kids.size() : 0;
    return d;
}
u64 OpRes::outcome() const {
    u64 h = mix(77, err);
    h = hashBytes(saved.data(), saved.size(), h);
    if (out) { h = mix(h, out->v.hash()); h = mix(h, out->count); }
    return h;
}

std::string OpRes::logText() const {
    std::string in = errText, o;
    for (auto &l : logs) in += std::to_string(l.level) + l.msg;
    for (size_t i = 0; i < in.size();) {
        if (in[i] == '0' && i + 1 < in.size() && in[i + 1] == 'x') { o += '@'; i += 2; while (i < in.size() && isxdigit((u8)in[i])) i++; }
        else o += in[i++];
    }
    return o;
}
static bool yamlErr(cyaml_err_t e) {
    return e == CYAML_ERR_LIBYAML_PARSER || e == CYAML_ERR_LIBYAML_PARSER_INIT || e == CYAML_ERR_LIBYAML_EMITTER ||
           e == CYAML_ERR_LIBYAML_EMITTER_INIT || e == CYAML_ERR_LIBYAML_EVENT_INIT;
}
// may the call fail with e because of the faults that fired?
bool faultExplains(const u32 *f, OpKind k, cyaml_err_t e) {
    bool save = k == K_SAVE_DATA || k == K_SAVE_FILE;
    if (f[F_CALLOC] && e == CYAML_ERR_OOM) return true;
    if (f[F_YALLOC] && (e == CYAML_ERR_OOM || yamlErr(e))) return true;
    if (f[F_READERR] && (e == CYAML_ERR_LIBYAML_PARSER || e == CYAML_ERR_LIBYAML_PARSER_INIT)) return true;
    if (f[F_OPEN] && e == CYAML_ERR_FILE_OPEN) return true;
    if ((f[F_WRITEERR] || f[F_NOSPACE] || f[F_CLOSE]) && save && (e == CYAML_ERR_LIBYAML_EMITTER || e == CYAML_ERR_LIBYAML_EMITTER_INIT || e == CYAML_ERR_FILE_OPEN)) return true;
    if (f[F_VETO] && e == CYAML_ERR_INVALID_VALUE) return true;
    return false;
}
static bool faultErr(const OpCtx &op, OpKind k, cyaml_err_t e) { return faultExplains(op.fired, k, e); }
static bool fatalFired(const OpCtx &op) {
    static const int k[] = {F_CALLOC, F_YALLOC, F_READERR, F_OPEN, F_WRITEERR, F_NOSPACE, F_CLOSE, F_VETO};
    for (int i : k) if (op.fired[i]) return true;
    return false;
}
static cyaml_err_t badParamErr(const OpSpec &s) {
    bool load = s.kind == K_LOAD_DATA || s.kind == K_LOAD_FILE, free_ = s.kind == K_FREE;
    (void)load; (void)free_;
    switch (s.bad) {
    case BP_CONFIG: return CYAML_ERR_BAD_PARAM_NULL_CONFIG;
    case BP_MEMFN: return CYAML_ERR_BAD_CONFIG_NULL_MEMFN;
    case BP_SCHEMA: return CYAML_ERR_BAD_PARAM_NULL_SCHEMA;
    case BP_COUNT: return CYAML_ERR_BAD_PARAM_SEQ_COUNT;
    case BP_DATA: return CYAML_ERR_BAD_PARAM_NULL_DATA;
    case BP_NONPTR: return CYAML_ERR_TOP_LEVEL_NON_PTR;
    case BP_TARGET: return CYAML_ERR_DATA_TARGET_NON_NULL;
    case BP_NULLDST: return CYAML_ERR_BAD_PARAM_NULL_DATA;
    default: return CYAML_OK;
    }
}

OpRes execOp(const OpSpec &s) {
    OpRes r;
    OpCtx op;
    op.id = ++R->ops; op.name = kn[s.kind]; op.env = s.env;
    bool file = s.kind == K_LOAD_FILE || s.kind == K_SAVE_FILE;
    bool load = s.kind == K_LOAD_DATA || s.kind == K_LOAD_FILE, save = s.kind == K_SAVE_DATA || s.kind == K_SAVE_FILE;
    bool copy = s.kind == K_COPY || s.kind == K_COPY_INLINE;
    r.isLoad = load;
    op.disk = file ? s.disk : nullptr;
    op.plan = s.plan; op.keepLogs = s.keepLogs;
    op.budget = 60000000;
    op.outer = tl_op;
    OpCtx *prev = tl_op;
    tl_op = nullptr;
    const SNode *root = s.kind == K_COPY_INLINE ? s.S->inlineRoot : s.src ? s.src->n : s.S->root;
    if (load && s.ref) { op.expCbs = &s.ref->cbs; op.cbCheck = !s.ref->ambiguous; }

    // what must not change
    u64 schemaH = s.S->hash();
    cyaml_config_t cfgCopy = s.env->cfg;
    bool kept = s.src && (s.kind != K_FREE || s.bad != BP_NONE);       // the source document outlives the call
    u64 srcH = kept ? hashDoc(s.src) : 0;
    std::unique_ptr<u8[]> inBuf; size_t inLen = 0;
    if (s.kind == K_LOAD_DATA) { inLen = s.input->size(); inBuf.reset(new u8[inLen ? inLen : 1]); memcpy(inBuf.get(), s.input->data(), inLen); }
    u64 diskH = 0; std::map<std::string, u64> fh; bool existed = false; u64 fileH = 0;
    if (file) {
        for (auto &f : s.disk->files) { u64 h = hashBytes(f.second.data.data(), f.second.data.size()); if (f.first == s.path) { existed = true; fileH = h; } if (!(save && f.first == s.path)) diskH = mix(diskH, mix(hashBytes(f.first.data(), f.first.size()), h)); }
        r.journal0 = s.disk->journal.size();
    }
    // parameters
    cyaml_config_t badCfg = s.env->cfg;
    const cyaml_config_t *cfg = &s.env->cfg;
    if (s.bad == BP_CONFIG) cfg = nullptr;
    if (s.bad == BP_MEMFN) { badCfg.mem_fn = nullptr; cfg = &badCfg; }
    const cyaml_schema_value_t *sv = s.bad == BP_SCHEMA ? nullptr : s.bad == BP_NONPTR ? s.S->inlineRoot->sv : root->sv;
    static char sentinelObj;
    cyaml_data_t *const SENT = &sentinelObj;
    cyaml_data_t *data = SENT; unsigned count = 0xDEADBEEFu;
    char *out = (char *)SENT; size_t outLen = 0xFEEDFACEu;
    std::unique_ptr<u8[]> mem; size_t memLen = 0; u64 memH = 0;
    bool seqRoot = root->type == CYAML_SEQUENCE;
    unsigned srcCount = s.src ? s.src->count : 0;
    if (s.src && copy && root->type == CYAML_SEQUENCE_FIXED) srcCount = root->smax;
    if (s.bad == BP_COUNT) srcCount = seqRoot || (copy && root->type == CYAML_SEQUENCE_FIXED) ? 0 : 3;
    unsigned *countArg = seqRoot ? &count : nullptr;
    if (s.bad == BP_COUNT) countArg = seqRoot ? nullptr : &count;
    if (copy) data = nullptr;
    if (s.kind == K_COPY_INLINE) {
        const SNode *o = s.src->n;
        memLen = o->type == CYAML_STRING ? root->dsize : o->type == CYAML_SEQUENCE ? (size_t)o->dsize * srcCount : o->type == CYAML_SEQUENCE_FIXED ? (size_t)o->dsize * o->smax : o->dsize;
        mem.reset(new u8[memLen ? memLen : 1]); memset(mem.get(), 0x5C, memLen ? memLen : 1);
        memH = hashBytes(mem.get(), memLen);
        data = mem.get();
    }
    if (s.bad == BP_TARGET) data = SENT;
    if (s.bad == BP_NULLDST) data = nullptr;
    cyaml_data_t *const data0 = data;
    if (s.kind == K_FREE && s.bad == BP_NONE) while (!s.src->h.live.empty()) moveBlk(s.src->h.live.begin()->second, &op.client);
    ev(0x0100 + s.kind, op.id);

    tl_op = &op;
    errno = s.plan.dirtyErrno;
    if (errno) R->fired[F_ERRNO]++;
    switch (s.kind) {
    case K_LOAD_DATA: r.err = cyaml_load_data(inBuf.get(), inLen, cfg, sv, s.bad == BP_DATA ? nullptr : &data, countArg); break;
    case K_LOAD_FILE: r.err = cyaml_load_file(s.path.c_str(), cfg, sv, s.bad == BP_DATA ? nullptr : &data, countArg); break;
    case K_SAVE_DATA: r.err = cyaml_save_data(&out, &outLen, cfg, sv, s.bad == BP_DATA ? nullptr : s.src->data, srcCount); break;
    case K_SAVE_FILE: r.err = cyaml_save_file(s.path.c_str(), cfg, sv, s.bad == BP_DATA ? nullptr : s.src->data, srcCount); break;
    case K_COPY: case K_COPY_INLINE: r.err = cyaml_copy(cfg, sv, s.src->data, srcCount, s.bad == BP_DATA ? nullptr : &data); break;
    case K_FREE: r.err = s.bad == BP_FREENULL ? cyaml_free(cfg, sv, nullptr, 0) : cyaml_free(cfg, sv, s.src->data, s.src->count); break;
    default: break;
    }
    tl_op = nullptr;

    // ---------------------------------------------------------------- checks
    r.steps = op.steps; r.edgeHash = op.edgeHash; r.cnt = op.cnt; r.logs = std::move(op.logs); r.errText = std::move(op.errText);
    memcpy(r.fired, op.fired, sizeof r.fired);
    if ((unsigned)r.err < CYAML_ERR__COUNT) R->errSeen[r.err]++;
    ev(0x0200 + r.err, op.steps);
    bool fault = fatalFired(op);
    if (fault) R->faultedOps++;
    if (r.err == CYAML_OK) R->okOps++; else R->errOps++;
    const char *nm = kn[s.kind];
    if (R->trace) {
        std::string p = s.plan.show();
        tracef("    op%d %s%s%s%s faults{ %s } -> %s%s%s (%llu steps, %lld client allocations, %lld libyaml allocations, %lld callbacks)", op.id, nm, s.path.empty() ? "" : " ", s.path.c_str(),
               s.bad ? " (bad parameter)" : "", p.c_str(), cyaml_strerror(r.err), s.ref ? ", model: " : "", s.ref ? cyaml_strerror(s.ref->err) : "",
               (unsigned long long)op.steps, (long long)op.cnt.calloc_, (long long)op.cnt.yalloc, (long long)op.cnt.cbs);
    }
    if (r.err == CYAML_OK && save && s.kind == K_SAVE_DATA && outLen > 65536) probe(P_OUT64K);
    // streams
    if (!op.open.empty()) { violate(O_STREAM, "%s returned (%s) leaving %zu file%s open", nm, cyaml_strerror(r.err), op.open.size(), op.open.size() > 1 ? "s" : ""); abandonStreams(&op); }
    if (op.opens.size() > (file ? 1 : 0)) violate(O_STREAM, "%s opened %zu files", nm, op.opens.size());
    for (auto &o : op.opens) {
        if (o.first != s.path) violate(O_STREAM, "%s opened \"%s\" instead of \"%s\"", nm, o.first.c_str(), s.path.c_str());
        bool w = o.second.find_first_of("wa+x") != std::string::npos, tr = !o.second.empty() && o.second[0] == 'w';
        if (load && w) violate(O_STREAM, "a load opened its file for writing (mode \"%s\")", o.second.c_str());
        if (save && !tr) violate(O_STREAM, "a save opened its file with mode \"%s\", not for writing a fresh file", o.second.c_str());
    }
    if (file && r.err == CYAML_OK && op.opens.size() != 1) violate(O_STREAM, "%s succeeded without opening its file", nm);
    // disk
    if (file) {
        r.journal1 = s.disk->journal.size();
        u64 h = 0;
        for (auto &f : s.disk->files) if (!(save && f.first == s.path)) h = mix(h, mix(hashBytes(f.first.data(), f.first.size()), hashBytes(f.second.data.data(), f.second.data.size())));
        if (h != diskH && tl_op == nullptr && !prev && !op.outer) violate(O_DISK, "%s changed a file it must not write", nm);
        if (save && (op.opens.empty() || op.fired[F_OPEN])) {
            bool ex = s.disk->files.count(s.path); auto &d = s.disk->files[s.path].data;
            u64 fnow = hashBytes(d.data(), d.size());
            if (ex != existed || (ex && fnow != fileH)) violate(O_DISK, "%s failed before opening its file but changed it", nm);
            if (!ex) s.disk->files.erase(s.path);
        }
    }
    // what the caller owns
    if (s.S->hash() != schemaH) violate(O_SOURCE, "%s modified the schema", nm);
    if (memcmp(&cfgCopy, &s.env->cfg, sizeof cfgCopy)) { violate(O_SOURCE, "%s modified the configuration", nm); s.env->cfg = cfgCopy; }
    if (s.kind == K_LOAD_DATA && inLen && memcmp(inBuf.get(), s.input->data(), inLen)) violate(O_SOURCE, "%s modified the input buffer", nm);
    if (kept && hashDoc(s.src) != srcH) violate(O_SOURCE, "%s modified the source data", nm);
    // libyaml's memory
    if (!op.ylib.live.empty()) {
        violate(O_LEAK_Y, "%s (%s) left %zu blocks of the YAML library allocated", nm, cyaml_strerror(r.err), op.ylib.live.size());
    }
    dropHolder(op.ylib);
    // steps
    {
        u64 bound;
        if (load && s.ref) bound = 40000 + (s.ref->expanded + 60) * (800ull + s.weight) + (s.input ? s.input->size() : 60000) * 8ull + s.ref->expanded * s.ref->anchors * 60;
        else if (s.src) bound = 40000 + valSize(s.src->v) * (1500ull + s.weight);
        else bound = 60000000;
        if (op.steps > bound) violate(O_STEPS, "%s took %llu steps, more than %llu for its amount of work", nm, (unsigned long long)op.steps, (unsigned long long)bound);
    }
    // callbacks
    if (!load && op.cnt.cbs) violate(O_CB, "%s called %lld validation callbacks", nm, (long long)op.cnt.cbs);

    // outputs on failure
    if (r.err != CYAML_OK) {
        if (load && (data != SENT || count != 0xDEADBEEFu)) violate(O_OUTPUT, "%s failed (%s) but changed the caller's %s", nm, cyaml_strerror(r.err), data != SENT ? "data pointer" : "entry count");
        if (s.kind == K_SAVE_DATA && (out != (char *)SENT || outLen != 0xFEEDFACEu)) violate(O_OUTPUT, "save_data failed (%s) but changed the caller's %s", cyaml_strerror(r.err), out != (char *)SENT ? "output pointer" : "length");
        if (s.kind == K_COPY && data != data0) violate(O_OUTPUT, "copy failed (%s) but changed the caller's data pointer", cyaml_strerror(r.err));
        if (s.kind == K_COPY_INLINE && (data != data0 || hashBytes(mem.get(), memLen) != memH)) violate(O_OUTPUT, "copy into the caller's object failed (%s) but changed it", cyaml_strerror(r.err));
        if (s.kind == K_FREE && s.bad != BP_NONE) { }
        else if (!op.client.live.empty()) violate(O_LEAK, "%s failed (%s) leaving %zu blocks allocated, the first of %zu bytes", nm, cyaml_strerror(r.err), op.client.live.size(), op.client.live.begin()->second->size);
        dropHolder(op.client);
    }
    // success
    else if (load || copy) {
        DocP d(new Doc); d->env = s.env; d->S = s.S; d->n = root; d->data = (u8 *)data;
        d->count = load && seqRoot ? count : srcCount;
        if (root->type != CYAML_SEQUENCE) d->count = 0;
        d->zero = load || s.src->zero;
        bool okPtr = true;
        if (load && data == SENT) { violate(O_RESULT, "%s succeeded without setting the data pointer", nm); okPtr = false; }
        if (load && seqRoot && count == 0xDEADBEEFu) { violate(O_RESULT, "%s succeeded without setting the entry count", nm); okPtr = false; }
        if (s.kind == K_COPY_INLINE && data != mem.get()) violate(O_OUTPUT, "copy into the caller's object replaced the caller's pointer");
        if (okPtr) {
            Ext x; x.h = &op.client; x.zero = d->zero;
            extractDoc(root, d->data, d->count, x, d->v);
            if (!x.err.empty()) violate(x.shared ? O_SHARED : x.dangling ? O_MEM : copy ? O_COPY : O_RESULT, "%s result: %s", nm, x.err.c_str());
            else {
                if (!x.nonzero.empty()) violate(O_ZERO, "%s result: %s are not zero", nm, x.nonzero.c_str());
                if (x.seen.size() != op.client.live.size()) {
                    size_t lost = op.client.live.size() - x.seen.size();
                    u64 id = 0; size_t sz = 0; for (auto &b : op.client.live) if (!x.seen.count(b.first)) { id = b.first; sz = b.second->size; break; }
                    (void)id;
                    violate(O_LEAK, "%s succeeded leaving %zu blocks unreachable from the data, the first of %zu bytes", nm, lost, sz);
                }
            }
        }
        while (!op.client.live.empty()) moveBlk(op.client.live.begin()->second, &d->h);
        if (mem) { d->mem = std::move(mem); d->memLen = memLen; }
        r.out = std::move(d);
    } else if (save) {
        if (s.kind == K_SAVE_DATA) {
            Blk *b = out == (char *)SENT ? nullptr : findBlk(out);
            if (!b || b->y || b->h != &op.client || b->size < outLen) violate(O_MEM, "save_data output is not a live client block of at least its length");
            else {
                r.saved.assign(out, outLen);
                envFree(s.env, out);
            }
        } else { auto &d = s.disk->files[s.path].data; r.saved.assign((char *)d.data(), d.size()); }
        if (!op.client.live.empty()) { violate(O_LEAK, "%s succeeded leaving %zu blocks allocated, the first of %zu bytes", nm, op.client.live.size(), op.client.live.begin()->second->size); dropHolder(op.client); }
    } else if (s.kind == K_FREE) {
        if (s.bad == BP_NONE) {
            if (!op.client.live.empty()) { violate(O_LEAK, "free left %zu blocks of the document allocated, the first of %zu bytes", op.client.live.size(), op.client.live.begin()->second->size); dropHolder(op.client); }
            s.src->data = nullptr; s.src->v = Val::null();
        }
    }
    if (s.bad == BP_NONE || s.kind != K_FREE) dropHolder(op.client);

    if (r.err == CYAML_OK && !fault && op.errLogs) violate(O_LOG, "%s succeeded and logged %llu messages at the error level", nm, (unsigned long long)op.errLogs);

    // ---------------------------------------------------------------- against the model
    if (s.bad != BP_NONE) {
        cyaml_err_t want = badParamErr(s);
        if (s.bad == BP_NULLDST && refCopyErr(s.src->n, s.src->v) != CYAML_OK) want = refCopyErr(s.src->n, s.src->v);      // found first
        if (r.err != want && !(fault && (faultErr(op, s.kind, r.err))) && !(op.fired[F_OPEN] && r.err == CYAML_ERR_FILE_OPEN)) violate(O_PARAM, "%s with a bad parameter returned %s instead of %s", nm, cyaml_strerror(r.err), cyaml_strerror(want));
        tl_op = prev;
        return r;
    }
    if (s.badSchema) { tl_op = prev; return r; }
    if (load && s.ref && !s.ref->tooBig) {
        const RefResult &m = *s.ref;
        bool match = m.err == r.err || (m.anyErr && r.err != CYAML_OK);
        if (m.ambiguous) {
            // the document uses something the properties leave open: only safety is judged
        } else if (!fault) {
            if (!match) violate(m.err == CYAML_OK || r.err == CYAML_OK ? O_RESULT : O_RESULT, "%s returned %s, the model says %s", nm, cyaml_strerror(r.err), cyaml_strerror(m.err));
            else if (r.err == CYAML_OK && r.out && (!sameVal(root, m.val, r.out->v) || (seqRoot && r.out->count != m.count)))
                violate(O_RESULT, "%s: wrong data %s", nm, diffVal(root, m.val, r.out->v).c_str());
            if (match && op.cnt.cbs != (i64)m.cbs.size() && !(m.anyErr)) violate(O_CB, "%s ran %lld validation callbacks, the document has %zu validated values%s", nm, (long long)op.cnt.cbs, m.cbs.size(), r.err ? " before its error" : "");
        } else if (r.err == CYAML_OK) {
            probe(P_MASKED_CHECKED);
            if (m.err != CYAML_OK) violate(O_MASKED, "%s succeeded under faults, although the document should fail with %s", nm, cyaml_strerror(m.err));
            else if (op.fired[F_VETO]) violate(O_CB, "%s succeeded although a validation callback rejected", nm);
            else if (op.fired[F_READERR] && false) {}
            else if (r.out && !sameVal(root, m.val, r.out->v)) violate(O_MASKED, "%s succeeded under faults with wrong data %s", nm, diffVal(root, m.val, r.out->v).c_str());
            else if (op.cnt.cbs != (i64)m.cbs.size()) violate(O_CB, "%s ran %lld validation callbacks, the document has %zu validated values", nm, (long long)op.cnt.cbs, m.cbs.size());
        } else {
            if (!match && !faultErr(op, s.kind, r.err)) violate(op.fired[F_VETO] ? O_CB : O_ERRCLASS, "%s returned %s, which neither the document nor the faults explain", nm, cyaml_strerror(r.err));
            if (op.fired[F_VETO] && op.cnt.cbs != s.plan.vetoK + 1) violate(O_CB, "%s ran %lld more validation callbacks after one rejected", nm, (long long)(op.cnt.cbs - s.plan.vetoK - 1));
        }
        if (op.fired[F_OPEN] && r.err != CYAML_ERR_FILE_OPEN && !op.fired[F_YALLOC]) violate(O_ERRCLASS, "%s returned %s although its file could not be opened", nm, cyaml_strerror(r.err));
        // the keys whose values were skipped, when the client asks for them
        if (!fault && !m.ambiguous && m.err == CYAML_OK && r.err == CYAML_OK && m.ignored.size() && s.keepLogs && s.env->cfg.log_fn && s.env->cfg.log_level <= CYAML_LOG_WARNING && (s.env->cfg.flags & CYAML_CFG_IGNORED_KEY_WARNING)) {
            size_t i = 0;
            for (auto &k : m.ignored) {
                std::string want = k.substr(0, 500);
                while (i < r.logs.size() && (r.logs[i].level != CYAML_LOG_WARNING || r.logs[i].msg.find(want) == std::string::npos)) i++;
                if (i == r.logs.size()) { violate(O_LOG, "no warning names the ignored key \"%s\"", want.c_str()); break; }
                i++;
            }
        }
        // logged location
        if (!fault && !m.ambiguous && m.err != CYAML_OK && m.docErr && match && !m.anyErr && s.keepLogs && s.env->cfg.log_fn && s.env->cfg.log_level <= CYAML_LOG_ERROR) {
            std::vector<std::string> er;
            for (auto &l : r.logs) if (l.level == CYAML_LOG_ERROR) er.push_back(l.msg);
            if (er.empty()) violate(O_LOG, "load failed because of the document (%s) without an error-level message", cyaml_strerror(r.err));
            else {
                bool explained = false;
                for (auto &x : er) { if (x.find("Backtrace") != std::string::npos) break; explained = true; break; }
                // codes that the library explains before it lists where it was
                bool should = r.err == CYAML_ERR_INVALID_KEY || r.err == CYAML_ERR_MAPPING_FIELD_MISSING || r.err == CYAML_ERR_INVALID_ALIAS || r.err == CYAML_ERR_SEQUENCE_ENTRIES_MIN ||
                              r.err == CYAML_ERR_SEQUENCE_ENTRIES_MAX || r.err == CYAML_ERR_STRING_LENGTH_MIN || r.err == CYAML_ERR_STRING_LENGTH_MAX || m.repeated || (r.err == CYAML_ERR_INVALID_VALUE && !m.unexplained);
                if (should && !explained) violate(O_LOG, "load failed because of the document (%s) and no error-level message says why", cyaml_strerror(r.err));
                size_t i = 0;
                for (size_t p = m.path.size(); p > 0; p--) {
                    while (i < er.size() && er[i].find(m.path[p - 1]) == std::string::npos) i++;
                    if (i == er.size()) { violate(O_LOG, "backtrace of a failed load (%s) does not name mapping field \"%s\" (depth %zu of %zu)", cyaml_strerror(r.err), m.path[p - 1].c_str(), p, m.path.size()); break; }
                    i++;
                }
                // and names no field that does not lead there
                std::vector<std::string> names; std::vector<std::pair<unsigned, unsigned>> at; bool fmt = false, bt = false, pos = true;
                for (auto &x : er) {
                    if (x.find("Backtrace") != std::string::npos) { bt = true; continue; }
                    size_t q = x.find("in mapping field '");
                    if (!bt || q == std::string::npos) continue;
                    size_t z = x.rfind("' (line");
                    if (z == std::string::npos || z < q + 18) continue;
                    fmt = true; names.push_back(x.substr(q + 18, z - q - 18));
                    unsigned ln = 0, co = 0;
                    if (sscanf(x.c_str() + z, "' (line: %u, column: %u)", &ln, &co) == 2) at.push_back({ln - 1, co - 1}); else pos = false;
                }
                std::vector<std::string> rev(m.path.rbegin(), m.path.rend());
                // an error found while the next key is read may still show the key before it
                bool between = m.err == CYAML_ERR_MAPPING_FIELD_MISSING || m.err == CYAML_ERR_LIBYAML_PARSER || m.err == CYAML_ERR_ALIAS || m.err == CYAML_ERR_INVALID_ALIAS;
                if (fmt && names != rev && !(between && names.size() == rev.size() + 1 && std::equal(rev.begin(), rev.end(), names.begin() + 1))) {
                    std::string g; for (auto &x : names) g += " \"" + x.substr(0, 40) + "\"";
                    violate(O_LOG, "backtrace of a failed load (%s) names%s, where %zu fields lead to the failing node", cyaml_strerror(r.err), g.c_str(), rev.size());
                }
                std::vector<std::pair<size_t, std::pair<unsigned, unsigned>>> ents; bool entPos = true;
                for (auto &x : er) {
                    size_t q = x.find("in sequence entry '");
                    if (!bt || q == std::string::npos || x.find("in mapping field '") != std::string::npos) continue;
                    unsigned long num; unsigned ln = 0, co = 0;
                    if (sscanf(x.c_str() + q, "in sequence entry '%lu' (line: %u, column: %u)", &num, &ln, &co) == 3) ents.push_back({num, {ln - 1, co - 1}}); else entPos = false;
                }
                // an error between the entries of a sequence still shows the entry before it
                if (ents.size() == m.entryAt.size() + 1) ents.erase(ents.begin());
                if (entPos && ents.size() == m.entryAt.size()) for (size_t k = m.err == CYAML_ERR_SEQUENCE_ENTRIES_MAX ? 1 : 0; k < ents.size() && !R->viol; k++) {
                    auto &w = m.entryAt[ents.size() - 1 - k];
                    if (ents[k].second != w.second || (ents[k].first != w.first && ents[k].first != w.first + 1)) violate(O_LOG, "backtrace of a failed load (%s) puts sequence entry %zu at line %u column %u instead of entry %zu or %zu at line %u column %u", cyaml_strerror(r.err), ents[k].first, ents[k].second.first + 1, ents[k].second.second + 1, w.first, w.first + 1, w.second.first + 1, w.second.second + 1);
                }
                // each where its key or value starts; a repeated key is refused before it counts as the current one
                if (fmt && pos && names == rev) for (size_t k = m.err == CYAML_ERR_UNEXPECTED_EVENT ? 1 : 0; k < at.size() && !R->viol; k++) {
                    auto &w = m.pathAt[at.size() - 1 - k];
                    if (at[k] != w.first && at[k] != w.second) violate(O_LOG, "backtrace of a failed load (%s) puts field \"%s\" at line %u column %u instead of line %u column %u or line %u column %u", cyaml_strerror(r.err), names[k].c_str(), at[k].first + 1, at[k].second + 1, w.first.first + 1, w.first.second + 1, w.second.first + 1, w.second.second + 1);
                }
            }
        }
    }
    if (save && s.rsave) {
        const RefSave &m = *s.rsave;
        if (!s.carries) { /* the YAML library cannot represent these scalars in the requested style */ }
        else if (r.err == CYAML_OK) {
            if (m.err != CYAML_OK) violate(fault ? O_MASKED : O_SAVE, "%s succeeded although the data cannot be expressed (%s)", nm, cyaml_strerror(m.err));
            else {
                std::string why;
                EvList l = parseEvents((const u8 *)r.saved.data(), r.saved.size());
                if (!matchSaved(m, l, why)) violate(fault ? (s.kind == K_SAVE_FILE ? O_FILE : O_MASKED) : O_SAVE, "%s succeeded%s but %s", nm, fault ? " under faults" : "", why.c_str());
                else if (R->styles && !matchStyle(m, l, s.env->cfg.flags, why)) violate(O_SAVE, "%s succeeded but its output %s", nm, why.c_str());
                else if (fault) {
                    probe(P_MASKED_CHECKED);
                    if (s.kind == K_SAVE_FILE && (op.fired[F_WRITEERR] || op.fired[F_NOSPACE] || op.fired[F_CLOSE])) {
                        // content is whole, yet the storage reported an error for it
                        violate(O_FILE, "save_file returned success although the storage reported a failure");
                    }
                }
            }
        } else if (!fault) {
            if (r.err != m.err) violate(O_SAVE, "%s returned %s, the model says %s", nm, cyaml_strerror(r.err), cyaml_strerror(m.err));
        } else if (r.err != m.err && !faultErr(op, s.kind, r.err)) violate(O_ERRCLASS, "%s returned %s, which neither the data nor the faults explain", nm, cyaml_strerror(r.err));
        if (op.fired[F_OPEN] && r.err != CYAML_ERR_FILE_OPEN && !op.fired[F_YALLOC]) violate(O_ERRCLASS, "%s returned %s although its file could not be opened", nm, cyaml_strerror(r.err));
    }
    if (copy) {
        cyaml_err_t want = refCopyErr(s.src->n, s.src->v);
        if (r.err == CYAML_OK) {
            if (want != CYAML_OK) violate(fault ? O_MASKED : O_COPY, "copy succeeded although a required value is missing (%s)", cyaml_strerror(want));
            else if (r.out && !sameVal(root, s.src->v, r.out->v)) violate(fault ? O_MASKED : O_COPY, "copy differs from its source %s", diffVal(root, s.src->v, r.out->v).c_str());
        } else if (!fault) { if (r.err != want) violate(O_COPY, "copy returned %s, expected %s", cyaml_strerror(r.err), cyaml_strerror(want)); }
        else if (r.err != want && !faultErr(op, s.kind, r.err)) violate(O_ERRCLASS, "copy returned %s, which neither the data nor the faults explain", cyaml_strerror(r.err));
    }
    if (s.kind == K_FREE && r.err != CYAML_OK) violate(O_RESULT, "free returned %s", cyaml_strerror(r.err));
    tl_op = prev;
    return r;
}
