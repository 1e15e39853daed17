// Reading library-produced memory, validation callbacks, mutation.
#include "sim.h"
#include "value.h"
#include <cerrno>

static bool zeroRange(const u8 *p, size_t n) { for (size_t i = 0; i < n; i++) if (p[i]) return false; return true; }

// avail: bytes known to be readable at `at`
void extractVal(const SNode *n, const u8 *at, const u8 *countAt, unsigned csz, Ext &x, Val &out, unsigned depth) {
    if (n->type == CYAML_IGNORE) { out = Val::ign(); return; }
    if (depth > 1000) { x.bad("data structure does not terminate"); out = Val::null(); return; }
    size_t avail = ~0ull;
    u64 count = 0;
    if (n->type == CYAML_SEQUENCE && countAt) memcpy(&count, countAt, csz);
    if (n->ptr()) {
        u8 *p; memcpy(&p, at, 8);
        if (!p) {
            if (n->type == CYAML_SEQUENCE && count) x.bad("sequence pointer is NULL but its count is %llu", (unsigned long long)count);
            out = Val::null(); return;
        }
        Blk *b = findBlk(p);
        if (!b || b->y) { x.bad("pointer in the data does not lead to a live client block (%s)", n->type == CYAML_STRING ? "string" : n->isSeq() ? "sequence" : n->type == CYAML_MAPPING ? "mapping" : "scalar"); x.dangling = true; out = Val::null(); return; }
        if (b->h != x.h) { x.shared = true; x.bad("pointer in the data leads to memory owned by other live data"); out = Val::null(); return; }
        if (!x.seen.insert(b->id).second) { x.shared = true; x.bad("one block is reachable twice in the data"); out = Val::null(); return; }
        at = p; avail = b->size;
    }
    size_t need = 0;
    switch (n->type) {
    case CYAML_STRING: need = 1; break;
    case CYAML_SEQUENCE:
        if (count > 1000000 || (n->ptr() && n->dsize && count > avail / n->dsize)) { x.bad("sequence count %llu does not fit its block of %zu bytes", (unsigned long long)count, avail); out = Val::null(); return; }
        if (!n->ptr() && count > n->smax) { x.bad("embedded sequence count %llu above its maximum", (unsigned long long)count); out = Val::null(); return; }
        need = (size_t)n->dsize * count; break;
    case CYAML_SEQUENCE_FIXED: need = (size_t)n->dsize * n->smax; break;
    default: need = n->dsize;
    }
    if (avail < need) { x.bad("block of %zu bytes where %zu are needed", avail, need); out = Val::null(); return; }
    switch (n->type) {
    case CYAML_STRING: {
        size_t lim = n->ptr() ? avail : n->dsize;
        size_t l = strnlen((const char *)at, lim);
        if (l == lim) { x.bad("string without terminator"); out = Val::null(); return; }
        out = Val::str(std::string((const char *)at, l));
        if (!n->ptr() && x.zero && !zeroRange(at + l, n->dsize - l)) x.nz("bytes after an embedded string");
        break; }
    case CYAML_MAPPING:
        out = Val::map(); out.kids.resize(n->map->fields.size());
        for (size_t i = 0; i < n->map->fields.size(); i++) {
            const Field &f = n->map->fields[i];
            extractVal(f.val, at + f.off, f.csz ? at + f.coff : nullptr, f.csz, x, out.kids[i], depth + 1);
        }
        if (x.zero) for (auto &g : n->map->gaps) if (!zeroRange(at + g.first, g.second)) x.nz("bytes of a structure that no field describes");
        break;
    case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
        u64 k = n->type == CYAML_SEQUENCE ? count : n->smax;
        if (n->ptr() && k == 0) { out = Val::null(); break; }
        out = Val::seq(); out.kids.resize(k);
        for (u64 i = 0; i < k; i++) extractVal(n->entry, at + (size_t)n->dsize * i, nullptr, 0, x, out.kids[i], depth + 1);
        if (!n->ptr() && depth && x.zero && countAt && !zeroRange(at + need, (size_t)n->dsize * n->smax - need)) x.nz("unused entries of an embedded sequence");
        break; }
    default: { u64 v = 0; memcpy(&v, at, n->dsize); out = Val::num(v); }
    }
}

// ------------------------------------------------------------------ validation callbacks
static bool onCb(void *ctx, const cyaml_schema_value_t *schema, std::function<void(const SNode *, Val &, Ext &, u64 &)> get, const char *kind) {
    OpCtx *op = tl_op;
    if (!op) { fprintf(stderr, "sim: validation outside an operation\n"); abort(); }
    if (ctx != (void *)&op->env->valTag) violate(O_CB, "validation callback called with the wrong context");
    auto it = op->env->schema->bySv.find(schema);
    i64 k = op->cnt.cbs++;
    if (it == op->env->schema->bySv.end() || !it->second->cb) {
        violate(O_CB, "%s validation callback called with a schema that is not one of the schema's values", kind);
        return true;
    }
    const SNode *n = it->second;
    Val v; u64 count = 0; Ext x; x.h = &op->client; x.zero = false;
    get(n, v, x, count);
    ev(0xCB, k);
    struct Dirty { OpCtx *op; ~Dirty() { if (op->plan.dirtyErrno) errno = op->plan.dirtyErrno; } } dirty{op};
    if (op->cbCheck && op->expCbs) {
        if ((size_t)k >= op->expCbs->size()) {
            violate(O_CB, "validation callback #%lld (%s) called although the document has only %zu validated values", (long long)k, kind, op->expCbs->size());
        } else {
            const CbRec &e = (*op->expCbs)[k];
            if (e.n != n) violate(O_CB, "validation callback #%lld is for schema node %d (%s), expected node %d", (long long)k, n->id, kind, e.n->id);
            else if (!x.err.empty()) violate(O_CB, "validation callback #%lld (%s) saw unreadable data: %s", (long long)k, kind, x.err.c_str());
            else if (!sameVal(n, e.v, v) || e.count != count)
                violate(O_CB, "validation callback #%lld (%s, node %d) saw %s count %llu, expected %s count %llu", (long long)k, kind, n->id,
                        v.show(120).c_str(), (unsigned long long)count, e.v.show(120).c_str(), (unsigned long long)e.count);
        }
    }
    if (op->plan.reKind == 3 && op->plan.reK == k && op->plan.reFn) {
        auto fn = op->plan.reFn; op->plan.reFn = nullptr;
        op->fired[F_REENTER]++; R->fired[F_REENTER]++;
        ev(0x4E, k); fn(); tl_op = op;
    }
    if (op->plan.vetoK == k) {
        op->fired[F_VETO]++; R->fired[F_VETO]++; ev(0xCF, k);
        if (k > 0) probe(P_VETO_MID);
        if (R->trace) tracef("      op%d: validation callback #%lld (%s) rejects", op->id, (long long)k, kind);
        return false;
    }
    return true;
}
extern "C" {
bool cb_int(void *c, const cyaml_schema_value_t *s, int64_t v) {
    return onCb(c, s, [&](const SNode *n, Val &o, Ext &, u64 &) {
        o = Val::num(maskSize((u64)v, n->dsize));
        if (n->type == CYAML_FLAGS ? (u64)v != maskSize((u64)v, n->dsize) : signExt((u64)v, n->dsize) != v) { o = Val::str("value does not fit"); }
    }, "integer");
}
bool cb_uint(void *c, const cyaml_schema_value_t *s, uint64_t v) {
    return onCb(c, s, [&](const SNode *, Val &o, Ext &, u64 &) { o = Val::num(v); }, "unsigned");
}
bool cb_float(void *c, const cyaml_schema_value_t *s, double v) {
    return onCb(c, s, [&](const SNode *n, Val &o, Ext &, u64 &) {
        u64 b = 0;
        if (n->dsize == 4) { float x = (float)v; u32 q; memcpy(&q, &x, 4); b = q; if ((double)x != v && v == v) { o = Val::str("value is not what is stored"); return; } }
        else memcpy(&b, &v, 8);
        o = Val::num(b);
    }, "float");
}
bool cb_str(void *c, const cyaml_schema_value_t *s, const char *v) {
    return onCb(c, s, [&](const SNode *, Val &o, Ext &x, u64 &) { if (!v) { x.bad("NULL string"); return; } o = Val::str(v); }, "string");
}
bool cb_map(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *d) {
    return onCb(c, s, [&](const SNode *n, Val &o, Ext &x, u64 &) {
        if (!d) { x.bad("NULL mapping"); return; }
        SNode t = *n; t.flags &= ~(unsigned)CYAML_FLAG_POINTER_NULL_STR;
        extractVal(&t, (const u8 *)d, nullptr, 0, x, o, 0);
    }, "mapping");
}
bool cb_seq(void *c, const cyaml_schema_value_t *s, const cyaml_data_t *d, size_t count) {
    return onCb(c, s, [&](const SNode *n, Val &o, Ext &x, u64 &cnt) {
        cnt = count;
        o = Val::seq();
        if (count > 1000000) { x.bad("absurd count"); return; }
        if (count && !d) { x.bad("NULL start of %zu entries", count); return; }
        if (count && n->ptr()) {
            Blk *b = findBlk(d);
            if (!b || b->h != x.h || b->size < n->dsize * count) { x.bad("data pointer is not the start of the entries"); return; }
        }
        o.kids.resize(count);
        for (size_t i = 0; i < count; i++) extractVal(n->entry, (const u8 *)d + (size_t)n->dsize * i, nullptr, 0, x, o.kids[i], 1);
    }, "sequence");
}
}

// ------------------------------------------------------------------ comparison
static bool isNan(const SNode *n, u64 b) {
    if (n->dsize == 4) return (b & 0x7f800000) == 0x7f800000 && (b & 0x7fffff);
    return (b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (b & 0xfffffffffffffull);
}
bool sameVal(const SNode *n, const Val &a, const Val &b) {
    if (a.k != b.k) return false;
    switch (a.k) {
    case Val::NUM: return a.n == b.n || (n->type == CYAML_FLOAT && isNan(n, a.n) && isNan(n, b.n));
    case Val::STR: return a.s == b.s;
    case Val::MAP:
        if (a.kids.size() != b.kids.size()) return false;
        for (size_t i = 0; i < a.kids.size(); i++) if (!sameVal(n->map->fields[i].val, a.kids[i], b.kids[i])) return false;
        return true;
    case Val::SEQ:
        if (a.kids.size() != b.kids.size()) return false;
        for (size_t i = 0; i < a.kids.size(); i++) if (!sameVal(n->entry, a.kids[i], b.kids[i])) return false;
        return true;
    default: return true;
    }
}
std::string diffVal(const SNode *n, const Val &a, const Val &b, const std::string &at) {
    if (sameVal(n, a, b)) return "";
    if (a.k == b.k && (a.k == Val::MAP || a.k == Val::SEQ) && a.kids.size() == b.kids.size())
        for (size_t i = 0; i < a.kids.size(); i++) {
            const SNode *k = a.k == Val::MAP ? n->map->fields[i].val : n->entry;
            if (!sameVal(k, a.kids[i], b.kids[i])) return diffVal(k, a.kids[i], b.kids[i], at + "/" + (a.k == Val::MAP ? n->map->fields[i].key : std::to_string(i)));
        }
    return "at " + (at.empty() ? "/" : at) + ": expected " + a.show(150) + ", got " + b.show(150);
}

// ------------------------------------------------------------------ client-side mutation of a live document
struct Leaf { const SNode *n; u8 *at; Val *v; };
static void leaves(const SNode *n, u8 *at, Val &v, std::vector<Leaf> &out, unsigned d) {
    if (v.k == Val::NUL || v.k == Val::IGN || out.size() > 400 || d > 60) return;
    u8 *base = at;
    if (n->ptr()) memcpy(&base, at, 8);
    if (v.k == Val::MAP) { for (size_t i = 0; i < v.kids.size(); i++) leaves(n->map->fields[i].val, base + n->map->fields[i].off, v.kids[i], out, d + 1); return; }
    if (v.k == Val::SEQ) { for (size_t i = 0; i < v.kids.size(); i++) leaves(n->entry, base + (size_t)n->dsize * i, v.kids[i], out, d + 1); return; }
    out.push_back({n, n->type == CYAML_STRING && n->ptr() ? at : base, &v});
}
bool mutateDoc(Choices &c, const Feat &f, Env *e, Holder *h, const SNode *root, u8 *data, Val &v) {
    std::vector<Leaf> ls;
    u8 *p = data;
    leaves(root, (u8 *)&p, v, ls, 0);
    if (ls.empty() || !data) return false;
    Leaf l = ls[c.draw(ls.size())];
    VGen g{c, f, 5, 0, false, false};
    if (l.n->type == CYAML_STRING) {
        if (l.n == root && root->ptr()) return false;
        Val nv;
        for (int i = 0; i < 3; i++) { nv = genVal(g, l.n, false); if (nv.k == Val::STR) break; }
        if (nv.k != Val::STR) return false;
        if (l.n->ptr()) {
            u8 *old; memcpy(&old, l.at, 8);
            envFree(e, old);
            u8 *q = (u8 *)envAlloc(e, h, nv.s.size() + 1);
            memcpy(q, nv.s.c_str(), nv.s.size() + 1);
            memcpy(l.at, &q, 8);
        } else { memset(l.at, 0, l.n->dsize); memcpy(l.at, nv.s.c_str(), nv.s.size()); }
        *l.v = nv;
    } else {
        Val nv = genNum(g, l.n);
        memcpy(l.at, &nv.n, l.n->dsize);
        *l.v = nv;
    }
    return true;
}
