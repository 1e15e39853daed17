// Executable reference model: an independent loader, saver and copier.
#include "sim.h"
#include "value.h"
#include "fold.h"
#include <cerrno>
#include <cmath>
#include <cfloat>

// ------------------------------------------------------------------ events (libyaml is trusted)
EvList parseEvents(const u8 *p, size_t n) {
    NoOp guard;
    EvList l;
    yaml_parser_t ps;
    if (!yaml_parser_initialize(&ps)) abort();
    yaml_parser_set_input_string(&ps, p, n);
    for (;;) {
        yaml_event_t e;
        if (!yaml_parser_parse(&ps, &e)) { l.error = true; break; }
        Ev v; v.t = e.type; v.pos = e.start_mark.index; v.line = (unsigned)e.start_mark.line; v.col = (unsigned)e.start_mark.column;
        const yaml_char_t *a = nullptr;
        switch (e.type) {
        case YAML_SCALAR_EVENT: a = e.data.scalar.anchor; v.val.assign((const char *)e.data.scalar.value); v.style = e.data.scalar.style;
            if (v.val.size() != e.data.scalar.length) v.style |= 256; break;    // embedded NUL
        case YAML_SEQUENCE_START_EVENT: a = e.data.sequence_start.anchor; v.style = e.data.sequence_start.style; break;
        case YAML_DOCUMENT_START_EVENT: v.style = e.data.document_start.implicit; break;
        case YAML_DOCUMENT_END_EVENT: v.style = e.data.document_end.implicit; break;
        case YAML_MAPPING_START_EVENT: a = e.data.mapping_start.anchor; v.style = e.data.mapping_start.style; break;
        case YAML_ALIAS_EVENT: a = e.data.alias.anchor; break;
        default: break;
        }
        if (a) { v.hasAnchor = true; v.anchor = (const char *)a; }
        l.ev.push_back(std::move(v));
        int t = e.type;
        yaml_event_delete(&e);
        if (t == YAML_STREAM_END_EVENT || l.ev.size() > 200000) break;
    }
    yaml_parser_delete(&ps);
    return l;
}

// ------------------------------------------------------------------ name comparison
static bool decode(const std::string &s, std::vector<u32> &o) {
    for (size_t i = 0; i < s.size();) {
        u8 b = s[i]; int k = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
        if (!k || i + k > s.size()) return false;
        u32 c = k == 1 ? b : b & ((1 << (7 - k)) - 1);
        for (int j = 1; j < k; j++) c = c << 6 | ((u8)s[i + j] & 0x3f);
        o.push_back(c); i += k;
    }
    return true;
}
static u32 lower(u32 c) {
    static const std::map<u32, u32> m = [] { std::map<u32, u32> t; for (auto &p : casePairs) t[p.up] = p.low; return t; }();
    auto it = m.find(c);
    return it == m.end() ? c : it->second;
}
// 1 equal, 0 different, -1 outside what the model knows
static int foldCmp(const std::string &a, const std::string &b) {
    if (a == b) return 1;
    std::vector<u32> x, y;
    if (!decode(a, x) || !decode(b, y)) return -1;
    bool odd = false, ne = x.size() != y.size();
    for (size_t i = 0; i < std::min(x.size(), y.size()); i++) {
        if (x[i] == y[i] || lower(x[i]) == lower(y[i])) continue;
        auto cyr = [](u32 c) { return c >= 0x400 && c < 0x410 ? c + 80 : c >= 0x410 && c < 0x430 ? c + 32 : c; };
        auto known = [&](u32 c) { return caseless(c) || (c >= 0x400 && c <= 0x45f); };
        if (known(x[i]) && known(y[i])) { if (cyr(x[i]) != cyr(y[i])) ne = true; else odd = true; continue; }
        if ((known(x[i]) && y[i] <= 0x24f) || (known(y[i]) && x[i] <= 0x24f)) { ne = true; continue; }
        auto weird = [](u32 c) { return c > 0x24f || std::find(std::begin(caseOdd), std::end(caseOdd), c) != std::end(caseOdd); };
        if (weird(x[i]) || weird(y[i])) odd = true; else ne = true;
    }
    if (ne) return 0;
    return odd ? -1 : 1;
}
bool foldEq(const std::string &a, const std::string &b) { return foldCmp(a, b) == 1; }

// ------------------------------------------------------------------ reference loader
namespace {
struct Stop {};
struct L {
    const Schema &S; unsigned cfg; const EvList &E; RefResult &r;
    struct Frame { size_t i, end; };
    std::vector<Frame> replay;
    size_t raw = 0, limit = 60000;
    struct An { std::string name; size_t start, end; };
    std::vector<An> anchors; std::vector<size_t> openAnchors; std::vector<int> nest;
    unsigned depth = 0; bool track = false;

    [[noreturn]] void fail(cyaml_err_t e, bool doc = true) { r.err = e; r.docErr = doc; throw Stop(); }
    bool same(const SNode *n, const std::string &a, const std::string &b) {
        bool sens;
        if (n->flags & CYAML_FLAG_CASE_INSENSITIVE) sens = false;
        else if (n->flags & CYAML_FLAG_CASE_SENSITIVE) sens = true;
        else sens = !(cfg & CYAML_CFG_CASE_INSENSITIVE);
        if (sens) return a == b;
        int k = foldCmp(a, b);
        if (k < 0) { r.ambiguous = true; return false; }
        if (k && a != b) probe(P_CASEFOLD);
        return k == 1;
    }
    const Ev &rawNext() {
        if (raw >= E.ev.size()) fail(CYAML_ERR_LIBYAML_PARSER);
        const Ev &e = E.ev[raw];
        size_t i = raw++;
        switch (e.t) {
        case YAML_SCALAR_EVENT: if (e.hasAnchor) anchors.push_back({e.anchor, i, i}); break;
        case YAML_SEQUENCE_START_EVENT: case YAML_MAPPING_START_EVENT:
            nest.push_back(e.hasAnchor ? (int)anchors.size() : -1);
            if (e.hasAnchor) anchors.push_back({e.anchor, i, (size_t)-1});
            break;
        case YAML_SEQUENCE_END_EVENT: case YAML_MAPPING_END_EVENT:
            if (!nest.empty()) { if (nest.back() >= 0) anchors[nest.back()].end = i; nest.pop_back(); }
            break;
        default: break;
        }
        return e;
    }
    // resolve an alias event at raw position i
    bool resolve(size_t at, const std::string &name, Frame &f) {
        // anchors recorded so far, most recently started first
        for (size_t k = anchors.size(); k > 0; k--) {
            const An &a = anchors[k - 1];
            if (a.start > at || a.name != name) continue;
            if (a.end == (size_t)-1 || a.end > at) { r.ambiguous = true; continue; }   // refers to an enclosing node
            f.i = a.start; f.end = a.end; return true;
        }
        return false;
    }
    const Ev &next() {
        if (++r.expanded > limit) { r.tooBig = true; throw Stop(); }
        for (;;) {
            if (!replay.empty()) {
                Frame &f = replay.back();
                if (f.i > f.end) { replay.pop_back(); continue; }
                size_t at = f.i++;
                const Ev &e = E.ev[at];
                if (e.t == YAML_ALIAS_EVENT) {
                    Frame g; bool amb = r.ambiguous;
                    // inside an anchored node the alias meant what it meant where it was written
                    if (!resolve(at, e.anchor, g)) fail(CYAML_ERR_INVALID_ALIAS);
                    r.ambiguous = amb || r.ambiguous;
                    r.nestAlias = true;
                    replay.push_back(g);
                    if (replay.size() > 2000) { r.tooBig = true; throw Stop(); }
                    continue;
                }
                return e;
            }
            size_t at = raw;
            const Ev &e = rawNext();
            if (e.t == YAML_ALIAS_EVENT) {
                if (cfg & CYAML_CFG_NO_ALIAS) fail(CYAML_ERR_ALIAS);
                Frame g;
                if (!resolve(at, e.anchor, g)) fail(CYAML_ERR_INVALID_ALIAS);
                r.usedAlias = true;
                replay.push_back(g);
                continue;
            }
            return e;
        }
    }
    void cb(const SNode *n, const Val &v, u64 count = 0) { if (n->cb) r.cbs.push_back({n, v, count}); }

    // C11 strtoll/strtoull with base 0, spelled out so that no C library extension leaks into the model
    static bool magText(const std::string &s, bool &neg, u64 &mag) {
        size_t i = 0; while (i < s.size() && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))) i++;
        neg = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
        unsigned base = 10;
        if (i < s.size() && s[i] == '0') {
            base = 8;
            if (i + 2 < s.size() && (s[i + 1] | 32) == 'x' && isxdigit((u8)s[i + 2])) { base = 16; i += 2; }
        }
        if (i == s.size()) return false;
        mag = 0;
        for (; i < s.size(); i++) {
            u8 ch = (u8)s[i]; unsigned d;
            if (ch >= '0' && ch <= '9') d = ch - '0'; else if ((ch | 32) >= 'a' && (ch | 32) <= 'f') d = (ch | 32) - 'a' + 10; else return false;
            if (d >= base) return false;
            if (mag > (~0ull - d) / base) return false;
            mag = mag * base + d;
        }
        return true;
    }
    bool intText(const std::string &s, i64 &o) {
        bool neg; u64 m;
        if (!magText(s, neg, m)) return false;
        if (m > (neg ? 1ull << 63 : (1ull << 63) - 1)) return false;
        o = neg ? (i64)(0 - m) : (i64)m; return true;
    }
    bool uintText(const std::string &s, u64 &o) {
        bool neg;
        if (!magText(s, neg, o)) return false;
        return !neg || o == 0;
    }
    u64 storeInt(const SNode *n, i64 v) {
        i64 hi = (i64)((~0ull >> ((8 - n->dsize) * 8)) / 2), lo = -hi - 1;
        if (v < lo || v > hi) fail(CYAML_ERR_INVALID_VALUE);
        if (n->type == CYAML_INT && (n->imin || n->imax) && (v < n->imin || v > n->imax)) fail(CYAML_ERR_INVALID_VALUE);
        u64 b = maskSize((u64)v, n->dsize);
        cb(n, Val::num(b));
        return b;
    }
    u64 storeUint(const SNode *n, u64 v) {
        if (v != maskSize(v, n->dsize)) fail(CYAML_ERR_INVALID_VALUE);
        if (n->type == CYAML_UINT && (n->umin || n->umax) && (v < n->umin || v > n->umax)) fail(CYAML_ERR_INVALID_VALUE);
        cb(n, Val::num(v));
        return v;
    }
    Val scalar(const SNode *n, const std::string &s) {
        switch (n->type) {
        case CYAML_INT: { i64 v; if (!intText(s, v)) fail(CYAML_ERR_INVALID_VALUE); return Val::num(storeInt(n, v)); }
        case CYAML_UINT: { u64 v; if (!uintText(s, v)) fail(CYAML_ERR_INVALID_VALUE); return Val::num(storeUint(n, v)); }
        case CYAML_BOOL:
            for (const char *f : {"false", "no", "off", "disable", "0"}) {
                int k = foldCmp(s, f);
                if (k < 0) { r.ambiguous = true; }
                if (k == 1) return Val::num(0);
            }
            return Val::num(1);
        case CYAML_ENUM: {
            for (auto &e : n->strs) if (same(n, s, e.first)) return Val::num(storeInt(n, e.second));
            i64 v;
            if (n->strict() || !intText(s, v)) fail(CYAML_ERR_INVALID_VALUE);
            return Val::num(storeInt(n, v)); }
        case CYAML_FLOAT: {
            char *end = nullptr; errno = 0;
            double d = strtod(s.c_str(), &end);
            if (end == s.c_str() || *end) fail(CYAML_ERR_INVALID_VALUE);
            if (errno == ERANGE && n->strict()) fail(CYAML_ERR_INVALID_VALUE);
            u64 b = 0;
            if (n->dsize == 4) {
                if (n->strict() && std::isinf((float)d)) r.unexplained = true, fail(CYAML_ERR_INVALID_VALUE);
                float x = (float)d; u32 q; memcpy(&q, &x, 4); b = q;
            } else memcpy(&b, &d, 8);
            cb(n, Val::num(b));
            return Val::num(b); }
        case CYAML_STRING:
            if (n->smin > n->smax) fail(CYAML_ERR_BAD_MIN_MAX_SCHEMA);
            if (s.size() < n->smin) fail(CYAML_ERR_STRING_LENGTH_MIN);
            if (s.size() > n->smax) fail(CYAML_ERR_STRING_LENGTH_MAX);
            cb(n, Val::str(s));
            return Val::str(s);
        default: abort();
        }
    }
    void skip(const Ev &e) {
        if (e.t == YAML_SCALAR_EVENT) return;
        int lv = 1;
        while (lv) {
            const Ev &x = next();
            if (x.t == YAML_SEQUENCE_START_EVENT || x.t == YAML_MAPPING_START_EVENT) lv++;
            else if (x.t == YAML_SEQUENCE_END_EVENT || x.t == YAML_MAPPING_END_EVENT) lv--;
        }
    }
    Val dflt(const SNode *n) {
        if (track) r.seen.insert(&n->def);
        if (n->type == CYAML_IGNORE) return Val::ign();
        if (!n->hasDef) return zeroVal(n);
        r.usedDefault = true;
        return n->def;
    }
    Val value(const SNode *n, const Ev &e0, const Field *fl) {
        struct D { unsigned &d; D(unsigned &x) : d(x) { ++d; } ~D() { --d; } } dd(depth);
        if (depth > 14) r.maxDepth16 = true;
        if (depth == 64) probe(P_STACK64);
        Ev e = e0;
        if (e.style & 256) r.ambiguous = true;
        if (e.t == YAML_SCALAR_EVENT) {
            if (n->nullable() && e.val.empty()) return Val::null();
            if (n->nullstr() && (e.val == "~" || e.val == "null" || e.val == "Null" || e.val == "NULL")) return Val::null();
        }
        int want;
        switch (n->type) {
        case CYAML_FLAGS: case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: want = YAML_SEQUENCE_START_EVENT; break;
        case CYAML_MAPPING: case CYAML_BITFIELD: want = YAML_MAPPING_START_EVENT; break;
        case CYAML_IGNORE: want = e.t; break;
        default: want = YAML_SCALAR_EVENT;
        }
        if (e.t != want) fail(CYAML_ERR_INVALID_VALUE);
        if (track && n->type != CYAML_BITFIELD) r.seen.insert(n);
        switch (n->type) {
        case CYAML_IGNORE: skip(e); return Val::ign();
        case CYAML_FLAGS: {
            u64 v = 0;
            for (;;) {
                const Ev &x = next();
                if (x.t == YAML_SEQUENCE_END_EVENT) break;
                if (x.t != YAML_SCALAR_EVENT) fail(CYAML_ERR_UNEXPECTED_EVENT);
                if (x.style & 256) r.ambiguous = true;
                bool ok = false;
                for (auto &s : n->strs) if (same(n, x.val, s.first)) { v |= (u64)s.second; ok = true; break; }
                if (ok) continue;
                u64 t;
                if (n->strict() || !uintText(x.val, t) || t != maskSize(t, n->dsize)) fail(CYAML_ERR_INVALID_VALUE);
                v |= t;
            }
            return Val::num(storeUint(n, v)); }
        case CYAML_BITFIELD: {
            u64 v = 0; std::set<size_t> seen;
            if (track) r.seen.insert(n);
            for (;;) {
                std::string name;
                { const Ev &x = next();
                  if (x.t == YAML_MAPPING_END_EVENT) break;
                  if (x.t != YAML_SCALAR_EVENT) fail(CYAML_ERR_UNEXPECTED_EVENT);
                  if (track) r.seen.insert(n->bits.data());
                  if (x.style & 256) r.ambiguous = true;
                  name = x.val; }
                size_t i = 0;
                for (; i < n->bits.size(); i++) if (same(n, name, n->bits[i].name)) break;
                if (i == n->bits.size()) fail(CYAML_ERR_INVALID_VALUE);
                const Ev &x = next();
                if (x.t != YAML_SCALAR_EVENT) fail(CYAML_ERR_UNEXPECTED_EVENT);
                if (x.style & 256) r.ambiguous = true;
                u64 t;
                if (!uintText(x.val, t)) fail(CYAML_ERR_INVALID_VALUE);
                u64 m = n->bits[i].bits >= 64 ? ~0ull : (1ull << n->bits[i].bits) - 1;
                if (t > m) fail(CYAML_ERR_INVALID_VALUE);
                if (!seen.insert(i).second) r.ambiguous = true;      // a name given twice: not specified
                if (t) v |= t << n->bits[i].off;
            }
            return Val::num(storeUint(n, v)); }
        case CYAML_MAPPING: {
            Val v = Val::map(); v.kids.resize(n->map->fields.size());
            for (size_t i = 0; i < v.kids.size(); i++) v.kids[i] = zeroVal(n->map->fields[i].val);
            std::vector<bool> set(v.kids.size());
            if (v.kids.size() > 32) probe(P_FIELDS32);
            if (v.kids.size() > 256) probe(P_FIELDS256);
            for (;;) {
                std::string key; unsigned kl = 0, kc = 0;
                { const Ev &x = next();
                  if (x.t == YAML_MAPPING_END_EVENT) break;
                  if (x.t != YAML_SCALAR_EVENT) { r.anyErr = true; fail(CYAML_ERR_INTERNAL_ERROR); }
                  if (x.style & 256) r.ambiguous = true;
                  key = x.val; kl = x.line; kc = x.col; }
                size_t i = 0;
                for (; i < v.kids.size(); i++) if (same(n, n->map->fields[i].key, key)) break;
                if (i == v.kids.size()) {
                    if (!(cfg & CYAML_CFG_IGNORE_UNKNOWN_KEYS)) fail(CYAML_ERR_INVALID_KEY);
                    probe(P_UNKNOWNKEY); if (r.ignored.size() < 20) r.ignored.push_back(key);
                    Ev x = next(); skip(x);
                    continue;
                }
                const Field &f = n->map->fields[i];
                r.path.push_back(f.key); r.pathAt.push_back({{kl, kc}, {kl, kc}});
                if (f.val->type == CYAML_IGNORE && key == f.key && r.ignored.size() < 20) r.ignored.push_back(f.key);
                if (set[i] && f.val->type != CYAML_IGNORE) { r.repeated = true; fail(CYAML_ERR_UNEXPECTED_EVENT); }
                set[i] = true;
                Ev x = next(); r.pathAt.back().second = {x.line, x.col};
                v.kids[i] = value(f.val, x, &f);
                r.path.pop_back(); r.pathAt.pop_back();
            }
            for (size_t i = 0; i < v.kids.size(); i++) if (!set[i]) {
                const Field &f = n->map->fields[i];
                if (!f.val->opt()) fail(CYAML_ERR_MAPPING_FIELD_MISSING);
                v.kids[i] = dflt(f.val);
                if (f.val->hasDef) { probe(P_DEFAULT); if (f.val->map || f.val->entry) probe(P_DEEPDEF); }
            }
            cb(n, v);
            return v; }
        case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
            Val v = Val::seq();
            u64 cap = ~0ull;
            if (n->type == CYAML_SEQUENCE) { unsigned z = fl ? fl->csz : 4; cap = z >= 8 ? ~0ull : (1ull << (z * 8)) - 1; }
            for (;;) {
                Ev x = next();
                if (x.t == YAML_SEQUENCE_END_EVENT) break;
                r.entryAt.push_back({v.kids.size(), {x.line, x.col}});
                if (v.kids.size() + 1 > n->smax) fail(CYAML_ERR_SEQUENCE_ENTRIES_MAX);
                if (track && fl) r.seen.insert(fl);
                if (v.kids.size() + 1 > cap) { probe(P_COUNTWRAP); fail(CYAML_ERR_SEQUENCE_ENTRIES_MAX); }
                v.kids.push_back(value(n->entry, x, nullptr));
                r.entryAt.pop_back();
            }
            if (v.kids.size() < n->smin) fail(CYAML_ERR_SEQUENCE_ENTRIES_MIN);
            if (v.kids.size() > 256) probe(P_SEQ256);
            if (v.kids.size() > 4096) probe(v.kids.size() > 65535 ? P_SEQ65536 : P_SEQ4096);
            cb(n, v, v.kids.size());
            if (n->type == CYAML_SEQUENCE && n->ptr() && v.kids.empty()) { probe(P_EMPTYSEQ); return Val::null(); }
            return v; }
        default: return Val(scalar(n, e.val));
        }
    }
    void run() {
        // stream start was consumed by libyaml even when nothing else parses
        if (E.ev.empty()) fail(CYAML_ERR_LIBYAML_PARSER);
        rawNext();                                  // STREAM-START
        { const Ev &e = rawNext(); if (e.t == YAML_STREAM_END_EVENT) { r.val = Val::null(); return; } }
        Ev e = next();
        r.val = value(S.root, e, nullptr);
        r.count = S.root->type == CYAML_SEQUENCE ? r.val.kids.size() : 0;
        rawNext();                                  // DOCUMENT-END
        const Ev &t = rawNext();
        if (t.t == YAML_DOCUMENT_START_EVENT) r.multiDoc = true;
    }
};
}
RefResult refLoad(const Schema &s, unsigned cfgFlags, const EvList &e, bool track) {
    RefResult r;
    L l{s, cfgFlags, e, r};
    l.track = track;
    l.limit = std::max<size_t>(60000, e.ev.size() + 1000);
    try { l.run(); } catch (Stop &) {}
    if (r.err != CYAML_OK) { r.val = Val::null(); r.count = 0; }
    r.anchors = l.anchors.size();
    if (r.usedAlias) probe(P_ALIAS);
    if (r.nestAlias) probe(P_NESTALIAS);
    if (r.maxDepth16) probe(P_STACK16);
    if (r.multiDoc) probe(P_MULTIDOC);
    if (r.anchors > 64) probe(P_ANCHORS64);
    if (r.expanded > 4096) probe(P_EVENTS4096);
    return r;
}

// ------------------------------------------------------------------ reference saver
namespace {
struct SaveFail { cyaml_err_t e; };
void sv(const SNode *n, const Val &v, std::vector<RefEv> &o) {
    auto sc = [&](const std::string &t, const SNode *st) { RefEv e; e.t = YAML_SCALAR_EVENT; e.text = t; e.style = st; o.push_back(e); };
    auto nu = [&](u64 x, const SNode *num) { RefEv e; e.t = YAML_SCALAR_EVENT; e.num = num; e.n = x; e.style = n; o.push_back(e); };
    auto ev_ = [&](int t) { RefEv e; e.t = t; e.style = n; o.push_back(e); };
    if (v.k == Val::NUL) {
        if (n->nullstr()) { sc("null", n); o.back().null = true; return; }
        if (n->nullable()) { sc("", n); o.back().null = true; return; }
        if (n->type == CYAML_SEQUENCE) { ev_(YAML_SEQUENCE_START_EVENT); ev_(YAML_SEQUENCE_END_EVENT); return; }
        throw SaveFail{CYAML_ERR_INVALID_VALUE};
    }
    switch (n->type) {
    case CYAML_INT: case CYAML_UINT: case CYAML_FLOAT: nu(v.n, n); break;
    case CYAML_BOOL: sc(v.n ? "true" : "false", n); break;
    case CYAML_ENUM:
        for (auto &s : n->strs) if (maskSize((u64)s.second, n->dsize) == v.n && signExt(v.n, n->dsize) == s.second) { sc(s.first, n); return; }
        if (n->strict()) throw SaveFail{CYAML_ERR_INVALID_VALUE};
        nu(v.n, n); break;
    case CYAML_FLAGS: {
        u64 x = v.n;
        ev_(YAML_SEQUENCE_START_EVENT);
        for (auto &s : n->strs) if (x & (u64)s.second) { sc(s.first, n); x &= ~(u64)s.second; }
        if (x) { if (n->strict()) throw SaveFail{CYAML_ERR_INVALID_VALUE}; nu(x, n); }
        ev_(YAML_SEQUENCE_END_EVENT); break; }
    case CYAML_BITFIELD:
        ev_(YAML_MAPPING_START_EVENT);
        for (auto &b : n->bits) {
            u64 m = (b.bits >= 64 ? ~0ull : (1ull << b.bits) - 1), x = (v.n >> b.off) & m;
            if (!x) continue;
            sc(b.name, n); nu(x, n);
        }
        ev_(YAML_MAPPING_END_EVENT); break;
    case CYAML_STRING: sc(v.s, n); break;
    case CYAML_MAPPING:
        ev_(YAML_MAPPING_START_EVENT);
        for (size_t i = 0; i < v.kids.size(); i++) {
            const Field &f = n->map->fields[i];
            if (f.val->type == CYAML_IGNORE) continue;
            if (f.val->opt() && f.val->ptr() && v.kids[i].k == Val::NUL) continue;
            sc(f.key, n);
            sv(f.val, v.kids[i], o);
        }
        ev_(YAML_MAPPING_END_EVENT); break;
    case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
        ev_(YAML_SEQUENCE_START_EVENT);
        for (auto &k : v.kids) sv(n->entry, k, o);
        ev_(YAML_SEQUENCE_END_EVENT); break;
    default: throw SaveFail{CYAML_ERR_BAD_TYPE_IN_SCHEMA};
    }
}
}
RefSave refSave(const SNode *root, const Val &v) {
    RefSave r;
    try { sv(root, v, r.ev); } catch (SaveFail &f) { r.err = f.e; r.ev.clear(); }
    return r;
}
static bool numSame(const SNode *n, u64 want, const std::string &t) {
    char *end = nullptr; errno = 0;
    if (t.empty()) return false;
    switch (n->type) {
    case CYAML_FLOAT: {
        double d = strtod(t.c_str(), &end);
        if (*end) return false;
        u64 b = 0;
        if (n->dsize == 4) { float x = (float)d; u32 q; memcpy(&q, &x, 4); b = q; } else memcpy(&b, &d, 8);
        return sameVal(n, Val::num(want), Val::num(b)); }
    case CYAML_INT: case CYAML_ENUM: { long long x = strtoll(t.c_str(), &end, 0); return !*end && errno == 0 && x == signExt(want, n->dsize); }
    default: { if (t[0] == '-') return false; unsigned long long x = strtoull(t.c_str(), &end, 0); return !*end && errno == 0 && x == want; }
    }
}
bool matchSaved(const RefSave &r, const EvList &e, std::string &why) {
    char b[400];
    if (e.error) { why = "the output is not well-formed YAML"; return false; }
    size_t n = e.ev.size();
    if (n < 4 || e.ev[0].t != YAML_STREAM_START_EVENT || e.ev[1].t != YAML_DOCUMENT_START_EVENT || e.ev[n - 2].t != YAML_DOCUMENT_END_EVENT ||
        e.ev[n - 1].t != YAML_STREAM_END_EVENT) { why = "the output is not one document"; return false; }
    size_t i = 2, j = 0;
    for (; i < n - 2 && j < r.ev.size(); i++, j++) {
        const Ev &g = e.ev[i]; const RefEv &w = r.ev[j];
        if (g.t == YAML_DOCUMENT_START_EVENT || g.t == YAML_DOCUMENT_END_EVENT) { why = "the output has more than one document"; return false; }
        bool ok = g.t == w.t && !(g.style & 256);
        if (ok && w.t == YAML_SCALAR_EVENT) ok = w.num ? numSame(w.num, w.n, g.val) : g.val == w.text;
        if (!ok) {
            snprintf(b, sizeof b, "node %zu of the output is event %d \"%.60s\", expected event %d \"%.60s\"%s", j, g.t, g.val.c_str(), w.t, w.text.c_str(), w.num ? " (number)" : "");
            why = b; return false;
        }
    }
    if (i < n - 2) { snprintf(b, sizeof b, "the output has %zu extra nodes", n - 2 - i); why = b; return false; }
    if (j < r.ev.size()) { snprintf(b, sizeof b, "the output lacks %zu nodes", r.ev.size() - j); why = b; return false; }
    return true;
}
// Does libyaml itself carry these scalars in the requested styles?
static int collect(void *d, unsigned char *b, size_t n) { ((std::string *)d)->append((char *)b, n); return 1; }
static bool libyamlEmit(const RefSave &r, unsigned cfg, std::string &out, const EvList *nums) {
    NoOp guard;
    yaml_emitter_t em; yaml_event_t e; bool ok = true;
    yaml_emitter_initialize(&em); yaml_emitter_set_output(&em, collect, &out); yaml_emitter_set_unicode(&em, 0);
    bool impl = !(cfg & CYAML_CFG_DOCUMENT_DELIM);
    auto go = [&](int v) { ok = ok && v && yaml_emitter_emit(&em, &e); };
    go(yaml_stream_start_event_initialize(&e, YAML_UTF8_ENCODING));
    if (ok) go(yaml_document_start_event_initialize(&e, nullptr, nullptr, nullptr, impl));
    size_t k = 2;
    for (auto &x : r.ev) {
        if (!ok) break;
        unsigned f = x.style ? x.style->flags : 0;
        int st = f & CYAML_FLAG_BLOCK ? 1 : f & CYAML_FLAG_FLOW ? 2 : cfg & CYAML_CFG_STYLE_BLOCK ? 1 : cfg & CYAML_CFG_STYLE_FLOW ? 2 : 0;
        if (x.style && x.style->type == CYAML_FLAGS) st = 0;
        switch (x.t) {
        case YAML_SCALAR_EVENT: {
            yaml_scalar_style_t ss = f & CYAML_FLAG_SCALAR_QUOTE_DOUBLE ? YAML_DOUBLE_QUOTED_SCALAR_STYLE : f & CYAML_FLAG_SCALAR_QUOTE_SINGLE ? YAML_SINGLE_QUOTED_SCALAR_STYLE
                : f & CYAML_FLAG_SCALAR_LITERAL ? YAML_LITERAL_SCALAR_STYLE : f & CYAML_FLAG_SCALAR_FOLDED ? YAML_FOLDED_SCALAR_STYLE : f & CYAML_FLAG_SCALAR_PLAIN ? YAML_PLAIN_SCALAR_STYLE : YAML_ANY_SCALAR_STYLE;
            std::string t = !x.num ? x.text : nums ? nums->ev[k].val : "1";
            if (nums && t.empty() && r.ev.size() == 1 && (ss == YAML_ANY_SCALAR_STYLE || ss == YAML_PLAIN_SCALAR_STYLE)) ss = YAML_SINGLE_QUOTED_SCALAR_STYLE;
            go(yaml_scalar_event_initialize(&e, nullptr, (yaml_char_t *)YAML_STR_TAG, (yaml_char_t *)t.c_str(), (int)t.size(), 1, 1, ss)); break; }
        case YAML_SEQUENCE_START_EVENT: go(yaml_sequence_start_event_initialize(&e, nullptr, (yaml_char_t *)YAML_SEQ_TAG, 1, st == 1 ? YAML_BLOCK_SEQUENCE_STYLE : st == 2 ? YAML_FLOW_SEQUENCE_STYLE : YAML_ANY_SEQUENCE_STYLE)); break;
        case YAML_SEQUENCE_END_EVENT: go(yaml_sequence_end_event_initialize(&e)); break;
        case YAML_MAPPING_START_EVENT: go(yaml_mapping_start_event_initialize(&e, nullptr, (yaml_char_t *)YAML_MAP_TAG, 1, st == 1 ? YAML_BLOCK_MAPPING_STYLE : st == 2 ? YAML_FLOW_MAPPING_STYLE : YAML_ANY_MAPPING_STYLE)); break;
        case YAML_MAPPING_END_EVENT: go(yaml_mapping_end_event_initialize(&e)); break;
        }
        k++;
    }
    if (ok) go(yaml_document_end_event_initialize(&e, impl));
    if (ok) go(yaml_stream_end_event_initialize(&e));
    if (ok) ok = yaml_emitter_flush(&em);
    yaml_emitter_delete(&em);
    return ok;
}
// The styles of a saved document (whose nodes matched) against the same nodes emitted by libyaml in the styles asked for.
bool matchStyle(const RefSave &r, const EvList &e, unsigned cfg, std::string &why) {
    std::string out; char b[300];
    if (!libyamlEmit(r, cfg, out, &e)) return true;
    EvList l = parseEvents((const u8 *)out.data(), out.size());
    if (l.error || l.ev.size() != e.ev.size()) return true;
    for (size_t i = 1; i + 1 < e.ev.size(); i++) {
        const Ev &g = e.ev[i], &w = l.ev[i];
        if (g.t != w.t || (g.t == YAML_SCALAR_EVENT && g.val != w.val)) return true;
        if (g.style == w.style) continue;
        if (g.t == YAML_DOCUMENT_START_EVENT || g.t == YAML_DOCUMENT_END_EVENT) { why = g.style ? "has no document delimiters although they are asked for" : "has document delimiters nobody asked for"; return false; }
        if (r.ev[i - 2].style && (r.ev[i - 2].null || (g.t != YAML_SCALAR_EVENT && r.ev[i - 2].style->type == CYAML_BITFIELD))) continue;
        snprintf(b, sizeof b, "has node %zu \"%.60s\" in style %d where the schema and configuration ask for %d", i - 2, g.val.c_str(), g.style, w.style);
        why = b; return false;
    }
    return true;
}
bool libyamlCarries(const RefSave &r, unsigned cfg) {
    NoOp guard;
    std::string out;
    if (!libyamlEmit(r, cfg, out, nullptr)) return false;
    EvList l = parseEvents((const u8 *)out.data(), out.size());
    RefSave q = r; static const SNode one = [] { SNode s; s.type = CYAML_UINT; s.dsize = 8; return s; }();
    for (auto &x : q.ev) if (x.num) { x.num = &one; x.n = 1; }
    std::string why;
    return matchSaved(q, l, why);
}

// ------------------------------------------------------------------ reference copy
cyaml_err_t refCopyErr(const SNode *n, const Val &v) {
    if (v.k == Val::MAP)
        for (size_t i = 0; i < v.kids.size(); i++) {
            const SNode *f = n->map->fields[i].val;
            if (v.kids[i].k == Val::NUL) {
                if (f->opt() || f->nullable() || f->type == CYAML_SEQUENCE) continue;
                return CYAML_ERR_MAPPING_FIELD_MISSING;
            }
            cyaml_err_t e = refCopyErr(f, v.kids[i]);
            if (e) return e;
        }
    if (v.k == Val::SEQ)
        for (auto &k : v.kids) {
            if (k.k == Val::NUL) { if (n->entry->nullable()) continue; return CYAML_ERR_BAD_PARAM_NULL_DATA; }
            cyaml_err_t e = refCopyErr(n->entry, k);
            if (e) return e;
        }
    return CYAML_OK;
}
