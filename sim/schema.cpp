// Random schemas, their C materialisation, and random client values.
#include "sim.h"
#include "fold.h"
#include <cmath>
#include <cfloat>

u64 maskSize(u64 v, unsigned size) { return size >= 8 ? v : v & ((1ull << (size * 8)) - 1); }
i64 signExt(u64 v, unsigned size) {
    if (size >= 8) return (i64)v;
    u64 s = 1ull << (size * 8 - 1);
    v = maskSize(v, size);
    return (v & s) ? (i64)(v | ~((s << 1) - 1)) : (i64)v;
}
u32 elemSize(const SNode *e) {
    if (e->ptr()) return 8;
    if (e->type == CYAML_SEQUENCE_FIXED) return e->dsize * e->smax;
    return e->dsize;
}

// ------------------------------------------------------------------ memory of the schema
void *Schema::alloc(size_t n, bool deflt) {
    void *p = calloc(1, n ? n : 1);
    if (n) mem.push_back({p, n});
    else mem.push_back({p, 0});
    (void)deflt;
    return p;
}
const char *Schema::str(const std::string &s) {
    char *p = (char *)alloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}
u64 Schema::hash() const {
    u64 h = 99;
    for (auto &m : mem) h = hashBytes(m.first, m.second, h);
    return h;
}
Schema::~Schema() { for (auto &m : mem) free(m.first); }

extern "C" {
bool cb_int(void *, const cyaml_schema_value_t *, int64_t);
bool cb_uint(void *, const cyaml_schema_value_t *, uint64_t);
bool cb_float(void *, const cyaml_schema_value_t *, double);
bool cb_str(void *, const cyaml_schema_value_t *, const char *);
bool cb_map(void *, const cyaml_schema_value_t *, const cyaml_data_t *);
bool cb_seq(void *, const cyaml_schema_value_t *, const cyaml_data_t *, size_t);
}

// ------------------------------------------------------------------ strings
static const char *const words[] = {"a", "b", "alpha", "beta", "yes", "no", "true", "off", "null", "~", "0", "1", "-1", "0x10",
    "017", "1e5", "hello world", "x: y", "# c", "- item", "[a]", "{k: v}", "&anc", "*ali", "!tag", "%dir", "@at", "`bt", "'q'",
    "\"dq\"", "a'b", "tail ", " lead", "tab\tx", "line\nbreak", "two\n\nbreaks", "end\n", "\n", "back\\slash", "caf\xc3\xa9",
    "\xc3\x89t\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01", "\x7f", "---", "...", "key", ": ", "?", "-", "=", "<<", "1_000",
    "Null", "NULL", "nan", "inf", "a,b", "a]b", "\xef\xbb\xbf" "bom", "\xc2\x85", "\xe2\x80\xa8"};
std::string genStr(Choices &c, const Feat &f, u32 min, u32 max) {
    std::string s;
    (void)f;
    u32 want = min;
    switch (c.pick({6, 3, 1, 1})) {
    case 0: s = words[c.draw(8)]; break;
    case 1: s = words[c.draw(sizeof words / sizeof *words)]; break;
    case 2: want = min + c.draw(std::min<u32>(max - min, 40) + 1); break;
    case 3: want = std::min<u32>(max, min + c.draw(3)); if (c.chance(1, 3)) want = max > 600 ? 600 : max; break;
    }
    if (f.huge == 3 && max > 3000 && c.chance(1, 3)) {      // long, without a draw for every character
        want = 1000 + c.logn(17); if (want > max) want = max;
        std::string w = words[c.draw(sizeof words / sizeof *words)] + std::string(1, (char)('a' + c.draw(26)));
        unsigned sp = 20 + c.draw(200);
        while (s.size() + w.size() < want) { s += w; if (s.size() % sp < w.size()) s += ' '; }
        while (s.size() < want) s += 'e';
        if (want > 65536) probe(P_STRING64K);
    }
    while (s.size() < want) {
        switch (c.pick({20, 4, 2, 1, 1})) {
        case 0: s += (char)('a' + c.draw(26)); break;
        case 1: s += ' '; break;
        case 2: s += (char)(33 + c.draw(94)); break;
        case 3: s += words[c.draw(sizeof words / sizeof *words)]; break;
        case 4: s += "\xc3\xa9"; break;
        }
    }
    if (s.size() > max) s.resize(max);
    while (!s.empty() && ((u8)s.back() & 0xC0) == 0x80) s.pop_back();
    if (!s.empty() && (u8)s.back() >= 0xC0) s.pop_back();
    while (s.size() < min) s += 'z';
    return s;
}

// letters that have two cases
static std::string latin(Choices &c) {
    std::string s;
    for (u64 k = 1 + c.draw(3); k; k--) {
        // letters whose pairing differs from their neighbours' as often as all others
        static const std::vector<unsigned> edge = [] {
            std::vector<unsigned> e; unsigned n = sizeof casePairs / sizeof *casePairs;
            auto like = [&](unsigned i, unsigned j) { int st = (int)casePairs[j].up - casePairs[i].up, d = casePairs[i].low - casePairs[i].up; return casePairs[j].low - casePairs[j].up == d && st == (d == 1 ? 2 : 1); };
            for (unsigned i = 0; i < n; i++) if (i == 0 || i + 1 == n || !like(i - 1, i) || !like(i, i + 1)) e.push_back(i);
            return e; }();
        auto &p = casePairs[c.chance(1, 2) ? edge[c.draw(edge.size())] : c.draw(sizeof casePairs / sizeof *casePairs)];
        u32 cp = c.chance(1, 2) ? p.low : p.up;
        putUtf8(s, cp);
    }
    return s;
}
// letters of scripts without case, of Cyrillic, and beyond the 16-bit planes
static std::string wide(Choices &c) {
    static const struct { u32 a, b; } r[] = {{0x400, 0x45f}, {0x5d0, 0x5ea}, {0x4e00, 0x9fa5}, {0xac00, 0xd7a3}, {0x800, 0x80f}, {0x8000, 0x800f}, {0x1f300, 0x1f5ff}, {0x10000, 0x1000b}, {0x100000, 0x10fffd}};
    std::string s;
    for (u64 k = 1 + c.draw(2); k; k--) {
        auto &q = r[c.draw(sizeof r / sizeof *r)];
        putUtf8(s, c.chance(1, 4) ? q.a : c.chance(1, 4) ? q.b : q.a + (u32)c.draw(q.b - q.a + 1));
    }
    return s;
}
// ------------------------------------------------------------------ generation
// every nested sequence fits its count member
bool countsFit(const SNode *n, const Val &v) {
    if (v.k == Val::NUL || v.k == Val::IGN) return true;
    if (n->type == CYAML_MAPPING)
        for (size_t i = 0; i < v.kids.size(); i++) {
            const Field &fl = n->map->fields[i];
            if (fl.csz && fl.csz < 4 && v.kids[i].kids.size() >> (fl.csz * 8)) return false;
            if (!countsFit(fl.val, v.kids[i])) return false;
        }
    if (n->isSeq()) for (auto &k : v.kids) if (!countsFit(n->entry, k)) return false;
    return true;
}
namespace {
struct G {
    Choices &c; const Feat &f; Schema &S;
    int budget = 40;
    std::vector<MapDef *> open;                 // enclosing mappings (for recursion)
    std::vector<std::pair<SNode *, MapDef *>> pend;   // data_size to fill once laid out
    std::vector<SNode *> pendSeq;

    SNode *node() { S.nodes.emplace_back(new SNode); SNode *n = S.nodes.back().get(); n->id = S.nodes.size(); return n; }

    u32 intSize() {
        if (f.odd && c.chance(1, 3)) return 1 + c.draw(8);
        static const u32 z[] = {4, 1, 2, 8};
        return z[c.draw(4)];
    }
    std::string name(unsigned i) {
        static const char *const base[] = {"n", "Name", "UP", "caf\xc3\xa9", "\xc3\x89tat", "two words", "x-y", "\xc5\xbd" "d", "\xc4\x80m", "long_name_that_goes_on", "\xc3\xbf" "y"};
        std::string s = f.utf8 && c.chance(f.names ? 9 : 3, 9) ? c.chance(1, 3) ? wide(c) : latin(c) : base[f.utf8 ? c.draw(11) : c.draw(3)];
        return s + std::to_string(i);
    }
    void styles(SNode *n) {
        if (!f.style) return;
        switch (c.pick({6, 1, 1})) { case 1: n->flags |= CYAML_FLAG_BLOCK; break; case 2: n->flags |= CYAML_FLAG_FLOW; break; }
        switch (c.pick({10, 1, 1, 1, 1, 1})) {
        case 1: n->flags |= CYAML_FLAG_SCALAR_PLAIN; break;
        case 2: n->flags |= CYAML_FLAG_SCALAR_FOLDED; break;
        case 3: n->flags |= CYAML_FLAG_SCALAR_LITERAL; break;
        case 4: n->flags |= CYAML_FLAG_SCALAR_QUOTE_SINGLE; break;
        case 5: n->flags |= CYAML_FLAG_SCALAR_QUOTE_DOUBLE; break;
        }
    }
    // role: 0 root, 1 field, 2 sequence entry
    SNode *gen(unsigned depth, int role) {
        SNode *n = node();
        budget--;
        styles(n);
        if (f.caseF) switch (c.pick({4, 1, 1})) { case 1: n->flags |= CYAML_FLAG_CASE_SENSITIVE; break; case 2: n->flags |= CYAML_FLAG_CASE_INSENSITIVE; break; }
        // pointer and null handling
        bool ptr = role == 0 || c.chance(f.pPtr, 10);
        if (ptr) {
            n->flags |= CYAML_FLAG_POINTER;
            if (c.chance(f.pNull, 10)) n->flags |= c.chance(1, 2) ? CYAML_FLAG_POINTER_NULL_STR : CYAML_FLAG_POINTER_NULL;
        }
        if (role == 1 && c.chance(f.pOpt, 10)) n->flags |= CYAML_FLAG_OPTIONAL;
        bool deep = depth < f.depth && budget > 0;
        // recursion into an enclosing mapping
        if (deep && role != 0 && !open.empty() && c.chance(f.pRec, 10)) {
            n->rec = true;
            n->flags |= CYAML_FLAG_POINTER;
            MapDef *m = open[c.draw(open.size())];
            if (role == 1 && c.chance(1, 2)) {
                n->type = CYAML_SEQUENCE; n->smin = 0; n->smax = 1 + c.draw(4);
                SNode *e = node(); e->type = CYAML_MAPPING; e->map = m;
                e->flags = c.chance(1, 2) ? (unsigned)CYAML_FLAG_POINTER : 0u;
                n->entry = e; n->isize = 8; n->align = 8;
                n->flags |= CYAML_FLAG_OPTIONAL;
                pend.push_back({e, m}); pendSeq.push_back(n);
            } else {
                n->type = CYAML_MAPPING; n->map = m; n->isize = 8; n->align = 8;
                if (role == 1) n->flags |= CYAML_FLAG_OPTIONAL; else n->flags |= CYAML_FLAG_POINTER_NULL;
                pend.push_back({n, m});
            }
            if (f.pCb && c.chance(f.pCb, 10)) n->cb = true, S.anyCb = true;
            return n;
        }
        // type
        unsigned w[CYAML__TYPE_COUNT];
        for (unsigned t = 0; t < CYAML__TYPE_COUNT; t++) w[t] = (f.types >> t & 1) ? 4 : 0;
        if (w[CYAML_STRING]) w[CYAML_STRING] = 6;
        if (w[CYAML_INT]) w[CYAML_INT] = 5;
        if (deep) { w[CYAML_MAPPING] = role == 0 ? 60 : 8; w[CYAML_SEQUENCE] = role == 2 ? 0 : 8; w[CYAML_SEQUENCE_FIXED] = f.fixedFocus ? 14 : 4; }
        else { w[CYAML_MAPPING] = w[CYAML_SEQUENCE] = w[CYAML_SEQUENCE_FIXED] = 0; }
        if (f.smallCount && deep) {
            if (role == 1) w[CYAML_SEQUENCE] = 40;
            if (role == 2) w[CYAML_MAPPING] = w[CYAML_SEQUENCE_FIXED] = 2;
        }
        if ((f.huge == 1 || f.huge == 6) && deep) {       // give the length somewhere to go
            if (role == 0) w[CYAML_SEQUENCE] = 60; else if (role == 1) w[CYAML_SEQUENCE] = f.huge == 6 ? 40 : 16;
            else if (f.huge == 6) w[CYAML_MAPPING] = w[CYAML_SEQUENCE_FIXED] = 0;
        }
        w[CYAML_IGNORE] = role == 1 && f.ignoreF && !ptr ? 1 : 0;
        u64 tot = 0; for (unsigned x : w) tot += x;
        if (!tot) { w[CYAML_INT] = 1; tot = 1; }
        u64 v = c.draw(tot); unsigned t = 0;
        while (v >= w[t]) v -= w[t++];
        n->type = (cyaml_type_e)t;
        bool cbWant = f.pCb && c.chance(f.pCb, 10);
        switch (n->type) {
        case CYAML_INT:
            n->dsize = intSize();
            if (c.chance(1, 3)) {
                i64 hi = n->dsize >= 8 ? INT64_MAX : (1ll << (n->dsize * 8 - 1)) - 1;
                if (c.chance(1, 4)) { n->imin = -hi - 1; n->imax = hi; }
                else { n->imin = -(i64)c.draw(100); n->imax = n->imin + c.draw(100); if (c.chance(1, 3)) { n->imin += 90; n->imax += 27; if (n->imax < n->imin) n->imax = n->imin; } else if (c.chance(1, 4)) n->imin = 0, n->imax = c.draw(128); else if (c.chance(1, 4)) n->imax = 0; }
            }
            n->cb = cbWant; break;
        case CYAML_UINT:
            n->dsize = intSize();
            if (c.chance(1, 3)) { n->umin = c.chance(1, 3) ? 0 : c.draw(50); n->umax = n->umin + c.draw(200); if (c.chance(1, 5) && n->dsize == 8) { n->umin = 1; n->umax = ~0ull; } }
            n->cb = cbWant; break;
        case CYAML_BOOL: n->dsize = c.chance(1, 4) ? intSize() : 1; break;
        case CYAML_FLOAT: n->dsize = c.chance(1, 2) ? 4 : 8; if (c.chance(1, 4)) n->flags |= CYAML_FLAG_STRICT; n->cb = cbWant; break;
        case CYAML_ENUM: {
            n->dsize = intSize();
            if (c.chance(1, 3)) n->flags |= CYAML_FLAG_STRICT;
            unsigned k = 1 + c.draw(5);
            i64 val = c.chance(1, 3) ? -2 : 0;
            for (unsigned i = 0; i < k; i++) {
                n->strs.push_back({name(i), val});
                val += c.chance(1, 4) ? 1 + c.draw(5) : 1;
            }
            if (c.chance(1, 6)) n->strs.push_back({name(k), n->strs[0].second});
            if (c.chance(1, 6)) n->strs.push_back({name(k + 1), signExt(~0ull >> 1 >> (64 - n->dsize * 8), n->dsize)});
            n->cb = cbWant; break; }
        case CYAML_FLAGS: {
            n->dsize = intSize();
            if (c.chance(1, 3)) n->flags |= CYAML_FLAG_STRICT;
            unsigned k = 1 + c.draw(6), bit = 0, maxb = n->dsize * 8;
            for (unsigned i = 0; i < k && bit < maxb; i++) {
                n->strs.push_back({name(i), (i64)(1ull << bit)});
                bit += c.chance(1, 4) ? 1 + c.draw(maxb / 2) : 1;
            }
            if (c.chance(1, 4) && bit < maxb) n->strs.push_back({name(k), (i64)(1ull << (maxb - 1))});
            if (c.chance(1, 8)) n->strs.push_back({name(k + 1), n->strs[0].second | n->strs.back().second});   // a name for several, after theirs
            if (c.chance(1, 8)) n->strs.push_back({name(k + 2), 0});                                           // and one for none
            n->cb = cbWant; break; }
        case CYAML_BITFIELD: {
            n->dsize = intSize();
            unsigned off = 0, maxb = n->dsize * 8, k = 1 + c.draw(5);
            for (unsigned i = 0; i < k && off < maxb; i++) {
                unsigned b = 1 + c.draw(std::min(maxb - off, c.chance(1, 4) ? 64u : 8u));
                if (c.chance(1, 20) && off == 0) b = maxb;
                if (c.chance(1, 40)) b = 0;
                n->bits.push_back({name(i), (u8)off, (u8)b});
                off += b + (c.chance(1, 4) ? c.draw(4) : 0);
            }
            n->cb = cbWant; break; }
        case CYAML_STRING:
            if (n->ptr()) { n->dsize = 1; n->smin = c.chance(1, 6) ? c.draw(3) : 0; n->smax = c.chance(1, 4) ? n->smin + c.draw(20) : f.huge == 3 ? 70000 : 1000; }
            else { n->smax = c.chance(1, 4) ? c.draw(4) : 4 + c.draw(40); n->smin = c.chance(1, 6) ? c.draw(std::min(3u, n->smax) + 1) : 0; n->dsize = n->smax + 1; }
            n->cb = cbWant; break;
        case CYAML_SEQUENCE: {
            n->entry = gen(depth + 1, 2);
            u32 es = elemSize(n->entry);
            n->dsize = es;
            if (n->ptr()) {
                n->smin = c.chance(1, 5) ? c.draw(3) : 0;
                switch (f.huge == 6 && es <= 4 ? 2 : c.pick({4, 3, 2})) { case 0: n->smax = n->smin + 1 + c.draw(8) + (f.smallCount ? 258 : 0); break; case 1: n->smax = f.huge ? 9000 : 400; break; case 2: n->smax = ~0u; break; }
            } else {
                n->smax = 1 + c.draw(f.wideSeq && es <= 16 ? 300 : 5);
                n->smin = c.chance(1, 5) ? c.draw(std::min(n->smax, 2u) + 1) : 0;
            }
            n->cb = cbWant; break; }
        case CYAML_SEQUENCE_FIXED:
            n->entry = gen(depth + 1, 2);
            n->smin = n->smax = 1 + c.draw(4);
            n->dsize = elemSize(n->entry);
            n->cb = cbWant; break;
        case CYAML_MAPPING: n->map = genMap(depth); n->dsize = n->map->size; n->align = n->map->align; n->cb = cbWant; break;
        case CYAML_IGNORE: n->flags &= CYAML_FLAG_OPTIONAL; n->dsize = 0; break;
        default: break;
        }
        if (n->cb) S.anyCb = true;
        finish(n);
        if (role == 1 && n->opt() && n->type != CYAML_IGNORE && c.chance(f.pDef, 10)) giveDefault(n);
        return n;
    }
    void finish(SNode *n) {
        if (n->ptr()) { n->isize = 8; n->align = 8; return; }
        switch (n->type) {
        case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: n->isize = n->dsize * n->smax; n->align = n->entry->ptr() ? 8 : n->entry->align; break;
        case CYAML_STRING: n->isize = n->dsize; n->align = 1; break;
        case CYAML_MAPPING: n->isize = n->dsize; break;
        case CYAML_IGNORE: n->isize = 0; n->align = 1; break;
        default: n->isize = n->dsize; n->align = (n->dsize & (n->dsize - 1)) ? 1 : n->dsize;
        }
    }
    bool deflOk(const SNode *n, unsigned d = 0) {   // default values need a finite, already laid out type
        if (n->type == CYAML_MAPPING) {
            if (!n->map->done || d > 6) return false;
            for (auto &fl : n->map->fields) if (!fl.val->opt() && !deflOk(fl.val, d + 1)) return false;
            return true;
        }
        if (n->isSeq()) return deflOk(n->entry, d + 1);
        return true;
    }
    void giveDefault(SNode *n) {
        if (!deflOk(n)) return;
        if ((n->type == CYAML_FLOAT || n->type == CYAML_STRING) && n->cb) return;
        VGen g{c, f, 20, 0, true, false};
        Val v;
        for (int i = 0; i < 3; i++) {
            v = genVal(g, n, false);
            if (v.k != Val::NUL && !(v.k == Val::SEQ && n->type == CYAML_SEQUENCE && v.kids.empty())) break;
        }
        if (v.k == Val::NUL) return;
        if (v.k == Val::SEQ && n->type == CYAML_SEQUENCE && v.kids.empty()) return;
        if (n->type == CYAML_BOOL) v.n = 1;
        if (n->type == CYAML_FLOAT && n->dsize == 4) {
            float x; u32 b = (u32)v.n; memcpy(&x, &b, 4);
            if (!std::isfinite(x)) return;
        }
        if (n->type == CYAML_ENUM || n->type == CYAML_INT || n->type == CYAML_UINT || n->type == CYAML_FLAGS ||
            n->type == CYAML_BITFIELD || n->type == CYAML_FLOAT) {
            if (n->type == CYAML_FLOAT ? (v.n << 1) == 0 || maskSize(v.n, n->dsize) == (n->dsize == 4 ? 0x80000000u : 0x8000000000000000ull) : v.n == 0) return;   // zero defaults mean none
        }
        if (!countsFit(n, v)) return;
        n->hasDef = true; n->def = v; S.anyDefault = true;
    }
    MapDef *genMap(unsigned depth) {
        S.maps.emplace_back(new MapDef); MapDef *m = S.maps.back().get();
        open.push_back(m);
        unsigned nf = 1 + c.draw(f.width);
        if (f.bigMap && depth == 0) nf = 30 + c.draw(40);
        if (f.huge == 2 && depth == 0) nf = 60 + c.draw(c.chance(1, 3) ? 600 : 100);
        bool packed = f.odd && c.chance(1, 3);
        u32 off = 0;
        std::vector<std::pair<u32, u32>> used;
        std::set<std::string> keys;
        if (c.chance(1, 30)) nf = 0;
        for (unsigned i = 0; i < nf; i++) {
            Field fl;
            static const char *const kb[] = {"k", "key", "Key", "K", "caf\xc3\xa9", "\xc3\x89", "a b", "x", "\xc5\xbd", "true", "\xc3\xb6\xc4\x81"};
            fl.key = (f.utf8 && c.chance(f.names ? 9 : 3, 9) ? c.chance(1, 3) ? wide(c) : latin(c) : std::string(kb[f.utf8 ? c.draw(11) : c.draw(4)])) + std::to_string(i);
            if (c.chance(1, 60)) fl.key += std::string(130, 'L');
            fl.val = gen(depth + 1, 1);
            SNode *v = fl.val;
            auto place = [&](u32 size, u32 al) {
                if (!packed && al > 1) off = (off + al - 1) / al * al;
                if (c.chance(1, 8)) { u32 g = 1 + c.draw(9); off += packed ? g : (g + al - 1) / al * al; }
                u32 at = off; used.push_back({at, size}); off += size;
                if (al > m->align && !packed) m->align = al;
                return at;
            };
            if (v->type == CYAML_SEQUENCE) {
                static const u32 cz[] = {4, 1, 2, 8};
                fl.csz = f.odd && c.chance(1, 3) ? 1 + c.draw(8) : cz[c.draw(4)];
                if (f.smallCount && c.chance(1, 2)) fl.csz = 1;
                if (f.huge == 6) fl.csz = c.chance(1, 2) ? 2 : 4;
                bool before = c.chance(1, 2);
                u32 ca = (fl.csz & (fl.csz - 1)) ? 1 : fl.csz;
                if (before) fl.coff = place(fl.csz, ca);
                fl.off = place(v->isize, v->align);
                if (!before) fl.coff = place(fl.csz, ca);
                u64 cap = fl.csz >= 4 ? 0xffffffffull : (1ull << (fl.csz * 8)) - 1;
                if (v->hasDef && v->def.kids.size() > cap) { v->hasDef = false; v->def = Val(); }
            } else fl.off = place(v->isize, v->align);
            m->fields.push_back(std::move(fl));
        }
        if (!packed) off = (off + m->align - 1) / m->align * m->align;
        if (c.chance(1, 8)) off += m->align * (1 + c.draw(3));
        m->size = off ? off : 1;
        std::sort(used.begin(), used.end());
        u32 p = 0;
        for (auto &u : used) { if (u.first > p) m->gaps.push_back({p, u.first - p}); p = std::max(p, u.first + u.second); }
        if (p < m->size) m->gaps.push_back({p, m->size - p});
        m->done = true;
        open.pop_back();
        return m;
    }
    void fill(SNode *n, cyaml_schema_value_t *sv) {
        memset(sv, 0, sizeof *sv);
        sv->type = n->type; sv->flags = (enum cyaml_flag)n->flags; sv->data_size = n->dsize;
        n->sv = sv; S.bySv[sv] = n;
        switch (n->type) {
        case CYAML_INT:
            sv->integer.min = n->imin; sv->integer.max = n->imax; sv->integer.validation_cb = n->cb ? cb_int : nullptr;
            if (n->hasDef) sv->integer.missing = signExt(n->def.n, n->dsize);
            break;
        case CYAML_UINT:
            sv->unsigned_integer.min = n->umin; sv->unsigned_integer.max = n->umax; sv->unsigned_integer.validation_cb = n->cb ? cb_uint : nullptr;
            if (n->hasDef) sv->unsigned_integer.missing = n->def.n;
            break;
        case CYAML_BOOL: if (n->hasDef) sv->boolean.missing = n->def.n != 0; break;
        case CYAML_FLOAT:
            sv->floating_point.validation_cb = n->cb ? cb_float : nullptr;
            if (n->hasDef) {
                if (n->dsize == 4) { float x; u32 b = (u32)n->def.n; memcpy(&x, &b, 4); sv->floating_point.missing = x; }
                else { double x; memcpy(&x, &n->def.n, 8); sv->floating_point.missing = x; }
            }
            break;
        case CYAML_STRING:
            sv->string.min = n->smin; sv->string.max = n->smax; sv->string.validation_cb = n->cb ? cb_str : nullptr;
            if (n->hasDef) sv->string.missing = S.str(n->def.s);
            break;
        case CYAML_ENUM: case CYAML_FLAGS: {
            cyaml_strval_t *t = (cyaml_strval_t *)S.alloc(sizeof(cyaml_strval_t) * n->strs.size());
            for (size_t i = 0; i < n->strs.size(); i++) { t[i].str = S.str(n->strs[i].first); t[i].val = n->strs[i].second; }
            sv->enumeration.strings = t; sv->enumeration.count = n->strs.size();
            sv->enumeration.validation_cb = n->cb ? cb_int : nullptr;
            if (n->hasDef) sv->enumeration.missing = n->type == CYAML_ENUM ? signExt(n->def.n, n->dsize) : (i64)n->def.n;
            break; }
        case CYAML_BITFIELD: {
            cyaml_bitdef_t *t = (cyaml_bitdef_t *)S.alloc(sizeof(cyaml_bitdef_t) * n->bits.size());
            for (size_t i = 0; i < n->bits.size(); i++) { t[i].name = S.str(n->bits[i].name); t[i].offset = n->bits[i].off; t[i].bits = n->bits[i].bits; }
            sv->bitfield.bitdefs = t; sv->bitfield.count = n->bits.size(); sv->bitfield.validation_cb = n->cb ? cb_uint : nullptr;
            if (n->hasDef) sv->bitfield.missing = n->def.n;
            break; }
        case CYAML_MAPPING:
            mat(n->map);
            sv->mapping.fields = n->map->cf; sv->mapping.validation_cb = n->cb ? cb_map : nullptr;
            if (n->hasDef) {
                u8 *p = (u8 *)S.alloc(n->dsize);
                SNode tmp = *n; tmp.flags &= ~(unsigned)CYAML_FLAG_POINTER_NULL_STR;
                storeVal(&tmp, p, n->def, [&](size_t z) { return S.alloc(z); }, nullptr, 0);
                sv->mapping.missing = p;
            }
            break;
        case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
            if (!n->entry->sv) {
                cyaml_schema_value_t *e = (cyaml_schema_value_t *)S.alloc(sizeof *e);
                n->entry->sv = e;
                fill(n->entry, e);
            }
            sv->sequence.entry = n->entry->sv;
            sv->sequence.min = n->smin; sv->sequence.max = n->smax; sv->sequence.validation_cb = n->cb ? cb_seq : nullptr;
            if (n->hasDef) {
                size_t k = n->def.kids.size();
                u8 *p = (u8 *)S.alloc(n->dsize * k);
                for (size_t i = 0; i < k; i++) storeVal(n->entry, p + n->dsize * i, n->def.kids[i], [&](size_t z) { return S.alloc(z); }, nullptr, 0);
                sv->sequence.missing = p; sv->sequence.missing_count = k;
            }
            break; }
        default: break;
        }
    }
    void mat(MapDef *m) {
        if (m->cf) return;
        m->cf = (cyaml_schema_field_t *)S.alloc(sizeof(cyaml_schema_field_t) * (m->fields.size() + 1));
        for (size_t i = 0; i < m->fields.size(); i++) {
            Field &fl = m->fields[i];
            m->cf[i].key = S.str(fl.key);
            m->cf[i].data_offset = fl.off; m->cf[i].count_offset = fl.coff; m->cf[i].count_size = fl.csz;
            fill(fl.val, &m->cf[i].value);
        }
    }
};
}

std::unique_ptr<Schema> genSchema(Choices &c, const Feat &f) {
    std::unique_ptr<Schema> s(new Schema);
    G g{c, f, *s};
    if (f.bigMap) g.budget = 140;
    if (f.huge == 2) g.budget = 800;
    s->root = g.gen(0, 0);
    s->root->flags &= ~(unsigned)CYAML_FLAG_OPTIONAL;
    for (auto &p : g.pend) {
        p.first->dsize = p.second->size;
        if (!p.first->ptr()) { p.first->isize = p.second->size; p.first->align = p.second->align; }
    }
    for (SNode *n : g.pendSeq) n->dsize = elemSize(n->entry);
    cyaml_schema_value_t *sv = (cyaml_schema_value_t *)s->alloc(sizeof *sv);
    g.fill(s->root, sv);
    // the same value embedded in caller memory, for cyaml_copy into the caller's own object
    s->nodes.emplace_back(new SNode(*s->root));
    SNode *in = s->nodes.back().get();
    in->flags &= ~(unsigned)CYAML_FLAG_POINTER_NULL_STR;
    in->hasDef = false;
    in->isize = in->type == CYAML_STRING ? in->smax + 1 : in->isSeq() ? 0 : in->dsize;
    in->sv = (cyaml_schema_value_t *)s->alloc(sizeof *sv);
    *in->sv = *s->root->sv;
    in->sv->flags = (enum cyaml_flag)in->flags;
    if (in->type == CYAML_STRING) { in->dsize = in->smax + 1; in->sv->data_size = in->dsize; }
    s->bySv[in->sv] = in;
    s->inlineRoot = in;
    if (!g.pend.empty()) probe(P_RECURSIVE);
    return s;
}

// ------------------------------------------------------------------ values
Val genNum(VGen &g, const SNode *n) {
    Choices &c = g.c;
    u64 full = n->dsize >= 8 ? ~0ull : (1ull << (n->dsize * 8)) - 1;
    switch (n->type) {
    case CYAML_INT: {
        i64 v;
        i64 hi = (i64)(full >> 1), lo = -hi - 1;
        if (n->imin || n->imax) { lo = std::max(lo, n->imin); hi = std::min(hi, n->imax); }
        switch (c.pick({4, 1, 1, 2})) {
        case 0: v = (i64)c.draw(10); break;
        case 1: v = lo; break;
        case 2: v = hi; break;
        default: v = (i64)c.logn(n->dsize * 8); if (c.chance(1, 2)) v = -v; v = signExt((u64)v, n->dsize);
        }
        if (v < lo) v = lo;
        if (v > hi) v = hi;
        return Val::num(maskSize((u64)v, n->dsize)); }
    case CYAML_UINT: {
        u64 lo = 0, hi = full, v;
        if (n->umin || n->umax) { lo = n->umin; hi = std::min(full, n->umax); }
        switch (c.pick({4, 1, 1, 2})) {
        case 0: v = c.draw(10); break;
        case 1: v = lo; break;
        case 2: v = hi; break;
        default: v = maskSize(c.logn(n->dsize * 8), n->dsize);
        }
        if (v < lo) v = lo;
        if (v > hi) v = hi;
        return Val::num(v); }
    case CYAML_BOOL: if (n->dsize > 1 && c.chance(1, 4)) return Val::num(maskSize(c.chance(1, 2) ? 1ull << c.draw(n->dsize * 8) : c.logn(n->dsize * 8), n->dsize)); return Val::num(c.draw(2));
    case CYAML_ENUM:
        if (!n->strict() && c.chance(1, 4)) return Val::num(maskSize(c.chance(1, 3) ? ~c.draw(5) : c.logn(n->dsize * 8), n->dsize));
        return Val::num(maskSize((u64)n->strs[c.draw(n->strs.size())].second, n->dsize));
    case CYAML_FLAGS: {
        u64 v = 0;
        for (auto &s : n->strs) if (c.chance(1, 2)) v |= (u64)s.second;
        if (!n->strict() && c.chance(1, 4)) v |= maskSize(c.chance(1, 3) ? 1ull << (n->dsize * 8 - 1) : c.logn(n->dsize * 8), n->dsize);
        return Val::num(maskSize(v, n->dsize)); }
    case CYAML_BITFIELD: {
        u64 v = 0;
        for (auto &b : n->bits) if (c.chance(2, 3)) {
            u64 m = b.bits >= 64 ? ~0ull : (1ull << b.bits) - 1;
            u64 x = c.chance(1, 3) ? m : c.logn(b.bits) & m;
            v |= x << b.off;
        }
        return Val::num(maskSize(v, n->dsize)); }
    case CYAML_FLOAT: {
        double d;
        switch (c.pick({4, 3, 2, 1, 1})) {
        case 0: d = (double)(i64)c.draw(100); break;
        case 1: d = ((double)(i64)c.draw(2000001) - 1000000) / 7.0; break;
        case 2: { u64 b = c.draw(~0ull); if (n->dsize == 4) { u32 q = (u32)b; float x; memcpy(&x, &q, 4); d = x; } else memcpy(&d, &b, 8); break; }
        case 3: d = n->dsize == 4 ? FLT_MAX : DBL_MAX; if (c.chance(1, 2)) d = -d; break;
        default: d = c.chance(1, 2) ? 1e-40 : 0.1;
        }
        if (std::isnan(d)) d = 1.5;
        if (n->strict() || g.forDefault) { if (!std::isfinite(d)) d = 2.5; if (n->strict() && d != 0 && std::fabs(d) < 1e-300) d = 0.25; }
        u64 b = 0;
        if (n->dsize == 4) {
            float x = (float)d;
            if (n->strict() && !std::isfinite(x)) x = 2.5f;
            u32 q; memcpy(&q, &x, 4); b = q;
        } else memcpy(&b, &d, 8);
        return Val::num(b); }
    default: return Val::num(0);
    }
}
static bool nullText(const SNode *n, const std::string &s) {
    if (n->nullable() && s.empty()) return true;
    return n->nullstr() && (s == "~" || s == "null" || s == "Null" || s == "NULL");
}
static bool undone(const SNode *n) {
    if (n->type == CYAML_MAPPING) return !n->map->done;
    return n->isSeq() && undone(n->entry);
}
Val genVal(VGen &g, const SNode *n, bool field) {
    Choices &c = g.c;
    g.budget--;
    if (g.forDefault && n->ptr() && undone(n)) return Val::null();
    if (n->ptr()) {
        bool canNull = n->nullable() || (field && n->opt());
        if (canNull && (g.depth > std::max(30u, g.f.deep) || g.budget < 0 || (!(n->rec && g.f.deep) && c.chance(g.f.pNull, 10)))) return Val::null();
    }
    struct D { unsigned &d; D(unsigned &x) : d(x) { d++; } ~D() { d--; } } dd(g.depth);
    switch (n->type) {
    case CYAML_STRING: {
        std::string s = genStr(c, g.f, n->smin, std::min(n->smax, g.f.huge == 3 ? 70000u : 700u));
        if (nullText(n, s)) { s = std::string(std::max(1u, n->smin), 'q'); if (s.size() > n->smax) return n->ptr() && n->nullable() ? Val::null() : Val::str(""); }
        return Val::str(s); }
    case CYAML_MAPPING: {
        Val v = Val::map();
        const Field *chain = nullptr;                   // deep data goes on through one member
        if (g.f.deep && g.depth > 3) { std::vector<const Field *> r; for (auto &f : n->map->fields) if (f.val->rec) r.push_back(&f); if (!r.empty()) chain = r[c.draw(r.size())]; }
        for (auto &f : n->map->fields) v.kids.push_back(chain && f.val->rec && &f != chain && f.val->opt() ? Val::null() : genVal(g, f.val, true));
        return v; }
    case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
        Val v = Val::seq();
        u64 k = n->smin;
        if (n->type == CYAML_SEQUENCE) {
            u64 room = n->smax - n->smin;
            u64 lim = g.budget > 0 ? 3 : 0;
            if (g.f.wideSeq && g.budget > 0 && elemSize(n->entry) <= 16 && c.chance(1, 3)) lim = 320;
            if (g.f.smallCount && !g.forDefault && g.budget > 0 && g.depth <= 2 && n->smax >= 258 && c.chance(1, 3)) { k = 252 + c.draw(4); room = 0; }
            if ((g.f.huge & 1) && g.budget > 100 && g.depth < 4 && c.chance(1, 2)) { lim = std::min<u64>(g.budget, 1 + c.logn(13)); k += std::min(room, lim) / 2; room -= std::min(room, lim) / 2; }
            k += n->rec && g.f.deep && g.depth < g.f.deep && g.budget > 0 ? std::min<u64>(room, 1) : c.draw(std::min(room, lim) + 1);
        }
        for (u64 i = 0; i < k; i++) v.kids.push_back(genVal(g, n->entry, false));
        if (n->type == CYAML_SEQUENCE && n->ptr() && v.kids.empty()) return Val::null();
        return v; }
    case CYAML_IGNORE: return Val::ign();
    default: return genNum(g, n);
    }
}
Val zeroVal(const SNode *n) {
    if (n->type == CYAML_IGNORE) return Val::ign();
    if (n->ptr()) return Val::null();
    switch (n->type) {
    case CYAML_STRING: return Val::str("");
    case CYAML_MAPPING: { Val v = Val::map(); for (auto &f : n->map->fields) v.kids.push_back(zeroVal(f.val)); return v; }
    case CYAML_SEQUENCE: return Val::seq();
    case CYAML_SEQUENCE_FIXED: { Val v = Val::seq(); for (u32 i = 0; i < n->smax; i++) v.kids.push_back(zeroVal(n->entry)); return v; }
    default: return Val::num(0);
    }
}

void storeVal(const SNode *n, u8 *at, const Val &v, const AllocFn &al, u8 *countAt, unsigned csz) {
    if (n->type == CYAML_IGNORE) return;
    if (n->ptr()) {
        u8 *p = nullptr;
        if (v.k != Val::NUL) {
            size_t sz;
            switch (n->type) {
            case CYAML_STRING: sz = v.s.size() + 1; break;
            case CYAML_SEQUENCE: sz = (size_t)n->dsize * v.kids.size(); break;
            case CYAML_SEQUENCE_FIXED: sz = (size_t)n->dsize * n->smax; break;
            default: sz = n->dsize;
            }
            p = sz ? (u8 *)al(sz) : nullptr;
        }
        memcpy(at, &p, 8);
        if (!p) { if (countAt) memset(countAt, 0, csz); return; }
        at = p;
    }
    switch (n->type) {
    case CYAML_STRING: memcpy(at, v.s.c_str(), v.s.size() + 1); break;
    case CYAML_MAPPING:
        for (size_t i = 0; i < n->map->fields.size(); i++) {
            const Field &f = n->map->fields[i];
            storeVal(f.val, at + f.off, v.kids[i], al, f.csz ? at + f.coff : nullptr, f.csz);
        }
        break;
    case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
        for (size_t i = 0; i < v.kids.size(); i++) storeVal(n->entry, at + (size_t)n->dsize * i, v.kids[i], al, nullptr, 0);
        if (countAt) { u64 k = v.kids.size(); memcpy(countAt, &k, csz); }
        break;
    default: { u64 x = v.n; memcpy(at, &x, n->dsize); }
    }
}

// ------------------------------------------------------------------ display
static std::string quote(const std::string &s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch == 127) { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
        else if (ch == '"') o += "\\\"";
        else o += (char)ch;
        if (o.size() > 80) { o += "..."; break; }
    }
    return o + "\"";
}
static void showSn(const SNode *n, std::string &o, int depth, std::set<const MapDef *> &seen) {
    static const char *const tn[] = {"INT", "UINT", "BOOL", "ENUM", "FLAGS", "FLOAT", "STRING", "MAPPING", "BITFIELD", "SEQUENCE", "SEQUENCE_FIXED", "IGNORE"};
    o += tn[n->type];
    if (n->nullstr()) o += "|POINTER_NULL_STR"; else if (n->nullable()) o += "|POINTER_NULL"; else if (n->ptr()) o += "|POINTER";
    if (n->opt()) o += "|OPTIONAL";
    if (n->strict()) o += "|STRICT";
    if (n->flags & CYAML_FLAG_CASE_INSENSITIVE) o += "|NOCASE";
    if (n->flags & CYAML_FLAG_CASE_SENSITIVE) o += "|CASE";
    if (n->flags & CYAML_FLAG_BLOCK) o += "|BLOCK";
    if (n->flags & CYAML_FLAG_FLOW) o += "|FLOW";
    if (n->flags >> 9) o += "|SCALARSTYLE" + std::to_string(n->flags >> 9);
    o += " size=" + std::to_string(n->dsize);
    if (n->imin || n->imax) o += " range=" + std::to_string(n->imin) + ".." + std::to_string(n->imax);
    if (n->umin || n->umax) o += " range=" + std::to_string(n->umin) + ".." + std::to_string(n->umax);
    if (n->type == CYAML_STRING || n->isSeq()) o += " min=" + std::to_string(n->smin) + " max=" + std::to_string(n->smax);
    for (auto &s : n->strs) o += " " + quote(s.first) + "=" + std::to_string(s.second);
    for (auto &b : n->bits) o += " " + quote(b.name) + "@" + std::to_string(b.off) + ":" + std::to_string(b.bits);
    if (n->cb) o += " cb";
    if (n->hasDef) o += " default=" + n->def.show(200);
    std::string ind(depth * 2, ' ');
    if (n->entry) { o += "\n" + ind + "  - "; showSn(n->entry, o, depth + 1, seen); }
    if (n->map) {
        o += " struct=" + std::to_string(n->map->size);
        if (seen.count(n->map)) { o += " (recursive)"; return; }
        seen.insert(n->map);
        for (auto &f : n->map->fields) {
            o += "\n" + ind + "  " + quote(f.key) + " @" + std::to_string(f.off);
            if (f.csz) o += " count@" + std::to_string(f.coff) + ":" + std::to_string(f.csz);
            o += ": ";
            showSn(f.val, o, depth + 1, seen);
        }
        seen.erase(n->map);
    }
}
std::string Schema::show() const {
    std::string o; std::set<const MapDef *> seen;
    showSn(root, o, 0, seen);
    return o;
}
bool Val::operator==(const Val &o) const {
    return k == o.k && n == o.n && s == o.s && kids == o.kids;
}
u64 Val::hash() const {
    u64 h = mix(k, n);
    h = hashBytes(s.data(), s.size(), h);
    for (auto &x : kids) h = mix(h, x.hash());
    return h;
}
static void showV(const Val &v, std::string &o, size_t cap) {
    if (o.size() > cap) { if (o.substr(o.size() - 3) != "...") o += "..."; return; }
    switch (v.k) {
    case Val::NUL: o += "NULL"; break;
    case Val::NUM: { char b[32]; snprintf(b, sizeof b, "%lld/0x%llx", (long long)v.n, (unsigned long long)v.n); if (v.n < 10) snprintf(b, sizeof b, "%llu", (unsigned long long)v.n); o += b; break; }
    case Val::STR: o += quote(v.s); break;
    case Val::IGN: o += "-"; break;
    case Val::MAP: o += "{"; for (auto &x : v.kids) { showV(x, o, cap); o += " "; } o += "}"; break;
    case Val::SEQ: o += "["; for (auto &x : v.kids) { showV(x, o, cap); o += " "; } o += "]"; break;
    }
}
std::string Val::show(int budget) const { std::string o; showV(*this, o, budget); return o; }
