// Random YAML documents for a schema, and damage to stored bytes.
#include "sim.h"
#include "fold.h"
#include <cmath>

DNode *DocGen::mk(DNode::K k) { pool.emplace_back(new DNode); pool.back()->k = k; if (--budget < -4000) throw TooMany(); return pool.back().get(); }

static std::string recase(Choices &c, const std::string &s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        u8 ch = s[i];
        if (isalpha(ch) && ch < 128) { o += c.chance(1, 2) ? (char)(ch ^ 32) : (char)ch; continue; }
        if (ch >= 0xc3 && ch <= 0xcb && i + 1 < s.size()) {
            u32 cp = (ch & 0x1f) << 6 | ((u8)s[i + 1] & 0x3f), to = cp;
            for (auto &p : casePairs) { if (p.up == cp) to = p.low; else if (p.low == cp && p.up < 0x300) to = p.up; }
            if (to != cp && c.chance(1, 2)) cp = to;
            o += (char)(0xc0 | cp >> 6); o += (char)(0x80 | (cp & 0x3f)); i++;
            continue;
        }
        o += (char)ch;
    }
    return o;
}
// another character in the place of one
static std::string nearMiss(Choices &c, const std::string &s) {
    std::vector<size_t> at;
    for (size_t i = 0; i < s.size(); i++) if (((u8)s[i] & 0xC0) != 0x80 && ((u8)s[i] >= 0x80 || isalpha((u8)s[i]))) at.push_back(i);
    if (at.empty()) return s + "x";
    size_t i = at[c.draw(at.size())], e = i + 1;
    while (e < s.size() && ((u8)s[e] & 0xC0) == 0x80) e++;
    u32 b = (u8)s[i], cp = e - i == 1 ? b : b & ((1 << (7 - (e - i))) - 1);
    for (size_t j = i + 1; j < e; j++) cp = cp << 6 | ((u8)s[j] & 0x3f);
    u32 to = cp;
    switch (c.draw(6)) {
    case 0: case 1: to = cp + 1 + (u32)c.draw(2); break;
    case 2: case 3: to = cp - 1 - (u32)c.draw(2); break;
    case 4: to = cp ^ 32; break;
    default: to = cp ^ (1u << c.draw(e - i == 1 ? 5 : e - i == 2 ? 10 : e - i == 3 ? 15 : 20)); break;
    }
    // only letters whose comparison the model knows
    bool ok = cp < 0x80 ? (to < 0x80 && isalpha((int)to)) : (to >= 0xc0 && to <= 0x24f && to != 0xd7 && to != 0xf7) || (to >= 0x400 && to <= 0x45f) || caseless(to);
    if (!ok || to == cp) { if (cp < 0x80) return s + "x"; to = cp == 0x4e00 ? 0x4e01 : 0x4e00; }
    std::string t; putUtf8(t, to);
    return s.substr(0, i) + t + s.substr(e);
}
static bool insens(const SNode *n, unsigned cfg) {
    if (n->flags & CYAML_FLAG_CASE_INSENSITIVE) return true;
    if (n->flags & CYAML_FLAG_CASE_SENSITIVE) return false;
    return cfg & CYAML_CFG_CASE_INSENSITIVE;
}
static std::string num(Choices &c, u64 v, bool neg) {
    char b[80]; const char *sg = neg ? "-" : c.chance(1, 12) ? "+" : "";
    switch (c.pick({10, 2, 1, 1})) {
    case 0: snprintf(b, sizeof b, "%s%llu", sg, (unsigned long long)v); break;
    case 1: snprintf(b, sizeof b, "%s0x%llx", sg, (unsigned long long)v); break;
    case 2: snprintf(b, sizeof b, "%s0%llo", sg, (unsigned long long)v); break;
    default: snprintf(b, sizeof b, "%s0X%llX", sg, (unsigned long long)v); break;
    }
    return b;
}
static std::string snum(Choices &c, i64 v) { return v < 0 ? num(c, 0 - (u64)v, true) : num(c, (u64)v, false); }

DNode *DocGen::scalarFor(const SNode *n) {
    DNode *d = mk(DNode::SC);
    VGen g{c, f, 3, 0, false, false};
    d->style = c.pick({8, 1, 1, 1});
    bool bad = pErr && c.chance(pErr, 1000);
    if (bad) injected = true;
    switch (n->type) {
    case CYAML_INT:
        if (bad) {
            i64 hi = (i64)((~0ull >> ((8 - n->dsize) * 8)) / 2);
            if ((n->imin || n->imax) && c.chance(1, 2)) {       // outside the schema's range
                if (n->imax < hi && c.chance(1, 2)) { d->text = std::to_string(n->imax + 1 + (i64)(c.chance(1, 2) ? 0 : c.draw(hi - n->imax))); break; }
                if (n->imin > -hi - 1) { d->text = std::to_string(n->imin - 1 - (i64)(c.chance(1, 2) ? 0 : c.draw((u64)n->imin + (u64)hi + 1))); break; }
            }
            switch (c.draw(9)) {
            case 0: d->text = n->dsize == 8 ? "9223372036854775808" : std::to_string(hi + 1); break;
            case 1: d->text = n->dsize == 8 ? "-9223372036854775809" : std::to_string(-hi - 2); break;
            case 2: d->text = "abc"; break;
            case 3: d->text = ""; d->style = 2; break;
            case 4: d->text = "12abc"; break;
            case 5: d->text = "1.5"; break;
            case 6: d->text = (n->imin || n->imax) && n->imax < INT64_MAX ? std::to_string(n->imax + 1) : "0x"; break;
            case 7: d->text = (n->imin || n->imax) && n->imin > INT64_MIN ? std::to_string(n->imin - 1) : "99999999999999999999"; break;
            default: d->text = "08"; break;
            }
        } else d->text = snum(c, signExt(genNum(g, n).n, n->dsize));
        break;
    case CYAML_UINT:
        if (bad) {
            u64 hi = maskSize(~0ull, n->dsize);
            if ((n->umin || n->umax) && c.chance(1, 2)) {
                if (n->umax < hi && c.chance(1, 2)) { d->text = std::to_string(n->umax + 1 + (c.chance(1, 2) ? 0 : c.draw(hi - n->umax))); break; }
                if (n->umin) { d->text = std::to_string(n->umin - 1); break; }
            }
            switch (c.draw(8)) {
            case 0: d->text = n->dsize == 8 ? "18446744073709551616" : std::to_string(hi + 1); break;
            case 1: d->text = "-1"; break;
            case 2: d->text = "x1"; break;
            case 3: d->text = ""; d->style = 2; break;
            case 4: d->text = "-18446744073709551615"; break;
            case 5: d->text = "7 7"; break;
            case 6: d->text = (n->umin || n->umax) && n->umax < ~0ull ? std::to_string(n->umax + 1) : "-0x7f"; break;
            default: d->text = n->umin ? std::to_string(n->umin - 1) : "1e3"; break;
            }
        } else d->text = num(c, genNum(g, n).n, false);
        break;
    case CYAML_BOOL: {
        static const char *const b[] = {"true", "false", "yes", "no", "on", "off", "enable", "disable", "1", "0", "TRUE", "False", "No", "OFF", "anything", "Disable", "2", "00"};
        d->text = b[c.draw(18)]; break; }
    case CYAML_ENUM:
        if (bad) { d->text = c.chance(1, 3) ? "" : c.chance(1, 2) ? "nosuch" : c.chance(1, 3) && n->strs.size() ? nearMiss(c, n->strs[c.draw(n->strs.size())].first) : "999999999999999999"; if (d->text.empty()) d->style = 2; break; }
        if (!n->strict() && c.chance(1, 4)) { d->text = snum(c, signExt(genNum(g, n).n, n->dsize)); break; }
        d->text = n->strs[c.draw(n->strs.size())].first;
        if (insens(n, cfgFlags) || c.chance(1, 30)) d->text = recase(c, d->text);
        break;
    case CYAML_FLOAT: {
        if (bad) { static const char *const b[] = {"x", "1..2", "", "1e", "0x", "1e999", "-1e-999", "3.5e38", "4e-46", "1,5", "-3,25", "7,", "1,5.2", "0,"}; d->text = b[c.draw(14)]; if (d->text.empty()) d->style = 2; break; }
        u64 bits = genNum(g, n).n; double v;
        if (n->dsize == 4) { float x; u32 q = (u32)bits; memcpy(&x, &q, 4); v = x; } else memcpy(&v, &bits, 8);
        char b[64];
        static const char *const fm[] = {"%.17g", "%g", "%.9g", "%a", "%e"};
        snprintf(b, sizeof b, fm[c.pick({6, 3, 2, 1, 1})], v);
        d->text = b;
        if (c.chance(1, 20)) { static const char *const o[] = {"inf", "-inf", "nan", ".5", "5.", "+3.25", "infinity"}; d->text = o[c.draw(7)]; }
        break; }
    case CYAML_STRING: {
        u32 hi = std::min(n->smax, f.huge == 3 ? 70000u : 600u);
        d->text = genStr(c, f, n->smin, hi);
        if (bad) {
            if (c.chance(1, 2) && n->smin > 0) d->text = d->text.substr(0, c.draw(n->smin));
            else if (n->smax < 2000) d->text = std::string(n->smax + 1 + c.draw(3), 'm');
        }
        d->style = c.pick({4, 2, 3, 2});
        if (n->ptr() && c.chance(1, 12)) {      // nearly a null spelling
            static const char *const near[] = {"nULL", "NUll", "nil", "~~", "Nul", "nulL", "NuLL", "null1", "Null ", "none", "NULLS"};
            std::string t = near[c.draw(sizeof near / sizeof *near)];
            if (t.size() >= n->smin && t.size() <= n->smax) d->text = t;
        }
        break; }
    default: break;
    }
    return d;
}
DNode *DocGen::junk(unsigned depth) {
    if (depth == 0 && budget > 0 && c.chance(1, f.huge ? 8 : 50)) {      // nested far deeper than anything else
        unsigned lv = c.chance(1, 3) ? 900 - (unsigned)c.draw(400) : (unsigned)(16 + c.draw(280));
        bool mp = c.chance(1, 3);
        DNode *d = mk(DNode::SC); d->text = "deep";
        int keep = budget;
        while (lv--) {
            DNode *o = mk(mp && lv % 2 ? DNode::MP : DNode::SQ); o->flow = true;
            if (o->k == DNode::MP) { DNode *q = mk(DNode::SC); q->text = "j"; o->keys.push_back(q); }
            o->kids.push_back(d); d = o;
        }
        budget = keep;
        if (c.chance(1, 3)) {
            if (d->k == DNode::MP) { DNode *q = mk(DNode::SC); q->text = "after"; d->keys.push_back(q); }
            DNode *v = mk(DNode::SC); v->text = "x"; d->kids.push_back(v);
        }
        probe(P_DEEPIGNORED);
        maybeAnchor(nullptr, d);
        return d;
    }
    unsigned k = depth > 2 || budget < 0 ? 0 : c.pick({4, 1, 1});
    DNode *d;
    if (k == 0) {
        d = mk(DNode::SC); d->text = genStr(c, f, 0, 30); d->style = c.pick({4, 2, 3, 1});
        if (pAlias && !anchored.empty() && c.chance(pAlias, 100)) { d->k = DNode::AL; d->anchor = anchored[c.draw(anchored.size())].second->anchor; }
        else maybeAnchor(nullptr, d);
    } else {
        d = mk(k == 1 ? DNode::SQ : DNode::MP); d->flow = flow && c.chance(1, 2);
        for (u64 m = c.draw(4); m; m--) {
            if (k == 2) { DNode *q = mk(DNode::SC); q->text = "j" + std::to_string(nextUnknown++); d->keys.push_back(q); }
            d->kids.push_back(junk(depth + 1));
        }
        maybeAnchor(nullptr, d);
    }
    return d;
}
// names of many lengths that share long prefixes, one per number
std::string DocGen::anchorName(unsigned id) {
    while (anchorNames.size() <= id) {
        std::string s = "a" + std::to_string(anchorNames.size());
        std::string near;
        if (!anchorNames.empty() && c.chance(1, 8)) {      // another name but for the case of a letter, a cut end or a further byte
            near = anchorNames[c.draw(anchorNames.size())];
            switch (c.draw(4)) {
            case 0: near += "z"; break;
            case 1: near.pop_back(); break;
            default: { std::vector<size_t> al; for (size_t i = 0; i < near.size(); i++) if (isalpha((u8)near[i])) al.push_back(i);
                if (al.empty()) near.clear(); else near[al[c.draw(al.size())]] ^= 32; } }
            for (auto &o : anchorNames) if (o == near) near.clear();
        }
        if (!near.empty()) s = near;
        else if (c.chance(1, 4)) {
            static const char *const pre[] = {"the_anchor", "anchor-with-a-rather-long-name", "A", "x", "configuration-section-shared-between-all-of-the-services-"};
            s = pre[c.draw(5)] + s;
            if (c.chance(1, 3)) s += std::string(c.draw(c.chance(1, 5) ? 300 : 40), 'z');
        }
        anchorNames.push_back(s);
    }
    return anchorNames[id];
}
void DocGen::maybeAnchor(const SNode *n, DNode *d) {
    if (!pAlias || d->k == DNode::AL || !c.chance(std::min(90u, pAlias * 2), 100)) return;
    // names are mostly fresh, sometimes redefined
    unsigned id = c.chance(1, 4) && nextAnchor ? c.draw(nextAnchor) : nextAnchor++;
    d->anchor = anchorName(id);
    anchored.push_back({n, d});
}
static bool compat(const SNode *a, const SNode *b) {
    if (!b) return false;
    if (a == b) return true;
    if (b->type == CYAML_IGNORE) return false;
    if (a->type == CYAML_IGNORE) return true;
    if (a->type == CYAML_MAPPING) return b->type == CYAML_MAPPING && a->map == b->map;
    if (a->isSeq()) return b->isSeq() && a->entry == b->entry;
    if (a->type == CYAML_STRING) return b->type != CYAML_MAPPING && !b->isSeq() && b->type != CYAML_FLAGS && b->type != CYAML_BITFIELD;
    return a->type == b->type;
}
DNode *DocGen::value(const SNode *n, unsigned depth, bool field) {
    const unsigned maxDepth = f.deep ? f.deep : 22;
    if (pAlias && !anchored.empty() && c.chance(pAlias, 100)) {
        std::vector<DNode *> cand;
        for (auto &a : anchored) if (compat(n, a.first)) cand.push_back(a.second);
        if (cand.empty() && n->type == CYAML_IGNORE) for (auto &a : anchored) cand.push_back(a.second);
        if (c.chance(1, 40)) { cand.clear(); for (auto &a : anchored) cand.push_back(a.second); }
        if (!cand.empty()) {
            DNode *d = mk(DNode::AL); d->anchor = cand[c.draw(cand.size())]->anchor;
            return d;
        }
    }
    if (pErr && c.chance(pErr, 4000)) { injected = true; DNode *d = mk(DNode::AL); d->anchor = nextAnchor && c.chance(1, 2) ? "a" + std::to_string(c.draw(nextAnchor)) : "nosuch"; return d; }
    DNode *d = nullptr;
    if (n->nullable() && (depth > std::max(25u, f.deep) || budget < 0 || (!(n->rec && f.deep) && c.chance(f.pNull, 12)))) {
        d = mk(DNode::SC);
        static const char *const ns[] = {"", "~", "null", "Null", "NULL"};
        d->text = n->nullstr() ? ns[c.draw(5)] : "";
        d->style = d->text.empty() && c.chance(1, 2) ? 0 : c.chance(1, 4) ? 2 : 0;
        probe(P_NULLPTR);
        maybeAnchor(n, d);
        return d;
    }
    if (pErr && c.chance(pErr, 3000)) {      // wrong kind of node
        injected = true;
        switch (c.draw(3)) {
        case 0: d = mk(DNode::SC); d->text = "wrong"; break;
        case 1: d = mk(DNode::SQ); d->flow = true; break;
        default: d = mk(DNode::MP); d->flow = true; break;
        }
        return d;
    }
    switch (n->type) {
    case CYAML_MAPPING: {
        d = mk(DNode::MP); d->flow = flow && c.chance(1, 3);
        const Field *chain = nullptr;                   // deep documents go on through one member
        if (f.deep && depth > 3) { std::vector<const Field *> r; for (auto &fl : n->map->fields) if (fl.val->rec) r.push_back(&fl); if (!r.empty()) chain = r[c.draw(r.size())]; }
        std::vector<size_t> ord;
        for (size_t i = 0; i < n->map->fields.size(); i++) {
            const Field &fl = n->map->fields[i];
            if (fl.val->rec && fl.val->opt() && f.deep && depth > 3) { if (&fl != chain || depth > f.deep || budget < 0) continue; }
            else if (fl.val->opt()) { if (depth > maxDepth || budget < 0 || c.chance(f.pOpt ? 4 : 1, 10)) continue; }
            else if (pErr && c.chance(pErr, 2500)) { injected = true; continue; }
            ord.push_back(i);
            if (fl.val->type == CYAML_IGNORE && c.chance(1, 10)) ord.push_back(i);
            else if (pErr && c.chance(pErr, 4000)) { injected = true; ord.push_back(i); }
        }
        if (c.chance(1, 3)) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.draw(i)]);
        for (size_t i : ord) {
            const Field &fl = n->map->fields[i];
            if ((cfgFlags & CYAML_CFG_IGNORE_UNKNOWN_KEYS) ? c.chance(1, 6) : pErr && c.chance(pErr, 4000)) {
                if (!(cfgFlags & CYAML_CFG_IGNORE_UNKNOWN_KEYS)) injected = true;
                DNode *q = mk(DNode::SC); q->text = "unk" + std::to_string(nextUnknown++);
                if (c.chance(1, 3)) { q->text = nearMiss(c, fl.key); if (c.chance(1, 2)) q->text = recase(c, q->text); }
                d->keys.push_back(q); d->kids.push_back(junk(0));
            }
            if (pErr && f.names && c.chance(1, 12)) {
                injected = true;
                DNode *q = mk(DNode::SC); q->text = nearMiss(c, fl.key);
                if (insens(n, cfgFlags) && c.chance(1, 2)) q->text = recase(c, q->text);
                d->keys.push_back(q); d->kids.push_back(c.chance(1, 2) ? junk(2) : value(fl.val, depth + 1, true));
                if (c.chance(1, 2)) continue;
            }
            DNode *q = mk(DNode::SC); q->text = fl.key; q->style = c.pick({10, 1, 1});
            if (insens(n, cfgFlags) || c.chance(1, 200)) q->text = recase(c, q->text);
            if (pAlias && c.chance(1, 20)) maybeAnchor(nullptr, q);
            d->keys.push_back(q);
            d->kids.push_back(value(fl.val, depth + 1, true));
        }
        if (pErr && c.chance(pErr, 20000)) { injected = true; d->keys.push_back(mk(DNode::SQ)); d->keys.back()->flow = true; d->kids.push_back(junk(2)); }
        break; }
    case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED: {
        d = mk(DNode::SQ); d->flow = flow && c.chance(1, 3);
        u64 k = n->smin;
        if (n->type == CYAML_SEQUENCE) {
            u64 lim = budget > 0 && depth < maxDepth ? 3 : 0;
            if ((f.huge & 1) && budget > 100 && depth < 4 && c.chance(1, 2)) { lim = std::min<u64>(budget, 1 + c.logn(13)); u64 half = std::min<u64>(n->smax - k, lim) / 2; k += half; }
            if (f.huge == 4 && budget > 100 && depth < 4 && c.chance(1, 2)) lim = std::min<u64>(budget, 1 + c.logn(9));
            if (f.wideSeq && budget > 0 && c.chance(1, 3)) lim = 320;
            if (f.smallCount && budget > 0 && c.chance(depth < 2 ? 2 : 1, 3)) lim = 270;
            k += n->rec && f.deep && depth < f.deep && budget > 0 ? std::min<u64>(n->smax - n->smin, 1) : c.draw(std::min<u64>(n->smax - k, lim) + 1);
            if (lim == 270 && n->smax >= 258 && c.chance(1, 2)) k = 253 + c.draw(5);      // about where a byte's count ends
            if (pErr && c.chance(pErr, 2000) && n->smax < 500) { injected = true; k = n->smax + 1; }
        }
        if (pErr && n->smin && c.chance(pErr, 3000)) { injected = true; k = n->smin - 1; }
        else if (pErr && n->type == CYAML_SEQUENCE_FIXED && c.chance(pErr, 3000)) { injected = true; k = n->smax + 1; }
        bool number = !n->entry->ptr() && (n->entry->type == CYAML_INT || n->entry->type == CYAML_UINT || n->entry->type == CYAML_BOOL);
        if (f.huge == 6 && n->type == CYAML_SEQUENCE && number && n->smax > 70000 && !giant && c.chance(2, 3)) {      // more than 16 bits can count: the same few nodes again and again
            giant = true;
            std::vector<DNode *> few;
            u64 want = 65536 - 4 + c.draw(9);
            int as = (int)pAlias; pAlias = 0;
            for (unsigned i = 0; i < 5; i++) few.push_back(value(n->entry, depth + 1, false));
            pAlias = as;
            for (u64 i = 0; i < want; i++) d->kids.push_back(few[i % 5]);
            break;
        }
        for (u64 i = 0; i < k; i++) d->kids.push_back(value(n->entry, depth + 1, false));
        break; }
    case CYAML_FLAGS: {
        d = mk(DNode::SQ); d->flow = flow && c.chance(1, 2);
        u64 all = 0;
        for (auto &s : n->strs) {
            if (c.chance(1, 2)) { DNode *q = mk(DNode::SC); q->text = s.first; if (insens(n, cfgFlags)) q->text = recase(c, q->text); maybeAnchor(n, q); if (q->anchor.size()) anchored.back().first = nullptr; d->kids.push_back(q); }
            all |= (u64)s.second;
        }
        (void)all;
        if (d->kids.size() && c.chance(1, 5)) { DNode *q = mk(DNode::SC); q->text = n->strs[c.draw(n->strs.size())].first; d->kids.push_back(q); }      // perhaps named before
        if (!n->strict() && c.chance(1, 4)) { DNode *q = mk(DNode::SC); VGen g{c, f, 3, 0, false, false}; q->text = num(c, genNum(g, n).n, false); d->kids.push_back(q); }
        if (pErr && c.chance(pErr, 1500)) { injected = true; DNode *q = mk(c.chance(1, 4) ? DNode::SQ : DNode::SC); q->flow = true; q->text = c.chance(1, 2) ? "-1" : c.chance(1, 2) && n->strs.size() ? nearMiss(c, n->strs[c.draw(n->strs.size())].first) : "nosuch"; d->kids.push_back(q); }
        break; }
    case CYAML_BITFIELD: {
        d = mk(DNode::MP); d->flow = flow && c.chance(1, 2);
        VGen g{c, f, 3, 0, false, false};
        u64 v = genNum(g, n).n;
        for (auto &b : n->bits) {
            u64 m = b.bits >= 64 ? ~0ull : (1ull << b.bits) - 1, x = (v >> b.off) & m;
            if (!x && c.chance(2, 3)) continue;
            if (pErr && b.bits < 64 && c.chance(pErr, 1500)) { injected = true; x = m + 1; }
            DNode *q = mk(DNode::SC); q->text = b.name; if (insens(n, cfgFlags)) q->text = recase(c, q->text); d->keys.push_back(q);
            DNode *w = mk(DNode::SC); w->text = num(c, x, false); d->kids.push_back(w);
            if (pErr && c.chance(pErr, 3000)) { injected = true; w->text = "-1"; }
        }
        if (pErr && c.chance(pErr, 3000)) { injected = true; DNode *q = mk(DNode::SC); q->text = c.chance(1, 2) && n->bits.size() ? nearMiss(c, n->bits[c.draw(n->bits.size())].name) : "nosuch"; d->keys.push_back(q); d->kids.push_back(mk(DNode::SC)); d->kids.back()->text = "1"; }
        break; }
    case CYAML_IGNORE: d = junk(0); return d;
    default: d = scalarFor(n); break;
    }
    (void)field;
    if (d->anchor.empty()) maybeAnchor(n, d);
    if (c.chance(1, 60)) d->tag = d->k == DNode::SC ? "!!str " : d->k == DNode::SQ ? "!!seq " : "!!map ";
    return d;
}
void DocGen::build() { root = value(s.root, 0, false); }

// ------------------------------------------------------------------ our own emitter
namespace {
struct Em {
    DocGen &g; bool expand; std::string o;
    std::vector<std::pair<std::string, DNode *>> started;   // in start order
    std::set<DNode *> done;
    std::map<DNode *, DNode *> target;

    void walk(DNode *d) {           // resolve aliases in document order
        if (d->k == DNode::AL) {
            for (size_t i = started.size(); i > 0; i--)
                if (started[i - 1].first == d->anchor && done.count(started[i - 1].second)) { target[d] = started[i - 1].second; break; }
            return;
        }
        if (!d->anchor.empty()) started.push_back({d->anchor, d});
        for (size_t i = 0; i < d->kids.size(); i++) { if (d->k == DNode::MP) walk(d->keys[i]); walk(d->kids[i]); }
        done.insert(d);
    }
    static bool plainOk(const std::string &s, bool flow) {
        (void)flow;
        if (s.empty() || s.size() > 900) return false;
        if (!isalnum((u8)s[0]) && !((s[0] == '-' || s[0] == '+' || s[0] == '.') && s.size() > 1 && isdigit((u8)s[1])) && s != "~") return false;
        for (u8 ch : s) if (!(isalnum(ch) || ch == '_' || ch == '.' || ch == '-' || ch == '+' || ch == '~' || ch >= 0xC0 || (ch >= 0x80 && ch < 0xC0))) return false;
        return s != "---" && s != "..." && (u8)s[0] < 0x80;
    }
    void dq(const std::string &s) {
        o += '"';
        for (u8 ch : s) {
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch == '\t') o += "\\t";
            else if (ch < 32 || ch == 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
            else o += ch;
        }
        o += '"';
    }
    void scalar(DNode *d, bool flow, bool key, int ind) {
        const std::string &s = d->text;
        int st = d->style;
        if (st == 3 && !flow && !key && ind > 0) {
            bool ok = !s.empty() && s[0] != ' ' && s[0] != '\n' && s.size() < 400;
            size_t trail = 0; while (ok && trail < s.size() && s[s.size() - 1 - trail] == '\n') trail++;
            if (trail > 1) ok = false;
            for (u8 ch : s) if ((ch < 32 && ch != '\n') || ch > 126) ok = false;
            if (s.find("\n\n") != std::string::npos || s.find("\n ") != std::string::npos) ok = false;
            if (ok) {
                o += trail ? "|\n" : "|-\n";
                std::string t = trail ? s.substr(0, s.size() - 1) : s;
                size_t p = 0;
                for (;;) {
                    size_t q = t.find('\n', p);
                    o += std::string(ind, ' ') + t.substr(p, q - p);
                    if (q == std::string::npos) break;
                    o += "\n"; p = q + 1;
                }
                return;
            }
        }
        if (st == 1 || (st == 0 && !plainOk(s, flow) && !s.empty())) {
            bool ok = true;
            for (u8 ch : s) if (ch < 32 || ch == 127 || ch > 127) ok = false;
            if (ok) { o += '\''; for (char ch : s) { if (ch == '\'') o += '\''; o += ch; } o += '\''; return; }
        }
        if (st == 0 && plainOk(s, flow)) { o += s; return; }
        if (st == 0 && s.empty() && !flow && !key) return;      // empty plain scalar
        dq(s);
    }
    void props(DNode *d) {
        if (!expand && !d->anchor.empty()) o += "&" + d->anchor + " ";
        o += d->tag;
    }
    void flowVal(DNode *d, bool key) {
        if (d->k == DNode::AL) {
            if (expand && target.count(d)) { flowVal(target[d], key); return; }
            o += "*" + d->anchor + " "; return;
        }
        props(d);
        if (d->k == DNode::SC) { scalar(d, true, key, 0); return; }
        o += d->k == DNode::SQ ? "[" : "{";
        for (size_t i = 0; i < d->kids.size(); i++) {
            if (i) o += g.c.chance(1, 30) ? ",\n   " : ", ";
            if (d->k == DNode::MP) { flowVal(d->keys[i], true); o += ": "; }
            flowVal(d->kids[i], false);
        }
        o += d->k == DNode::SQ ? "]" : "}";
    }
    void nl(int) {
        if (g.pComment && g.c.chance(g.pComment, 10)) { o += g.c.chance(1, 2) ? " # comment: [x" : ""; o += "\n"; if (g.c.chance(1, 3)) o += "\n"; if (g.c.chance(1, 3)) o += "    # more\n"; return; }
        o += "\n";
    }
    void blockVal(DNode *d, int ind, bool afterDash) {     // after "key:" or "-"; ends with newline
        DNode *r = d;
        if (d->k == DNode::AL) {
            if (expand && target.count(d)) r = target[d];
            else { o += " *" + d->anchor; nl(ind); return; }
        }
        d = r;
        if (d->k == DNode::SC) {
            size_t p = o.size();
            o += " "; props(d); scalar(d, false, false, ind + 2);
            if (o.size() == p + 1) o.resize(p);
            if (o.find("|\n", p) != std::string::npos || o.find("|-\n", p) != std::string::npos) o += "\n"; else nl(ind);
            return;
        }
        if (d->flow || d->kids.empty()) { o += " "; flowVal(d, false); nl(ind); return; }
        bool pr = (!expand && !d->anchor.empty()) || !d->tag.empty();
        if (afterDash && !pr) { o += " "; body(d, ind + 2, true); return; }
        if (pr) { o += " "; props(d); }
        nl(ind);
        body(d, ind + 2, false);
    }
    void body(DNode *d, int ind, bool inlineFirst) {
        for (size_t i = 0; i < d->kids.size(); i++) {
            if (i || !inlineFirst) o += std::string(ind, ' ');
            if (d->k == DNode::SQ) { o += "-"; blockVal(d->kids[i], ind, true); }
            else {
                DNode *k = d->keys[i];
                if (k->k == DNode::SC) { props(k); scalar(k, false, true, 0); }
                else { o += "? "; flowVal(k, true); o += "\n" + std::string(ind, ' '); }
                o += ":";
                blockVal(d->kids[i], ind, false);
            }
        }
    }
    std::string run() {
        walk(g.root);
        if (g.markers) o += "---\n";
        DNode *d = g.root;
        if (d->k == DNode::AL) { o += "*" + d->anchor + "\n"; }
        else if (d->k == DNode::SC) { props(d); scalar(d, false, false, 2); o += "\n"; }
        else if (d->flow || d->kids.empty()) { flowVal(d, false); o += "\n"; }
        else {
            bool pr = (!expand && !d->anchor.empty()) || !d->tag.empty();
            if (pr) { if (!g.markers) o += "--- "; else { o.clear(); o += "--- "; } props(d); o += "\n"; }
            body(d, 0, false);
        }
        if (g.multiDoc) o += "---\nsecond: [document, 1]\n";
        else if (g.markers) o += "...\n";
        if (g.crlf) { std::string t; for (char ch : o) { if (ch == '\n') t += '\r'; t += ch; } o = t; }
        return o;
    }
};
}
std::string DocGen::emit(bool expand) { Em e{*this, expand, {}, {}, {}, {}}; return e.run(); }
std::string DocGen::text() { return emit(false); }
std::string DocGen::expanded() { return emit(true); }

// ------------------------------------------------------------------ damage to stored bytes
std::string corrupt(Choices &c, const std::string &s, std::string &what) {
    std::string o = s; char b[100];
    u64 rounds = 1 + c.draw(3);
    what.clear();
    for (u64 r = 0; r < rounds; r++) {
        size_t n = o.size(), at = n ? c.draw(n) : 0, len = 1 + (n ? c.draw(std::min<size_t>(n, 40)) : 0);
        switch (c.draw(10)) {
        case 0: o.resize(at); snprintf(b, sizeof b, "truncated at %zu; ", at); R->fired[F_TRUNC]++; break;
        case 1: if (n) { o[at] ^= 1 << c.draw(8); } snprintf(b, sizeof b, "bit flipped at %zu; ", at); R->fired[F_CORRUPT]++; break;
        case 2: if (n) o[at] = (char)c.draw(256); snprintf(b, sizeof b, "byte replaced at %zu; ", at); R->fired[F_CORRUPT]++; break;
        case 3: for (size_t i = at; i < std::min(n, at + len); i++) o[i] = 0; snprintf(b, sizeof b, "%zu bytes zeroed at %zu; ", len, at); R->fired[F_LOSTBLOCK]++; break;
        case 4: o.erase(at, len); snprintf(b, sizeof b, "%zu bytes lost at %zu; ", len, at); R->fired[F_LOSTBLOCK]++; break;
        case 5: { std::string x = o.substr(at, len); o.insert(n ? c.draw(n) : 0, x); snprintf(b, sizeof b, "%zu bytes of %zu repeated; ", len, at); R->fired[F_CORRUPT]++; break; }
        case 6: { static const char *const tok[] = {":", "- ", "{", "}", "[", "]", "&x ", "*x", "!", "|", ">", "'", "\"", "\n", "---\n", "...\n", "%", "#", "\t", "? ", "<<: ", "~", "0", "-", "9999999999999999999999", "\xff", "\xef\xbb\xbf", "\xc3"};
            const char *t = tok[c.draw(sizeof tok / sizeof *tok)]; o.insert(at, t); snprintf(b, sizeof b, "token inserted at %zu; ", at); R->fired[F_CORRUPT]++; break; }
        case 7: { for (u64 i = 1 + c.draw(20); i; i--) o += (char)c.draw(256); snprintf(b, sizeof b, "garbage appended; "); R->fired[F_CORRUPT]++; break; }
        case 8: { // two lines exchanged
            std::vector<std::string> ln; size_t p = 0;
            while (p < o.size()) { size_t q = o.find('\n', p); if (q == std::string::npos) q = o.size() - 1; ln.push_back(o.substr(p, q + 1 - p)); p = q + 1; }
            if (ln.size() > 1) { size_t i = c.draw(ln.size()), j = c.draw(ln.size()); if (c.chance(1, 2)) std::swap(ln[i], ln[j]); else ln[i] = ln[j]; o.clear(); for (auto &l : ln) o += l; }
            snprintf(b, sizeof b, "lines exchanged; "); R->fired[F_CORRUPT]++; break; }
        default: { // change digits or letters, keeps syntax
            if (n) { for (int i = 0; i < 3; i++) { size_t q = c.draw(n); if (isdigit((u8)o[q])) o[q] = '0' + c.draw(10); else if (isalpha((u8)o[q])) o[q] = 'a' + c.draw(26); } }
            snprintf(b, sizeof b, "characters changed; "); R->fired[F_CORRUPT]++; break; }
        }
        what += b;
    }
    return o;
}
