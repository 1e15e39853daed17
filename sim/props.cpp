// What a run of each property does: worlds, histories, faults, comparisons.
#include "ops.h"
#include <cmath>
#include <cerrno>
extern "C" { void *sim_mem(void *, void *, size_t); void sim_log(cyaml_log_t, void *, const char *, va_list); }

namespace {
#define BIT(o) (1ull << (o))
const u64 MEMBITS = BIT(O_LEAK) | BIT(O_LEAK_Y) | BIT(O_BADFREE) | BIT(O_MEM) | BIT(O_SHARED);

struct Text { std::string s; EvList ev; RefResult ref; unsigned flags = 0; bool injected = false, empty = false; std::string expanded; };
typedef std::shared_ptr<Text> TextP;

struct Prof {
    unsigned pAlias = 0, pErr = 20, pCorrupt = 0, pCb = 2, pDef = 3;
    bool fixedFlags = false; unsigned flags = 0;
    bool logOn = false;
    bool utf16 = true;
    unsigned modes = (1u << AM__COUNT) - 1;
};

struct World {
    Choices &c; Feat f; Prof p;
    std::unique_ptr<Schema> S; unsigned weight = 0;
    std::vector<std::unique_ptr<Env>> envs;
    Disk disk;
    std::vector<DocP> docs;
    int nfile = 0;

    World(Choices &cc, const Prof &pp) : c(cc), p(pp) {
        f.depth = 1 + c.draw(4);
        f.width = 1 + c.draw(6);
        f.pOpt = c.draw(7); f.pPtr = c.draw(9); f.pNull = c.draw(5); f.pRec = c.chance(1, 3) ? 1 + c.draw(3) : 0;
        f.pDef = p.pDef ? (p.pDef > 5 ? p.pDef : c.draw(p.pDef * 2)) : 0;
        f.pCb = p.pCb ? (p.pCb > 5 ? p.pCb : c.draw(p.pCb * 2)) : 0;
        f.odd = c.chance(1, 4); f.utf8 = c.chance(1, 4); f.style = c.chance(1, 4); f.caseF = c.chance(1, 4);
        f.fixedFocus = c.chance(1, 5); f.wideSeq = c.chance(1, 25); f.bigMap = c.chance(1, 25); f.smallCount = c.chance(1, 25);
        if (c.chance(1, 120)) { static const u8 hk[] = {1, 2, 3, 4}; f.huge = hk[c.draw(p.pAlias ? 4 : 3)]; if (f.huge == 4) { p.pAlias = 40; f.depth = 2 + c.draw(3); } if (f.huge == 1 && f.depth > 2) f.depth = 2; }
        else if (c.chance(1, 2500)) { f.huge = 6; R->enough = 16000000; f.depth = 1 + c.draw(2); f.types = 1u << CYAML_UINT | 1u << CYAML_INT | 1u << CYAML_SEQUENCE | 1u << CYAML_MAPPING | 1u << CYAML_BOOL; f.pPtr = 3; }
        else if (c.chance(1, 60)) { f.deep = 24 + c.logn(8); f.pRec = 4 + c.draw(4); if (f.depth < 3) f.depth = 3; if (f.pNull > 2) f.pNull = 2; f.width = 2 + c.draw(4); }
        if (f.smallCount && f.depth < 2) f.depth = 2;
        if (f.utf8 && c.chance(1, 3)) f.names = f.caseF = true;
        if (f.huge != 6 && c.chance(1, 3)) f.types = (unsigned)c.draw(0x1000) | 1u << CYAML_STRING;
        S = genSchema(c, f);
        weight = schemaWeight(*S);
        R->fp = mix(R->fp, S->hash() & 0);
        if (R->trace) tracef("schema: %s", S->show().c_str());
    }
    ~World() { docs.clear(); for (auto &e : envs) dropEnv(e.get()); }

    unsigned genFlags() {
        unsigned fl = 0;
        if (c.chance(f.names ? 3 : 1, 4)) fl |= CYAML_CFG_CASE_INSENSITIVE;
        if (c.chance(1, 4)) fl |= CYAML_CFG_IGNORE_UNKNOWN_KEYS;
        if (c.chance(1, 8)) fl |= CYAML_CFG_NO_ALIAS;
        if (c.chance(1, 5)) fl |= CYAML_CFG_STYLE_BLOCK; else if (c.chance(1, 5)) fl |= CYAML_CFG_STYLE_FLOW;
        if (c.chance(1, 4)) fl |= CYAML_CFG_DOCUMENT_DELIM;
        if (c.chance(1, 8)) fl |= CYAML_CFG_IGNORED_KEY_WARNING;
        return fl;
    }
    Env *newEnv(int mode = -1, unsigned flags = ~0u) {
        envs.emplace_back(new Env);
        Env *e = envs.back().get();
        if (mode < 0) { mode = c.pick({6, 2, 2, 1}); while (!(p.modes >> mode & 1)) mode = (mode + 1) % AM__COUNT; }
        if (f.huge == 6) mode = AM_INPLACE;      // entries are added one by one
        e->mode = mode;
        static const u8 fills[] = {0xA5, 0x00, 0xFF, 0x01, 0x20};
        e->fill = fills[c.draw(5)];
        if (e->fill) R->fired[F_GARBAGE]++;
        memset(&e->cfg, 0, sizeof e->cfg);
        e->cfg.mem_fn = sim_mem; e->cfg.mem_ctx = e;
        if (p.logOn || c.chance(1, 3)) { e->cfg.log_fn = sim_log; e->cfg.log_level = (cyaml_log_t)(p.logOn ? c.draw(5) : c.draw(5)); if (e->cfg.log_level > CYAML_LOG_ERROR) e->cfg.log_level = CYAML_LOG_ERROR; }
        e->cfg.log_ctx = &e->logTag;
        e->cfg.validation_ctx = &e->valTag;
        e->cfg.flags = (enum cyaml_cfg_flags)(flags != ~0u ? flags : p.fixedFlags ? p.flags : genFlags());
        e->schema = S.get();
        return e;
    }
    std::string path() { static const char *const pn[] = {"a.yaml", "dir/b.yml", "caf\xc3\xa9", "with space"}; return std::string(pn[c.draw(4)]) + std::to_string(nfile++); }

    TextP analyse(const std::string &s, unsigned flags) {
        TextP t(new Text); t->s = s; t->flags = flags;
        t->ev = parseEvents((const u8 *)s.data(), s.size());
        t->ref = refLoad(*S, flags, t->ev);
        return t;
    }
    static std::string to16(const std::string &s, bool be) {
        std::string o;
        auto put = [&](u32 u) { char hi = (char)(u >> 8), lo = (char)u; if (be) { o += hi; o += lo; } else { o += lo; o += hi; } };
        put(0xFEFF);
        for (size_t i = 0; i < s.size();) {
            u8 b = s[i]; int k = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : 4;
            u32 u = k == 1 ? b : b & ((1 << (7 - k)) - 1);
            for (int j = 1; j < k && i + j < s.size(); j++) u = u << 6 | ((u8)s[i + j] & 0x3f);
            i += k;
            if (u >= 0x10000) { u -= 0x10000; put(0xD800 | u >> 10); put(0xDC00 | (u & 0x3ff)); } else put(u);
        }
        return o;
    }
    TextP genText(unsigned flags) {
        for (int tryNo = 0;; tryNo++) {
            Feat tf = f;
            DocGen g{c, *S, tf, flags};
            g.pErr = c.chance(1, 2) ? p.pErr : 0;
            g.pAlias = tryNo > 2 ? 0 : p.pAlias;
            g.flow = c.chance(1, 3); g.pComment = c.chance(1, 4) ? 2 : 0; g.crlf = c.chance(1, 12); g.multiDoc = c.chance(1, 12); g.markers = c.chance(1, 6);
            g.budget = 30 + c.draw(150);
            if (f.huge && tryNo < 3) g.budget = f.huge == 1 ? 12000 : f.huge == 2 ? 3000 : f.huge == 3 ? 150 : 1500;
            if (f.deep && tryNo < 3) g.budget = 600 + c.draw(1200);
            try { g.build(); } catch (DocGen::TooMany &) { if (tryNo < 6) continue; g.root = g.pool[0].get(); g.root->kids.clear(); g.root->keys.clear(); }
            std::string s = g.text();
            TextP t;
            if (s.size() > (f.huge == 6 ? 3000000u : f.huge && tryNo < 3 ? 500000u : f.deep && tryNo < 3 ? 200000u : 40000u)) { if (tryNo < 4) continue; s = "{}\n"; }
            if (p.utf16 && c.chance(1, 30)) { s = to16(s, c.chance(1, 2)); probe(P_UTF16); }
            else if (c.chance(1, 40)) s = "\xef\xbb\xbf" + s;
            std::string what;
            if (p.pCorrupt && c.chance(p.pCorrupt, 100)) s = corrupt(c, s, what);
            t = analyse(s, flags);
            t->injected = g.injected || !what.empty();
            if (t->ref.tooBig) { if (tryNo < 6) continue; t = analyse("{}\n", flags); }
            if (p.pAlias && t->ref.err == CYAML_OK) t->expanded = g.expanded();
            if (s.size() > 16384) probe(P_BIGFILE);
            R->fp = mix(R->fp, hashBytes(s.data(), s.size()));
            if (R->trace) { tracef("document (%zu bytes%s%s, model: %s%s):\n%s", s.size(), what.empty() ? "" : ", damaged: ", what.c_str(), cyaml_strerror(t->ref.err), t->ref.ambiguous ? ", unspecified" : "", s.substr(0, 1500).c_str()); }
            return t;
        }
    }
    OpSpec load(Env *e, Text &t, bool file) {
        OpSpec s; s.kind = file ? K_LOAD_FILE : K_LOAD_DATA; s.env = e; s.S = S.get(); s.input = &t.s; s.ref = &t.ref; s.weight = weight; s.keepLogs = e->cfg.log_fn != nullptr;
        dirty(s.plan);
        if (file) {
            s.disk = &disk; s.path = path(); auto &d = disk.files[s.path].data; d.assign(t.s.begin(), t.s.end());
            benignRead(s.plan);
        }
        return s;
    }
    int locale = -1;
    // what an earlier, unrelated system call may have left in errno; the process's locale
    void dirty(FaultPlan &pl) {
        static const int es[] = {ERANGE, ERANGE, ENOMEM, EINTR, EINVAL};
        pl.dirtyErrno = c.chance(1, 3) ? es[c.draw(5)] : 0;
        static const char *const points[] = {",", ",", ",", "\xd9\xab"};
        if (locale < 0) locale = (int)c.pick({12, 1, 1});          // of the process: C, another, or changing
        pl.point = locale == 1 || (locale == 2 && c.chance(1, 2)) ? points[c.draw(4)] : nullptr;
    }
    void benignRead(FaultPlan &pl) {
        if (c.chance(1, 2)) { unsigned k = 1 + c.draw(4); pl.rchunk.clear(); for (unsigned i = 0; i < k; i++) pl.rchunk.push_back(c.chance(1, 6) ? 0 : 1 + (u32)c.logn(c.chance(1, 3) ? 3 : 11)); }
        if (c.chance(1, 3)) pl.bufsize = c.chance(1, 3) ? 0 : 1 + (int)c.logn(12);
    }
    void benignWrite(FaultPlan &pl) {
        if (c.chance(1, 2)) { unsigned k = 1 + c.draw(4); pl.wchunk.clear(); for (unsigned i = 0; i < k; i++) pl.wchunk.push_back(c.chance(1, 6) ? 0 : 1 + (u32)c.logn(9)); }
        if (c.chance(1, 2)) pl.bufsize = c.chance(1, 3) ? 0 : 1 + (int)c.logn(10);
    }
    OpSpec save(Doc &d, const RefSave &rs, bool carries, bool file) {
        OpSpec s; s.kind = file ? K_SAVE_FILE : K_SAVE_DATA; s.env = d.env; s.S = d.S; s.src = &d; s.rsave = &rs; s.carries = carries; s.weight = weight; s.keepLogs = false;
        dirty(s.plan);
        if (file) { s.disk = &disk; s.path = path(); if (c.chance(1, 2)) { auto &x = disk.files[s.path].data; x.assign(c.draw(3000), 'O'); } benignWrite(s.plan); }
        return s;
    }
    OpSpec copy(Doc &d, bool into) {
        OpSpec s; s.kind = into ? K_COPY_INLINE : K_COPY; s.env = d.env; s.S = d.S; s.src = &d; s.weight = weight; if (into) probe(P_COPY_INLINE); dirty(s.plan); return s;
    }
    OpRes free_(Doc &d) {
        OpSpec s; s.kind = K_FREE; s.env = d.env; s.S = d.S; s.src = &d; s.weight = weight; return execOp(s);
    }
    // documents whose root is absent have no meaning for save and copy
    static bool usable(const Doc &d) { return d.v.k != Val::NUL && d.data && !(d.n->type == CYAML_SEQUENCE && d.count == 0); }
    static bool carries(const RefSave &rs, Env *e) {
        if (rs.err != CYAML_OK) return true;
        bool hard = (e->cfg.flags & (CYAML_CFG_STYLE_BLOCK | CYAML_CFG_STYLE_FLOW)) != 0;
        for (auto &x : rs.ev) {
            if (x.style && (x.style->flags >> 7)) hard = true;
            for (u8 ch : x.text) if (ch < 32 || ch > 126) { hard = true; break; }
            if (x.text.size() > 60 || (x.text.size() && (x.text[0] == ' ' || x.text.back() == ' '))) hard = true;
        }
        return !hard || libyamlCarries(rs, e->cfg.flags);
    }
    DocP clientDoc(Env *e) {
        for (int i = 0; i < 3; i++) {
            VGen g{c, f, f.huge == 1 ? 9000 : f.huge == 2 ? 2500 : f.deep ? 900 : 60, 0, false, false};
            Val v = genVal(g, S->root, false);
            if (v.k == Val::NUL || !countsFit(S->root, v)) continue;
            if (R->trace) tracef("client builds %s", v.show(600).c_str());
            R->fp = mix(R->fp, v.hash());
            return makeDoc(c, f, e, S.get(), v);
        }
        return DocP();
    }
};

// ------------------------------------------------------------------ fault plans
enum { A_CALLOC = 1, A_YALLOC = 2, A_STREAM = 4, A_VETO = 8, A_ALL = 15 };
bool genPlan(Choices &c, OpKind kind, const Counters &n, size_t bytes, FaultPlan &p, unsigned allow) {
    unsigned w[8] = {0};
    if ((allow & A_CALLOC) && n.calloc_ > 0) w[0] = 6;
    if ((allow & A_YALLOC) && n.yalloc > 0) w[1] = 3;
    if (allow & A_STREAM) {
        if (kind == K_LOAD_FILE) { w[2] = n.reads > 0 ? 4 : 0; w[3] = 1; }
        if (kind == K_SAVE_FILE) { w[4] = n.writes > 0 ? 3 : 0; w[5] = bytes ? 3 : 0; w[6] = 2; w[3] = 1; }
    }
    if ((allow & A_VETO) && n.cbs > 0) w[7] = 3;
    unsigned tot = 0; for (unsigned x : w) tot += x;
    if (!tot) return false;
    int rounds = 1 + c.chance(1, 6);
    // further failures soon after the first: at random, or one call in every few
    auto more = [&]() -> u64 {
        if (!c.chance(1, 5)) return 0;
        u64 m = 0;
        if (c.chance(1, 2)) { unsigned st = 1 + (unsigned)c.draw(8), left = 1 + (unsigned)c.draw(8); for (unsigned i = st; i <= 64 && left; i += st, left--) m |= 1ull << (i - 1); }
        else { unsigned span = 2 + (unsigned)c.draw(14); for (unsigned i = 0; i < span; i++) if (c.chance(1, 3)) m |= 1ull << i; }
        return m;
    };
    static const int ers[] = {5, 28, 9, 11, 4, 122};    // EIO ENOSPC EBADF EAGAIN EINTR EDQUOT
    while (rounds--) {
        u64 v = c.draw(tot); int i = 0;
        while (v >= w[i]) v -= w[i++];
        switch (i) {
        case 0: p.callocK = c.draw(n.calloc_); if (c.chance(1, 5)) p.callocFrom = true; else if (c.chance(1, 8)) p.callocK2 = p.callocK + 1 + c.draw(6); else p.callocMore = more(); break;
        case 1: p.yallocK = c.draw(n.yalloc); if (c.chance(1, 5)) p.yallocFrom = true; else p.yallocMore = more(); break;
        case 2: p.readErrK = c.draw(n.reads); p.readErrno = ers[c.draw(5)]; break;
        case 3: { static const int o[] = {13, 2, 24, 12, 4}; p.openErr = o[c.draw(5)]; break; }
        case 4: p.writeErrK = c.draw(n.writes); p.writeErrno = ers[c.draw(6)]; p.writeMore = more(); break;
        case 5: p.space = c.draw(bytes); break;
        case 6: p.closeErr = true; break;
        case 7: p.vetoK = c.draw(n.cbs); break;
        }
    }
    return true;
}

bool bad() { return R->viol != O_NONE; }
bool over() { return bad() || R->steps > R->enough; }      // enough work for one run

// one operation: undisturbed, then under faults, then again undisturbed
struct Batch { unsigned faults = 1; bool sweep = false, retry = true; unsigned allow = A_ALL; unsigned bigSweep = 40; };
OpRes batch(World &w, const OpSpec &base, const Batch &b) {
    auto fresh = [&](const OpSpec &s) {
        if (s.kind == K_SAVE_FILE) { }
        return execOp(s);
    };
    OpRes r0 = fresh(base);
    if (bad()) return r0;
    unsigned bigSweep = w.f.huge ? 6 : w.f.deep ? std::min(b.bigSweep, 20u) : b.bigSweep, faults = w.f.huge ? std::min(b.faults, 2u) : b.faults;
    u64 want = r0.outcome();
    size_t bytes = r0.saved.size();
    unsigned done = 0;
    auto one = [&](const FaultPlan &pl) {
        OpSpec s = base; s.plan = pl;
        OpRes r = fresh(s);
        if (r.fired[F_CALLOC] && r.out) { }
        done++;
        if (r.out) w.free_(*r.out);
        if (r.err != CYAML_OK || r.fired[F_CALLOC]) R->nontrivial = true;
    };
    if (b.sweep && r0.cnt.calloc_ > 0) {
        i64 n = r0.cnt.calloc_, st = 1, from = 0;
        if (n > (i64)bigSweep) { st = n / bigSweep + 1; from = w.c.draw(st); }
        if (b.allow & A_CALLOC) for (i64 k = from; k < n && !over(); k += st) { FaultPlan p = base.plan; p.callocK = k; one(p); }
        if (base.kind == K_SAVE_FILE && (b.allow & A_STREAM) && bytes) {
            i64 sp = bytes / bigSweep + 1;
            for (i64 k = w.c.draw(sp); k < (i64)bytes && !over(); k += sp) { FaultPlan p = base.plan; p.space = k; one(p); }
        }
        if ((b.allow & A_VETO) && r0.cnt.cbs) { i64 sp = r0.cnt.cbs / bigSweep + 1; for (i64 k = w.c.draw(sp); k < r0.cnt.cbs && !over(); k += sp) { FaultPlan p = base.plan; p.vetoK = k; one(p); } }
    }
    for (unsigned i = 0; i < faults && !over(); i++) {
        FaultPlan p = base.plan;
        if (base.kind == K_LOAD_FILE && w.c.chance(1, 2)) w.benignRead(p);
        if (base.kind == K_SAVE_FILE && w.c.chance(1, 2)) w.benignWrite(p);
        if (!genPlan(w.c, base.kind, r0.cnt, bytes, p, b.allow)) break;
        w.dirty(p);
        one(p);
    }
    if (done && b.retry && !bad() && (!r0.isLoad || !base.ref->ambiguous)) {
        OpSpec again = base; w.dirty(again.plan);
        OpRes r1 = fresh(again);
        probe(P_RETRY);
        if (r1.outcome() != want && !bad())
            violate(O_RETRY, "repeating %s without the fault gave %s instead of %s%s", kindName(base.kind), cyaml_strerror(r1.err), cyaml_strerror(r0.err), r1.err == r0.err ? " (different data)" : "");
        if (r1.out) w.free_(*r1.out);
    }
    return r0;
}

void badParams(World &w) {
    Env *e = w.envs[w.c.draw(w.envs.size())].get();
    TextP t = w.genText(e->cfg.flags);
    OpSpec s;
    RefSave rs;
    bool haveDoc = !w.docs.empty() && World::usable(*w.docs[0]);
    unsigned k = w.c.draw(haveDoc ? 7 : 2);
    Doc *d = haveDoc ? w.docs[0].get() : nullptr;
    unsigned allow;
    if (k < 2) { s = w.load(e, *t, k == 1); allow = 1u << BP_CONFIG | 1u << BP_MEMFN | 1u << BP_SCHEMA | 1u << BP_COUNT | 1u << BP_DATA | 1u << BP_NONPTR; }
    else if (k < 4) { rs = refSave(d->n, d->v); s = w.save(*d, rs, true, k == 3); allow = 1u << BP_CONFIG | 1u << BP_MEMFN | 1u << BP_SCHEMA | 1u << BP_COUNT | 1u << BP_DATA | 1u << BP_NONPTR; }
    else if (k < 6) {
        s = w.copy(*d, k == 5 && d->n == w.S->root); allow = 1u << BP_CONFIG | 1u << BP_MEMFN | 1u << BP_SCHEMA | 1u << BP_DATA | 1u << BP_COUNT;
        allow |= s.kind == K_COPY ? 1u << BP_TARGET : 1u << BP_NULLDST;
    } else { s.kind = K_FREE; s.env = d->env; s.S = d->S; s.src = d; s.weight = w.weight; allow = 1u << BP_CONFIG | 1u << BP_MEMFN | 1u << BP_SCHEMA | 1u << BP_FREENULL; }
    unsigned b = 1 + w.c.draw(BP__COUNT - 1);
    while (!(allow >> b & 1)) b = b % (BP__COUNT - 1) + 1;
    s.bad = (BadParam)b; s.ref = nullptr; s.rsave = nullptr;
    if (w.c.chance(1, 4) && (s.kind == K_LOAD_FILE || s.kind == K_SAVE_FILE)) s.plan.openErr = 13;
    if (s.bad == BP_NULLDST && w.c.chance(1, 3)) s.plan.callocK = w.c.draw(8);
    if (w.c.chance(1, 4)) s.plan.yallocK = w.c.draw(4);
    OpRes r = execOp(s);
    if (r.err == CYAML_OK && s.bad != BP_FREENULL && !bad()) violate(O_PARAM, "%s with a bad parameter succeeded", kindName(s.kind));
    R->nontrivial = true;
}

void endDocs(World &w, Oracle o) {
    if (bad()) return;
    for (auto &d : w.docs) { if (!checkDoc(*d, o, "at the end")) return; }
    // in a drawn order, sometimes with other documents checked in between
    while (!w.docs.empty() && !bad()) {
        size_t i = w.c.draw(w.docs.size());
        w.free_(*w.docs[i]);
        w.docs.erase(w.docs.begin() + i);
        for (auto &d : w.docs) { if (!checkDoc(*d, o, "after freeing another document")) return; }
    }
}

struct HistOpt { unsigned maxOps = 5; Batch b; bool params = false; bool files = true; unsigned wLoad = 4, wSave = 3, wCopy = 3, wMut = 1, wFree = 1, wClient = 2; bool onlyFile = false; Oracle docOracle = O_SHARED; };
void history(World &w, const HistOpt &o) {
    Choices &c = w.c;
    w.newEnv();
    if (c.chance(1, 4)) w.newEnv();
    unsigned n = 1 + c.draw(o.maxOps);
    TextP last;
    for (unsigned i = 0; i < n && !over(); i++) {
        Env *e = w.envs[c.draw(w.envs.size())].get();
        bool have = !w.docs.empty();
        Doc *d = have ? w.docs[c.draw(w.docs.size())].get() : nullptr;
        bool us = d && World::usable(*d);
        unsigned act = c.pick({o.wLoad, us ? o.wSave : 0, us ? o.wCopy : 0, us ? o.wMut : 0, have ? o.wFree : 0, o.wClient, o.params ? 2u : 0u});
        Batch b = o.b;
        if (b.sweep && !c.chance(1, 4)) b.sweep = false;
        switch (act) {
        case 0: {
            TextP t = last && last->flags == (unsigned)e->cfg.flags && c.chance(1, 3) ? last : w.genText(e->cfg.flags);
            last = t;
            OpSpec s = w.load(e, *t, o.onlyFile || (o.files && c.chance(1, 2)));
            OpRes r = batch(w, s, b);
            if (r.out) { if (w.docs.size() < 4) w.docs.push_back(std::move(r.out)); else w.free_(*r.out); }
            break; }
        case 1: {
            RefSave rs = refSave(d->n, d->v);
            bool car = World::carries(rs, d->env);
            OpSpec s = w.save(*d, rs, car, o.onlyFile || (o.files && c.chance(1, 2)));
            OpRes r = batch(w, s, b);
            break; }
        case 2: {
            if (d->n != w.S->root) break;
            OpSpec s = w.copy(*d, c.chance(1, 5) && !(w.S->root->type == CYAML_SEQUENCE && d->count == 0));
            OpRes r = batch(w, s, b);
            if (r.out) { if (w.docs.size() < 4 && r.out->n == w.S->root) w.docs.push_back(std::move(r.out)); else w.free_(*r.out); }
            break; }
        case 3: if (d->n == w.S->root && mutateDoc(c, w.f, d->env, &d->h, d->n, d->data, d->v)) tracef("    client changes a value: %s", d->v.show(200).c_str()); break;
        case 4: {
            size_t k = 0; while (w.docs[k].get() != d) k++;
            if (!checkDoc(*d, o.docOracle, "before free")) return;
            w.free_(*d); w.docs.erase(w.docs.begin() + k);
            break; }
        case 5: { DocP q = w.clientDoc(e); if (q && w.docs.size() < 4) w.docs.push_back(std::move(q)); else if (q) w.free_(*q); break; }
        case 6: badParams(w); break;
        }
    }
    endDocs(w, o.docOracle);
}

// ------------------------------------------------------------------ round trips
bool rtSafe(const SNode *n, const Val &v, bool field) {
    if (v.k == Val::IGN) return true;
    if (v.k == Val::NUL) {
        if (field && n->opt() && n->ptr()) return true;             // omitted
        if (n->nullable()) return true;
        return n->type == CYAML_SEQUENCE && n->smin == 0;
    }
    u64 full = n->dsize >= 8 ? ~0ull : (1ull << (n->dsize * 8)) - 1;
    switch (n->type) {
    case CYAML_INT: { i64 x = signExt(v.n, n->dsize); return !(n->imin || n->imax) || (x >= n->imin && x <= n->imax); }
    case CYAML_UINT: return !(n->umin || n->umax) || (v.n >= n->umin && v.n <= n->umax);
    case CYAML_BITFIELD: { u64 m = 0; for (auto &b : n->bits) m |= (b.bits >= 64 ? ~0ull : ((1ull << b.bits) - 1)) << b.off; return (v.n & ~m) == 0; }
    case CYAML_FLAGS: if (n->strict()) { u64 m = 0; for (auto &s : n->strs) m |= (u64)s.second; return (v.n & ~m & full) == 0; } return true;
    case CYAML_ENUM: if (n->strict()) { for (auto &s : n->strs) if (maskSize((u64)s.second, n->dsize) == v.n) return true; return false; } return true;
    case CYAML_BOOL: return v.n < 2;
    case CYAML_FLOAT: {
        if (!n->strict()) return true;
        double d; if (n->dsize == 4) { float x; u32 q = (u32)v.n; memcpy(&x, &q, 4); d = x; } else memcpy(&d, &v.n, 8);
        return std::isfinite(d) && (d == 0 || std::fabs(d) > 3e-308); }
    case CYAML_STRING:
        if (v.s.size() < n->smin || v.s.size() > n->smax) return false;
        if (n->nullable() && v.s.empty()) return false;
        return !(n->nullstr() && (v.s == "~" || v.s == "null" || v.s == "Null" || v.s == "NULL"));
    case CYAML_MAPPING:
        for (size_t i = 0; i < v.kids.size(); i++) {
            const SNode *k = n->map->fields[i].val;
            if (k->type == CYAML_IGNORE && !k->opt()) return false;     // a required key that saving leaves out
            if (!rtSafe(k, v.kids[i], true)) return false;
        }
        return true;
    case CYAML_SEQUENCE: case CYAML_SEQUENCE_FIXED:
        if (v.kids.size() < n->smin || v.kids.size() > n->smax) return false;
        for (auto &k : v.kids) if (!rtSafe(n->entry, k, false)) return false;
        return true;
    default: return true;
    }
}
// what a conforming value reloads as
Val rtExpect(const SNode *n, const Val &v) {
    if (v.k == Val::MAP) {
        Val o = v;
        for (size_t i = 0; i < v.kids.size(); i++) {
            const SNode *k = n->map->fields[i].val;
            if (v.kids[i].k == Val::NUL && k->opt() && k->ptr()) { if (k->hasDef) o.kids[i] = k->def; }
            else o.kids[i] = rtExpect(k, v.kids[i]);
        }
        return o;
    }
    if (v.k == Val::SEQ) { Val o = v; for (auto &k : o.kids) k = rtExpect(n->entry, k); return o; }
    return v;
}

void roundTrip(World &w) {
    Choices &c = w.c;
    unsigned flags = w.genFlags();
    Env *e = w.newEnv(-1, flags);
    Env *e2 = w.newEnv(-1, flags & (CYAML_CFG_CASE_INSENSITIVE));     // the restarted client
    DocP d;
    if (c.chance(1, 2)) d = w.clientDoc(e);
    else { TextP t = w.genText(flags); OpRes r = execOp(w.load(e, *t, c.chance(1, 3))); d = std::move(r.out); }
    if (!d || bad()) { if (d) w.free_(*d); return; }
    if (World::usable(*d) && d->n == w.S->root && c.chance(1, 4)) mutateDoc(c, w.f, e, &d->h, d->n, d->data, d->v);
    if (World::usable(*d) && c.chance(1, 4)) {
        OpRes r = execOp(w.copy(*d, false));
        if (r.out) { w.free_(*d); d = std::move(r.out); }
    }
    unsigned rounds = 1 + c.draw(3);
    std::string path = w.path();
    Val orig = d->v;
    bool safe = rtSafe(d->n, d->v, false);
    for (unsigned i = 0; i < rounds && !over() && World::usable(*d); i++) {
        RefSave rs = refSave(d->n, d->v);
        bool car = World::carries(rs, d->env);
        bool file = c.chance(2, 3);
        OpSpec s = w.save(*d, rs, car, file);
        if (file) { s.path = path; }
        size_t j0 = w.disk.journal.size();
        SimFile before = w.disk.files[path];
        if (!file) { }
        OpRes r = execOp(s);
        if (bad() || r.err != CYAML_OK) break;
        if (!car) break;
        R->nontrivial = true;
        std::string bytes = r.saved;
        Val expect = rtExpect(d->n, d->v);
        // crash during this save: only what the journal holds survives
        if (file) {
            size_t jn = w.disk.journal.size() - j0;
            if (jn > 2) probe(P_SAVE_MULTIFLUSH);
            unsigned crashes = 1 + c.draw(3);
            for (unsigned k = 0; k < crashes && !over(); k++) {
                size_t at = c.draw(jn + 1);
                bool torn = at < jn && c.chance(1, 2);
                std::vector<u8> img = before.data;
                for (size_t q = 0; q <= at && q < jn; q++) {
                    auto &jo = w.disk.journal[j0 + q].second;
                    size_t len = jo.data.size();
                    if (q == at) { if (!torn) break; len = len ? c.draw(len) : 0; R->fired[F_TORN]++; }
                    if (jo.trunc) { if (q < at || torn) img.clear(); continue; }
                    if (img.size() < jo.off + len) img.resize(jo.off + len);
                    memcpy(img.data() + jo.off, jo.data.data(), len);
                }
                R->fired[F_CRASH]++;
                tracef("    crash after %zu of %zu disk writes%s; restart; file holds %zu of %zu bytes", at, jn, torn ? " (torn)" : "", img.size(), bytes.size());
                std::string cp = w.path();
                w.disk.files[cp].data = img;
                TextP t = w.analyse(std::string(img.begin(), img.end()), e2->cfg.flags);
                OpSpec ls; ls.kind = K_LOAD_FILE; ls.env = e2; ls.S = w.S.get(); ls.disk = &w.disk; ls.path = cp; ls.input = &t->s; ls.ref = &t->ref; ls.weight = w.weight;
                w.benignRead(ls.plan);
                OpRes lr = execOp(ls);
                if (lr.err == CYAML_OK) probe(P_TORNLOAD_OK);
                if (img.size() == bytes.size() && !memcmp(img.data(), bytes.data(), bytes.size()) && safe && !bad()) {
                    if (lr.err != CYAML_OK) violate(O_ROUNDTRIP, "the complete file does not load after the restart: %s", cyaml_strerror(lr.err));
                }
                // save again over what is there: must restore the document
                if (!bad() && c.chance(1, 2)) {
                    OpSpec s2 = s; s2.path = cp;
                    OpRes r2 = execOp(s2);
                    if (!bad() && (r2.err != CYAML_OK || r2.saved != bytes)) violate(O_ROUNDTRIP, "saving again after the crash gave %s%s", cyaml_strerror(r2.err), r2.err ? "" : " with different content");
                }
                if (lr.out) w.free_(*lr.out);
            }
        }
        if (bad()) break;
        // a failed save in between changes nothing about later saves
        if (c.chance(1, 4)) {
            FaultPlan fp = s.plan; OpSpec sf = s;
            if (genPlan(c, s.kind, r.cnt, bytes.size(), fp, A_ALL)) { sf.plan = fp; execOp(sf); R->nontrivial = true; OpRes r3 = execOp(s); if (!bad() && (r3.err || r3.saved != bytes)) violate(O_ROUNDTRIP, "saving after a failed save gave %s%s", cyaml_strerror(r3.err), r3.err ? "" : " with different content"); }
        }
        // reload by the other client
        TextP t = w.analyse(bytes, e2->cfg.flags);
        OpSpec ls;
        if (file) { ls.kind = K_LOAD_FILE; ls.disk = &w.disk; ls.path = path; w.benignRead(ls.plan); } else ls.kind = K_LOAD_DATA;
        ls.env = i % 2 ? e : e2; ls.S = w.S.get(); ls.input = &t->s; ls.ref = nullptr; ls.weight = w.weight;
        OpRes lr = execOp(ls);
        if (bad()) break;
        if (safe) {
            if (lr.err != CYAML_OK) violate(O_ROUNDTRIP, "saved document does not load: %s", cyaml_strerror(lr.err));
            else if (!sameVal(d->n, expect, lr.out->v)) violate(O_ROUNDTRIP, "reloaded document differs from what was saved %s", diffVal(d->n, expect, lr.out->v).c_str());
            if (!bad()) {
                w.free_(*d);
                d = std::move(lr.out);
                safe = rtSafe(d->n, d->v, false);       // defaults filled in need not conform themselves
            }
        } else if (lr.out) w.free_(*lr.out);
    }
    if (d && !bad()) w.free_(*d);
}

// ------------------------------------------------------------------ comparisons between configurations
void sameOutcome(Oracle o, const OpRes &a, const OpRes &b, const char *what) {
    if (bad() || a.outcome() == b.outcome()) return;
    violate(o, "%s: %s %s", what, a.err != b.err ? cyaml_strerror(a.err) : "same status, different data;", a.err != b.err ? cyaml_strerror(b.err) : "");
}
void loadFidelity(World &w) {
    Choices &c = w.c;
    Env *e = w.newEnv();
    unsigned n = 1 + c.draw(3);
    for (unsigned i = 0; i < n && !over(); i++) {
        TextP t = w.genText(e->cfg.flags);
        OpRes a = execOp(w.load(e, *t, false));
        unsigned k = 1 + c.draw(3);
        for (unsigned j = 0; j < k && !over(); j++) {
            OpSpec s = w.load(e, *t, true);
            OpRes b = execOp(s);
            R->nontrivial = true;
            if (!t->ref.ambiguous || a.err == b.err) sameOutcome(O_DIVERGE, a, b, "loading from a buffer and from a file delivered in pieces differ");
            if (b.out) w.free_(*b.out);
        }
        if (a.out) w.free_(*a.out);
    }
}
void damaged(World &w) {
    Choices &c = w.c;
    Env *e = w.newEnv();
    TextP t0 = w.genText(e->cfg.flags);
    std::string base = t0->s;
    OpRes a = execOp(w.load(e, *t0, false));
    if (a.out && World::usable(*a.out) && !bad()) {
        RefSave rs = refSave(a.out->n, a.out->v);
        OpSpec s = w.save(*a.out, rs, World::carries(rs, e), false);
        OpRes sv = execOp(s);
        if (sv.err == CYAML_OK && sv.saved.size()) base = sv.saved;
    }
    if (a.out) w.free_(*a.out);
    unsigned n = 2 + c.draw(8);
    for (unsigned i = 0; i < n && !over(); i++) {
        std::string what, s = corrupt(c, c.chance(1, 4) ? t0->s : base, what);
        TextP t = w.analyse(s, e->cfg.flags);
        if (t->ref.tooBig) continue;
        tracef("damaged document (%s model: %s%s):\n%s", what.c_str(), cyaml_strerror(t->ref.err), t->ref.ambiguous ? ", unspecified" : "", s.substr(0, 1500).c_str());
        OpSpec ls = w.load(e, *t, c.chance(1, 2));
        R->fp = mix(R->fp, hashBytes(s.data(), s.size()));
        Batch b; b.faults = c.chance(1, 4) ? 1 : 0; b.retry = false;
        OpRes r = batch(w, ls, b);
        probe(r.err == CYAML_OK ? P_CORRUPT_OK : P_CORRUPT_ERR);
        R->nontrivial = true;
        if (r.out) w.free_(*r.out);
    }
}
void aliases(World &w) {
    Choices &c = w.c;
    unsigned flags = w.genFlags();
    Env *e = w.newEnv(-1, flags);
    unsigned n = 1 + c.draw(3);
    for (unsigned i = 0; i < n && !over(); i++) {
        TextP t = w.genText(flags);
        OpSpec s = w.load(e, *t, c.chance(1, 3));
        Batch b; b.faults = c.chance(1, 3) ? 2 : 0; b.sweep = c.chance(1, 8); b.allow = A_CALLOC | A_YALLOC | A_VETO; b.retry = false;
        OpRes r = batch(w, s, b);
        if (t->ref.usedAlias) R->nontrivial = true;
        if (!bad() && t->ref.usedAlias && t->ref.err == CYAML_OK && !t->ref.ambiguous && r.err == CYAML_OK && !t->injected && t->s.size() < 30000 && (u8)t->s[0] < 0x80) {
            TextP x = w.analyse(t->expanded, flags);
            if (!x->ev.error) {
                OpSpec sx = w.load(e, *x, false); sx.ref = nullptr;
                if (R->trace) tracef("expanded document:\n%s", x->s.substr(0, 1500).c_str());
                OpRes rx = execOp(sx);
                if (!bad() && (rx.err != CYAML_OK || !rx.out || !sameVal(w.S->root, rx.out->v, r.out->v)))
                    violate(O_ALIAS, "document with aliases loads differently from the document with them written out: %s", rx.err ? cyaml_strerror(rx.err) : diffVal(w.S->root, rx.out->v, r.out->v).c_str());
                if (rx.out) w.free_(*rx.out);
            }
        }
        // each expansion has its own memory
        if (r.out && !bad()) {
            if (World::usable(*r.out) && c.chance(1, 2)) {
                for (int k = 0; k < 3; k++) mutateDoc(c, w.f, e, &r.out->h, r.out->n, r.out->data, r.out->v);
                checkDoc(*r.out, O_ALIAS, "after changing one value");
            }
            w.free_(*r.out);
        }
        // a foreign setting: aliases disabled
        if (!bad() && c.chance(1, 4)) {
            Env *e3 = w.newEnv(-1, flags ^ CYAML_CFG_NO_ALIAS);
            TextP y = w.analyse(t->s, e3->cfg.flags);
            if (y->ref.tooBig) continue;
            OpRes ry = execOp(w.load(e3, *y, false));
            if (ry.out) w.free_(*ry.out);
        }
    }
}
void defaults(World &w) {
    Choices &c = w.c;
    Env *e = w.newEnv(); Env *e2 = w.newEnv(-1, e->cfg.flags);
    unsigned n = 1 + c.draw(4);
    TextP last;
    for (unsigned i = 0; i < n && !over(); i++) {
        TextP t = last && c.chance(1, 2) ? last : w.genText(e->cfg.flags);
        last = t;
        Env *x = c.chance(1, 2) ? e : e2;
        OpSpec s = w.load(x, *t, false);
        Batch b; b.faults = c.chance(1, 2) ? 2 : 0; b.sweep = c.chance(1, 6); b.allow = A_CALLOC; 
        OpRes r = batch(w, s, b);
        if (t->ref.usedDefault) { R->nontrivial = true; if (r.cnt.calloc_) probe(P_FAULT_IN_DEFAULT); }
        if (!bad() && r.out) {
            if (World::usable(*r.out) && c.chance(2, 3)) {
                for (int k = 0; k < 4; k++) mutateDoc(c, w.f, x, &r.out->h, r.out->n, r.out->data, r.out->v);
                checkDoc(*r.out, O_DEFAULT, "after changing values");
            }
            for (auto &d : w.docs) if (!bad()) checkDoc(*d, O_DEFAULT, "after another document changed");
            if (w.docs.size() < 3) w.docs.push_back(std::move(r.out));
            else w.free_(*r.out);
        }
    }
    endDocs(w, O_DEFAULT);
}
void callbacks(World &w) {
    Choices &c = w.c;
    Env *e = w.newEnv();
    unsigned n = 1 + c.draw(3);
    for (unsigned i = 0; i < n && !over(); i++) {
        TextP t = w.genText(e->cfg.flags);
        OpSpec s = w.load(e, *t, c.chance(1, 4));
        Batch b; b.faults = c.chance(1, 2) ? 2 : 0; b.sweep = c.chance(1, 2); b.allow = c.chance(1, 4) ? A_ALL : A_VETO; b.bigSweep = 25;
        OpRes r = batch(w, s, b);
        if (r.cnt.cbs) R->nontrivial = true;
        if (r.out) {
            if (!bad() && World::usable(*r.out) && c.chance(1, 4)) { OpRes r2 = execOp(w.copy(*r.out, false)); if (r2.out) w.free_(*r2.out); }
            w.free_(*r.out);
        }
    }
}
void allocators(World &w) {
    Choices &c = w.c;
    unsigned flags = w.genFlags();
    static const int modes[] = {AM_MOVE, AM_INPLACE, AM_REUSE, AM_DEFAULT};
    static const u8 fills[] = {0xA5, 0x00, 0xFF};
    TextP t = w.genText(flags);
    i64 failK = -1;
    std::vector<Env *> es;
    for (int m : modes) { Env *e = w.newEnv(m, flags); e->fill = fills[c.draw(3)]; e->cfg.log_fn = nullptr; es.push_back(e); }
    unsigned first = c.draw(4);
    OpRes ref; bool have = false; std::vector<OpRes> hold;
    u64 saved0 = 0, copy0 = 0; bool s0 = false, c0 = false;
    for (unsigned i = 0; i < 4 && !over(); i++) {
        Env *e = es[(first + i) % 4];
        unsigned reps = e->mode == AM_REUSE ? 2 : 1;
        for (unsigned q = 0; q < reps && !over(); q++) {
            OpSpec s = w.load(e, *t, false);
            OpRes r = execOp(s);
            R->nontrivial = true;
            if (!have) { ref.err = r.err; have = true; if (r.out) { ref.out.reset(new Doc); ref.out->v = r.out->v; ref.out->count = r.out->count; } failK = r.cnt.calloc_ ? (i64)c.draw(r.cnt.calloc_) : -1; }
            else sameOutcome(O_DIVERGE, ref, r, "the allocator's behaviour changed the result of a load");
            if (r.out && World::usable(*r.out) && !bad()) {
                RefSave rs = refSave(r.out->n, r.out->v);
                OpSpec ss = w.save(*r.out, rs, World::carries(rs, e), false);
                OpRes sr = execOp(ss);
                if (!s0) { s0 = true; saved0 = sr.outcome(); } else if (!bad() && sr.outcome() != saved0) violate(O_DIVERGE, "the allocator's behaviour changed the result of a save");
                // out of space part-way
                if (!bad() && sr.cnt.calloc_ && c.chance(1, 2)) { ss.plan.callocK = c.draw(sr.cnt.calloc_); execOp(ss); }
                if (!bad()) {
                    OpSpec cs = w.copy(*r.out, c.chance(1, 5));
                    OpRes cr = execOp(cs);
                    u64 h = mix(cr.err, cr.out ? cr.out->v.hash() : 0);
                    if (!c0) { c0 = true; copy0 = h; } else if (!bad() && h != copy0) violate(O_DIVERGE, "the allocator's behaviour changed the result of a copy");
                    if (!bad() && cr.cnt.calloc_ && c.chance(1, 2)) { cs.plan.callocK = c.draw(cr.cnt.calloc_); OpRes x = execOp(cs); if (x.out) w.free_(*x.out); }
                    if (cr.out) w.free_(*cr.out);
                }
            }
            if (r.out) w.free_(*r.out);
            if (failK >= 0 && !bad()) { s.plan.callocK = failK; OpRes x = execOp(s); if (x.out) w.free_(*x.out); }
            if (c.chance(1, 4) && !bad()) { s.plan.callocK = -1; s.plan.callocBig = 1 + c.logn(10); OpRes x = execOp(s); if (x.out) w.free_(*x.out); }
        }
    }
}
void logging(World &w) {
    Choices &c = w.c;
    unsigned flags = w.genFlags();
    Env *off = w.newEnv(AM_MOVE, flags); off->cfg.log_fn = nullptr;
    std::vector<Env *> es;
    for (int i = 0; i < 2; i++) { Env *e = w.newEnv(AM_MOVE, flags); e->fill = off->fill; e->cfg.log_fn = sim_log; e->cfg.log_level = (cyaml_log_t)(i == 0 ? CYAML_LOG_DEBUG : c.draw(5)); es.push_back(e); }
    unsigned n = 1 + c.draw(3);
    // the library's own log function, given what sim_log was given
    auto stdLog = [&](const OpSpec &s, const OpRes &b) {
        if (bad() || !c.chance(1, 3)) return;
        OpSpec q = s; cyaml_log_t lv = s.env->cfg.log_level;
        cyaml_log_fn_t keep = s.env->cfg.log_fn;
        s.env->cfg.log_fn = cyaml_log; q.keepLogs = false;
        OpRes r = execOp(q);
        s.env->cfg.log_fn = keep;
        std::string want, got = r.logText();
        size_t at = 0;
        if (!bad()) sameOutcome(O_DIVERGE, b, r, "the library's log function changed the result");
        static const char *const lvName[] = {"DEBUG", "INFO", "NOTICE", "WARNING", "ERROR"};
        for (auto &l : b.logs) {
            if (bad() || l.level < (int)lv || l.level > 4 || l.msg.empty()) continue;
            OpRes one; one.errText = l.msg; want = one.logText();
            size_t f = got.find(want, at);
            if (f == std::string::npos) { violate(O_LOG, "cyaml_log did not write the message \"%s\" to the standard error stream", want.c_str()); break; }
            size_t nm = got.find(lvName[l.level], at);
            if (nm == std::string::npos || nm > f) violate(O_LOG, "cyaml_log did not name the level of the message \"%s\"", want.c_str());
            at = f + want.size();
        }
        if (r.out) w.free_(*r.out);
    };
    // the messages at a level are those of the debug level that are at least as important
    auto filtered = [&](const std::vector<LogRec> &all, const OpRes &some, const char *what) {
        if (bad()) return;
        OpRes want;
        for (auto &l : all) if (l.level >= (int)es[1]->cfg.log_level) want.logs.push_back(l);
        if (want.logText() != some.logText()) violate(O_LOG, "%s at level %d logged other messages than those of that level at the debug level:\n%.300s\ninstead of\n%.300s", what, (int)es[1]->cfg.log_level, some.logText().c_str(), want.logText().c_str());
    };
    for (unsigned i = 0; i < n && !over(); i++) {
        std::vector<LogRec> dbgL, dbgS, dbgC; FaultPlan sp, cp; bool saveFault = false, copyFault = false; const char *savePoint = nullptr;
        TextP t = w.genText(flags);
        FaultPlan fp; bool faulted = false;
        OpSpec a0 = w.load(off, *t, false);
        OpRes a = execOp(a0);
        fp.point = a0.plan.point;
        if (c.chance(1, 2)) faulted = genPlan(c, K_LOAD_DATA, a.cnt, 0, fp, A_ALL);
        if (faulted) { if (a.out) w.free_(*a.out); OpSpec s = w.load(off, *t, false); s.plan = fp; a = execOp(s); }
        for (Env *e : es) {
            OpSpec s = w.load(e, *t, false); s.keepLogs = true; s.plan = fp;
            OpRes b = execOp(s);
            R->nontrivial = true;
            if (e == es[0]) dbgL = b.logs; else { filtered(dbgL, b, "load"); stdLog(s, b); }
            if (!bad()) { sameOutcome(O_DIVERGE, a, b, "logging changed the result of a load"); if (!bad() && a.cnt.calloc_ != b.cnt.calloc_) violate(O_DIVERGE, "logging changed a load's allocations: %lld, %lld", (long long)a.cnt.calloc_, (long long)b.cnt.calloc_); }
            if (b.out && World::usable(*b.out) && a.out && !bad()) {
                RefSave rs = refSave(b.out->n, b.out->v); bool car = World::carries(rs, e);
                OpSpec s1 = w.save(*a.out, rs, car, false), s2 = w.save(*b.out, rs, car, false);
                if (e == es[0]) savePoint = s1.plan.point; else s1.plan.point = savePoint;
                s2.plan.point = s1.plan.point;
                OpRes x = execOp(s1);
                if (e == es[0]) saveFault = c.chance(1, 2) && genPlan(c, K_SAVE_DATA, x.cnt, x.saved.size(), sp, A_ALL);
                if (saveFault) { s1.plan = sp; s2.plan = sp; x = execOp(s1); }
                s2.keepLogs = true;
                OpRes y = execOp(s2);
                if (e == es[0]) dbgS = y.logs; else { filtered(dbgS, y, "save"); if (!bad()) stdLog(s2, y); }
                if (!bad()) { sameOutcome(O_DIVERGE, x, y, "logging changed the result of a save"); if (!bad() && x.cnt.calloc_ != y.cnt.calloc_) violate(O_DIVERGE, "logging changed a save's allocations"); }
                OpSpec c1 = w.copy(*a.out, false), c2 = w.copy(*b.out, false);
                if (!bad()) {
                    OpRes p = execOp(c1);
                    if (e == es[0]) copyFault = c.chance(1, 2) && genPlan(c, K_COPY, p.cnt, 0, cp, A_CALLOC);
                    if (copyFault) { if (p.out) w.free_(*p.out); c1.plan = cp; c2.plan = cp; p = execOp(c1); }
                    c2.keepLogs = true;
                    OpRes q = execOp(c2);
                    if (e == es[0]) dbgC = q.logs; else filtered(dbgC, q, "copy");
                    if (!bad()) { sameOutcome(O_DIVERGE, p, q, "logging changed the result of a copy"); if (!bad() && p.cnt.calloc_ != q.cnt.calloc_) violate(O_DIVERGE, "logging changed a copy's allocations"); }
                    if (p.out) w.free_(*p.out);
                    if (q.out) w.free_(*q.out);
                }
            }
            if (b.out) w.free_(*b.out);
            if (bad()) break;
        }
        if (a.out) w.free_(*a.out);
    }
    // data no load produces: failing saves and copies with logging on
    if (!bad() && c.chance(1, 2)) {
        DocP d = w.clientDoc(es[0]);
        if (d) {
            RefSave rs = refSave(d->n, d->v);
            OpSpec s = w.save(*d, rs, World::carries(rs, d->env), false);
            Batch b; b.faults = 3; batch(w, s, b);
            if (!bad()) { OpRes r = batch(w, w.copy(*d, false), b); if (r.out) w.free_(*r.out); }
            w.free_(*d);
        }
    }
}
void saving(World &w) {
    Choices &c = w.c; R->styles = true;
    unsigned flags = w.genFlags();
    Env *e = w.newEnv(-1, flags);
    unsigned n = 1 + c.draw(3);
    for (unsigned i = 0; i < n && !over(); i++) {
        DocP d;
        if (c.chance(1, 3)) { TextP t = w.genText(flags); OpRes r = execOp(w.load(e, *t, false)); d = std::move(r.out); }
        else {
            d = w.clientDoc(e);
            // sometimes values the schema cannot express
            if (d && c.chance(1, 3)) for (int k = 0; k < 2; k++) mutateDoc(c, w.f, e, &d->h, d->n, d->data, d->v);
        }
        if (!d) continue;
        if (!World::usable(*d)) { w.free_(*d); continue; }
        R->nontrivial = true;
        // null out or unname something
        RefSave rs = refSave(d->n, d->v);
        bool car = World::carries(rs, e);
        OpRes a = execOp(w.save(*d, rs, car, false));
        for (unsigned k = 0; k < 2 && !over(); k++) {
            OpRes b = execOp(w.save(*d, rs, car, true));
            if (!bad() && (a.err != b.err || (!a.err && a.saved != b.saved))) violate(O_DIVERGE, "save_file and save_data give different bytes or status (%s, %s)", cyaml_strerror(a.err), cyaml_strerror(b.err));
        }
        // presentation only
        if (!bad() && c.chance(1, 2)) {
            unsigned fl2 = w.genFlags();
            Env *e2 = w.newEnv(e->mode, fl2);
            DocP d2 = makeDoc(c, w.f, e2, w.S.get(), d->v);
            bool car2 = World::carries(rs, e2);
            OpRes b = execOp(w.save(*d2, rs, car2, false));
            if (!bad() && car && car2 && a.err != b.err) violate(O_DIVERGE, "style settings changed the status of a save: %s, %s", cyaml_strerror(a.err), cyaml_strerror(b.err));
            if (!bad() && car && car2 && !b.err) {
                bool delim = b.saved.size() >= 3 && !b.saved.compare(0, 3, "---");
                if ((fl2 & CYAML_CFG_DOCUMENT_DELIM) && !delim) violate(O_SAVE, "document delimiters were requested but the output does not start with one");
            }
            w.free_(*d2);
        }
        w.free_(*d);
    }
}
void copies(World &w) {
    Choices &c = w.c;
    Env *e = w.newEnv();
    DocP d;
    if (c.chance(1, 2)) d = w.clientDoc(e);
    else { TextP t = w.genText(e->cfg.flags); OpRes r = execOp(w.load(e, *t, false)); d = std::move(r.out); }
    if (!d) return;
    w.docs.push_back(std::move(d));
    unsigned n = 2 + c.draw(7);
    for (unsigned i = 0; i < n && !over() && !w.docs.empty(); i++) {
        size_t k = c.draw(w.docs.size());
        Doc *x = w.docs[k].get();
        if (!World::usable(*x)) break;
        switch (c.pick({5, 3, 2, 1})) {
        case 0: {
            if (x->n != w.S->root) break;
            OpSpec s = w.copy(*x, c.chance(1, 4));
            if (c.chance(1, 3)) s.env = w.envs.size() > 1 && c.chance(1, 2) ? w.envs[1].get() : s.env;
            Batch b; b.faults = c.chance(1, 2) ? 2 : 0; b.sweep = c.chance(1, 5); b.allow = A_CALLOC; b.bigSweep = 60;
            OpRes r = batch(w, s, b);
            R->nontrivial = true;
            if (r.out) { if (w.docs.size() < 5) w.docs.push_back(std::move(r.out)); else w.free_(*r.out); }
            break; }
        case 1: if (x->n == w.S->root && mutateDoc(c, w.f, x->env, &x->h, x->n, x->data, x->v)) tracef("    client changes document %zu: %s", k, x->v.show(200).c_str()); break;
        case 2: if (w.docs.size() > 1) { tracef("    free document %zu", k); w.free_(*x); w.docs.erase(w.docs.begin() + k); } break;
        case 3: { if (x->n != w.S->root) break; RefSave rs = refSave(x->n, x->v); execOp(w.save(*x, rs, World::carries(rs, x->env), false)); break; }
        }
        for (auto &q : w.docs) if (!bad()) checkDoc(*q, O_COPY, "after operations on another document");
    }
    endDocs(w, O_COPY);
}

// ------------------------------------------------------------------ concurrency and re-entrancy
struct Job { OpSpec s; RefSave rs; TextP t; u64 want = 0; cyaml_err_t wantErr = CYAML_OK; std::string wantSaved, wantLog; Val wantVal; };
struct Lane { std::vector<std::unique_ptr<Job>> jobs; std::vector<DocP> keep; Disk disk; };

bool addJob(World &w, Lane &l, Env *e, bool faults) {
    Choices &c = w.c;
    std::unique_ptr<Job> j(new Job);
    unsigned k = c.pick({4, 5, 2});
    if (k == 0) {
        j->t = w.genText(e->cfg.flags);
        j->s = w.load(e, *j->t, c.chance(1, 4));
        if (j->s.kind == K_LOAD_FILE) { l.disk.files[j->s.path] = w.disk.files[j->s.path]; j->s.disk = &l.disk; }
    } else {
        DocP d = w.clientDoc(e);
        if (!d || !World::usable(*d)) { if (d) { w.free_(*d); } return false; }
        j->rs = refSave(d->n, d->v);
        bool car = World::carries(j->rs, e);
        if (k == 1) { j->s = w.save(*d, j->rs, car, c.chance(1, 3)); if (j->s.kind == K_SAVE_FILE) j->s.disk = &l.disk; j->s.rsave = &j->rs; }
        else j->s = w.copy(*d, false);
        l.keep.push_back(std::move(d));
    }
    j->s.keepLogs = e->cfg.log_fn != nullptr && c.chance(1, 2);
    // alone first
    OpRes r = execOp(j->s);
    if (r.out) w.free_(*r.out);
    if (faults && !bad() && c.chance(1, 4)) {
        FaultPlan p = j->s.plan;
        if (genPlan(c, j->s.kind, r.cnt, r.saved.size(), p, A_ALL)) { j->s.plan = p; r = execOp(j->s); if (r.out) w.free_(*r.out); }
    }
    j->wantErr = r.err; j->wantSaved = r.saved; if (r.out) j->wantVal = r.out->v;
    if (r.err == CYAML_OK && r.isLoad && j->t) j->wantVal = j->t->ref.val;
    j->wantLog = r.logText();
    j->want = r.err == CYAML_OK && !r.saved.empty() ? hashBytes(r.saved.data(), r.saved.size()) : 0;
    l.jobs.push_back(std::move(j));
    return !bad();
}
void runJob(World &w, Job &j) {
    OpRes r = execOp(j.s);
    if (bad()) return;
    if (r.err != j.wantErr) violate(O_SERIAL, "%s run together with other calls gave %s, alone it gives %s", kindName(j.s.kind), cyaml_strerror(r.err), cyaml_strerror(j.wantErr));
    else if (r.err == CYAML_OK && r.saved != j.wantSaved) violate(O_SERIAL, "%s run together with other calls wrote different bytes", kindName(j.s.kind));
    else if (r.logText() != j.wantLog) violate(O_SERIAL, "%s run together with other calls logged different messages", kindName(j.s.kind));
    if (r.out) w.free_(*r.out);
}
void concurrent(World &w) {
    Choices &c = w.c;
    unsigned nl = 2 + c.draw(3);
    std::vector<std::unique_ptr<Lane>> lanes;
    Env *shared = w.newEnv(AM_MOVE);
    bool share = c.chance(1, 2);
    if (c.chance(1, 5)) { shared->cfg.log_fn = cyaml_log; shared->cfg.log_level = (cyaml_log_t)c.draw(5); }
    for (unsigned i = 0; i < nl && !over(); i++) {
        lanes.emplace_back(new Lane);
        Env *e = share ? shared : w.newEnv(AM_MOVE, shared->cfg.flags);
        unsigned nj = 1 + c.draw(3);
        for (unsigned k = 0; k < nj && !over(); k++) addJob(w, *lanes[i], e, true);
    }
    if (!bad()) {
        std::vector<SchedStep> plan;
        u64 m = 5 + c.logn(9);
        for (u64 i = 0; i < m; i++) { SchedStep s; s.slice = (u32)c.logn(c.chance(1, 2) ? 13 : 6); s.pick = (u32)c.draw(4); plan.push_back(s); }
        std::vector<std::function<void()>> bodies;
        for (auto &l : lanes) { Lane *lp = l.get(); bodies.push_back([&w, lp] { for (auto &j : lp->jobs) { if (bad()) return; runJob(w, *j); } }); }
        tracef("---- %u threads start", nl);
        u64 sw = R->switches;
        runThreads(bodies, plan);
        if (R->switches > sw) R->nontrivial = true;
        tracef("---- %u threads ended after %llu switches", nl, (unsigned long long)(R->switches - sw));
    }
    for (auto &l : lanes) for (auto &d : l->keep) { if (!bad()) checkDoc(*d, O_SERIAL, "after concurrent use"); if (!bad()) w.free_(*d); }
}
void reentrant(World &w) {
    Choices &c = w.c;
    Env *e = w.newEnv(AM_MOVE); e->cfg.log_fn = sim_log; e->cfg.log_level = (cyaml_log_t)c.draw(4);
    Env *e2 = c.chance(1, 2) ? e : w.newEnv(AM_MOVE, e->cfg.flags);
    Lane outer, inner;
    unsigned no = 1 + c.draw(2), ni = 1 + c.draw(3);
    for (unsigned k = 0; k < no && !over(); k++) addJob(w, outer, e, false);
    for (unsigned k = 0; k < ni && !over(); k++) addJob(w, inner, e2, true);
    if (outer.jobs.empty() || inner.jobs.empty() || bad()) goto out;
    for (unsigned rep = 0; rep < 3 + c.draw(6) && !over(); rep++) {
        Job &o = *outer.jobs[c.draw(outer.jobs.size())];
        // how many callback points does it have
        OpSpec s = o.s; s.plan.reFn = nullptr;
        OpRes r0 = execOp(s); if (r0.out) w.free_(*r0.out);
        if (bad()) break;
        int kind = 0; i64 at = 0;
        for (int t = 0; t < 4 && !kind; t++) {
            int k = 1 + c.draw(4);
            i64 n = k == 1 ? r0.cnt.calloc_ : k == 2 ? r0.cnt.logs : k == 3 ? r0.cnt.cbs : r0.cnt.reads + r0.cnt.writes;
            if (n > 0) { kind = k; at = c.draw(n); if (k == 4 && c.chance(1, 5)) at = -1; }
        }
        if (!kind) continue;
        s.plan.reKind = kind; s.plan.reK = at;
        unsigned first = c.draw(inner.jobs.size());
        s.plan.reFn = [&, first] {
            for (size_t q = 0; q < inner.jobs.size() && !over(); q++) { tracef("      [inside callback]"); runJob(w, *inner.jobs[(first + q) % inner.jobs.size()]); }
        };
        if (o.s.kind == K_SAVE_DATA || o.s.kind == K_SAVE_FILE) probe(P_REENTER_SAVE);
        OpRes r = execOp(s);
        R->nontrivial = true;
        if (!bad() && (r.err != o.wantErr || r.saved != o.wantSaved)) violate(O_SERIAL, "%s with calls made from inside its callback gave %s%s, alone it gives %s", kindName(s.kind), cyaml_strerror(r.err), r.err == o.wantErr ? " with different bytes" : "", cyaml_strerror(o.wantErr));
        if (r.out) w.free_(*r.out);
    }
out:
    for (Lane *l : {&outer, &inner}) for (auto &d : l->keep) { if (!bad()) checkDoc(*d, O_SERIAL, "after re-entrant use"); if (!bad()) w.free_(*d); }
}

void storage(World &w) {       // save_file against failing storage
    Choices &c = w.c;
    Env *e = w.newEnv();
    unsigned n = 1 + c.draw(2);
    for (unsigned i = 0; i < n && !over(); i++) {
        DocP d;
        if (c.chance(2, 3)) d = w.clientDoc(e);
        else { TextP t = w.genText(e->cfg.flags); OpRes r = execOp(w.load(e, *t, false)); d = std::move(r.out); }
        if (!d) continue;
        if (!World::usable(*d)) { w.free_(*d); continue; }
        RefSave rs = refSave(d->n, d->v);
        bool car = World::carries(rs, e);
        OpRes mem = execOp(w.save(*d, rs, car, false));
        OpSpec s = w.save(*d, rs, car, true);
        if (!bad()) {
            OpRes r = execOp(s);
            if (!bad() && r.err == CYAML_OK && mem.err == CYAML_OK && r.saved != mem.saved) violate(O_FILE, "save_file succeeded but the file is not the complete document");
        }
        Batch b; b.faults = 3 + c.draw(6); b.sweep = c.chance(1, 3); b.allow = c.chance(1, 6) ? A_ALL : A_STREAM; b.bigSweep = 60;
        b.retry = true;
        if (!bad()) batch(w, s, b);
        w.free_(*d);
    }
}
void lifecycle(World &w) {
    HistOpt o; o.onlyFile = true; o.params = true; o.b.faults = 3; o.b.retry = true; o.b.allow = A_ALL; o.wCopy = 0; o.docOracle = O_SHARED;
    history(w, o);
}

// ------------------------------------------------------------------ schemas that contradict themselves
// Nodes (or sequence fields) that saving or copying v gets to.
void walkUse(const SNode *n, const Val &v, bool save, std::set<const void *> &seen) {
    if (v.k == Val::NUL || v.k == Val::IGN) return;
    seen.insert(n);
    if (v.k == Val::MAP)
        for (size_t i = 0; i < v.kids.size(); i++) {
            const Field &f = n->map->fields[i];
            if (f.val->type == CYAML_IGNORE) continue;
            if (save && f.val->opt() && f.val->ptr() && v.kids[i].k == Val::NUL) continue;
            if (f.csz) seen.insert(&f);
            walkUse(f.val, v.kids[i], save, seen);
        }
    if (v.k == Val::SEQ) for (auto &k : v.kids) walkUse(n->entry, k, save, seen);
}
enum BadKind { BK_SIZE, BK_FIXED, BK_TYPE, BK_MINMAX, BK_SEQSEQ, BK_BIT, BK_COUNT, BK_DEFCOUNT, BK__COUNT };
struct Broken {                    // one contradiction, in place for as long as this object lives
    BadKind k; const SNode *n = nullptr; const Field *f = nullptr; cyaml_err_t err = CYAML_OK; const void *mark = nullptr; bool dfltMay = false;
    std::function<void()> undo; std::string what;
    ~Broken() { if (undo) undo(); }
};
const char *const typeNames[] = {"int", "uint", "bool", "enum", "flags", "float", "string", "mapping", "bitfield", "sequence", "fixed sequence", "ignore"};
std::unique_ptr<Broken> breakSchema(World &w, OpKind kind) {
    Choices &c = w.c; Schema &S = *w.S;
    bool load = kind == K_LOAD_DATA || kind == K_LOAD_FILE, copy = kind == K_COPY;
    bool deepDef = false;
    for (auto &n : S.nodes) if (n->hasDef && (n->map || n->entry)) deepDef = true;
    struct Cand { BadKind k; const SNode *n; const Field *f; };
    std::vector<Cand> cs[BK__COUNT];
    for (auto &np : S.nodes) {
        const SNode *n = np.get();
        if (n == S.inlineRoot || n->type == CYAML_IGNORE || !n->sv) continue;
        cs[BK_TYPE].push_back({BK_TYPE, n, nullptr});
        switch (n->type) {
        case CYAML_INT: case CYAML_UINT: case CYAML_BOOL: case CYAML_ENUM: case CYAML_FLAGS: case CYAML_FLOAT: case CYAML_BITFIELD:
            if (!copy && !deepDef) cs[BK_SIZE].push_back({BK_SIZE, n, nullptr});
            if (n->type == CYAML_BITFIELD && !copy && !n->bits.empty()) cs[BK_BIT].push_back({BK_BIT, n, nullptr});
            break;
        case CYAML_STRING: if (load && n->smax < 1000000) cs[BK_MINMAX].push_back({BK_MINMAX, n, nullptr}); break;
        case CYAML_SEQUENCE_FIXED: cs[BK_FIXED].push_back({BK_FIXED, n, nullptr}); break;
        default: break;
        }
        if (n->isSeq() && n->entry->type == CYAML_SEQUENCE_FIXED) cs[BK_SEQSEQ].push_back({BK_SEQSEQ, n->entry, nullptr});
    }
    for (auto &m : S.maps) for (auto &f : m->fields) if (f.csz && m->cf) {
        cs[BK_COUNT].push_back({BK_COUNT, f.val, &f});
        if (load && f.csz == 1 && f.val->type == CYAML_SEQUENCE && f.val->hasDef && f.val->ptr() && f.val->sv && !f.val->def.kids.empty() && f.val->dsize < 4096) cs[BK_DEFCOUNT].push_back({BK_DEFCOUNT, f.val, &f});
    }
    std::vector<unsigned> kinds;
    for (unsigned k = 0; k < BK__COUNT; k++) if (!cs[k].empty()) kinds.push_back(k);
    if (kinds.empty()) return nullptr;
    auto &v = cs[kinds[c.draw(kinds.size())]];
    Cand cd = v[c.draw(v.size())];
    std::unique_ptr<Broken> b(new Broken); b->k = cd.k; b->n = cd.n; b->f = cd.f; b->mark = cd.n;
    cyaml_schema_value_t *sv = cd.n->sv;
    b->what = typeNames[cd.n->type];
    char t[160];
    switch (cd.k) {
    case BK_SIZE: {
        u32 z;
        { static const u32 fz[] = {2, 9, 16, 0}, iz[] = {9, 16, 255, 0}; z = (cd.n->type == CYAML_FLOAT ? fz : iz)[c.draw(cd.n->ptr() ? 3 : 4)]; }
        u32 old = sv->data_size; sv->data_size = z; b->undo = [sv, old] { sv->data_size = old; };
        if (cd.n->type == CYAML_BITFIELD && z > 8 && !cd.n->bits.empty() && c.chance(1, 2)) {     // components to match
            cyaml_bitdef_t *bd = (cyaml_bitdef_t *)sv->bitfield.bitdefs; cyaml_bitdef_t ob = bd[0];
            if (c.chance(1, 2)) { bd[0].offset = 64 + c.draw(4); bd[0].bits = 1 + c.draw(3); } else { bd[0].offset = 0; bd[0].bits = 65 + c.draw(7); }
            b->undo = [sv, old, bd, ob] { sv->data_size = old; bd[0] = ob; };
        }
        b->err = CYAML_ERR_INVALID_DATA_SIZE; b->dfltMay = cd.n->hasDef;
        snprintf(t, sizeof t, " with data size %u", z); break; }
    case BK_FIXED: { u32 old = sv->sequence.min; sv->sequence.min = old ? (c.chance(1, 2) ? old - 1 : old + 1) : 1; b->undo = [sv, old] { sv->sequence.min = old; }; b->err = CYAML_ERR_SEQUENCE_FIXED_COUNT; b->dfltMay = true; snprintf(t, sizeof t, " with min %u and max %u", sv->sequence.min, sv->sequence.max); break; }
    case BK_TYPE: { auto old = sv->type; sv->type = (cyaml_type_e)(c.chance(1, 2) ? CYAML__TYPE_COUNT : 200); b->undo = [sv, old] { sv->type = old; }; b->err = CYAML_ERR_BAD_TYPE_IN_SCHEMA; b->dfltMay = true; snprintf(t, sizeof t, " turned into unknown type %d", (int)sv->type); break; }
    case BK_MINMAX: { u32 old = sv->string.min; sv->string.min = sv->string.max + 1 + c.draw(5); b->undo = [sv, old] { sv->string.min = old; }; b->err = CYAML_ERR_BAD_MIN_MAX_SCHEMA; b->dfltMay = cd.n->hasDef; snprintf(t, sizeof t, " with min %u above max %u", sv->string.min, sv->string.max); break; }
    case BK_SEQSEQ: { auto old = sv->type; sv->type = CYAML_SEQUENCE; b->undo = [sv, old] { sv->type = old; }; b->err = CYAML_ERR_SEQUENCE_IN_SEQUENCE; b->dfltMay = true; snprintf(t, sizeof t, " inside a sequence turned into a sequence"); break; }
    case BK_BIT: {
        cyaml_bitdef_t *bd = (cyaml_bitdef_t *)sv->bitfield.bitdefs; cyaml_bitdef_t old = bd[0];
        if (c.chance(1, 2)) bd[0].offset = (u8)(cd.n->dsize * 8 - bd[0].bits + 1 + c.draw(3)); else bd[0].bits = (u8)(cd.n->dsize * 8 - bd[0].offset + 1);
        b->undo = [bd, old] { bd[0] = old; }; b->err = CYAML_ERR_BAD_BITVAL_IN_SCHEMA;
        if (load) b->mark = cd.n->bits.data();
        snprintf(t, sizeof t, " of %u bytes with %u bits at offset %u", cd.n->dsize, bd[0].bits, bd[0].offset); break; }
    case BK_DEFCOUNT: {            // a default of more entries than the field's count can say
        u32 k = sv->sequence.missing_count, nk = 256 + c.draw(300); size_t z = cd.n->dsize;
        auto oldp = sv->sequence.missing; auto buf = std::make_shared<std::vector<u64>>((nk * z + 7) / 8);
        for (u32 i = 0; i < nk; i++) memcpy((u8 *)buf->data() + i * z, (const u8 *)oldp + (i % k) * z, z);
        sv->sequence.missing = buf->data(); sv->sequence.missing_count = nk;
        b->undo = [sv, oldp, k, buf] { sv->sequence.missing = oldp; sv->sequence.missing_count = k; };
        b->err = CYAML_ERR_SEQUENCE_ENTRIES_MAX; b->mark = &cd.n->def;
        snprintf(t, sizeof t, " \"%s\" with a default of %u entries for a one byte count", cd.f->key.substr(0, 40).c_str(), nk); break; }
    default: {
        const MapDef *md = nullptr; for (auto &m : S.maps) for (auto &f : m->fields) if (&f == cd.f) md = m.get();
        cyaml_schema_field_t *cf = md->cf + (cd.f - md->fields.data()); auto old = cf->count_size;
        static const u8 z[] = {0, 9, 200}; cf->count_size = z[c.draw(3)]; b->undo = [cf, old] { cf->count_size = old; };
        b->err = CYAML_ERR_INVALID_DATA_SIZE; b->mark = cd.f; b->dfltMay = true;
        snprintf(t, sizeof t, " \"%s\" with entry count size %u", cd.f->key.substr(0, 40).c_str(), (unsigned)cf->count_size); break; }
    }
    b->what += t;
    return b;
}
void misuse(World &w) {
    Choices &c = w.c;
    w.newEnv(); if (c.chance(1, 3)) w.newEnv();
    unsigned n = 1 + c.draw(4);
    for (unsigned i = 0; i < n && !over(); i++) {
        Env *e = w.envs[c.draw(w.envs.size())].get();
        DocP d; TextP t; RefSave rs; OpSpec s; std::set<const void *> seen;
        cyaml_err_t normal = CYAML_OK; Val want;
        unsigned k = c.pick({5, 3, 3});
        if (k == 0) {
            t = w.genText(e->cfg.flags);
            NoOp guard;
            RefResult rr = refLoad(*w.S, e->cfg.flags, t->ev, true);
            seen = rr.seen; normal = rr.err; want = rr.val;
            if (rr.ambiguous || rr.anyErr || rr.tooBig) continue;
            s = w.load(e, *t, c.chance(1, 3));
        } else {
            d = w.clientDoc(e);
            if (!d || !World::usable(*d)) { if (d) w.free_(*d); continue; }
            walkUse(d->n, d->v, k == 1, seen);
            want = d->v;
            if (k == 1) { rs = refSave(d->n, d->v); s = w.save(*d, rs, World::carries(rs, e), c.chance(1, 3)); normal = rs.err; }
            else { s = w.copy(*d, false); normal = refCopyErr(d->n, d->v); }
            if (k == 1 && !s.carries) { w.free_(*d); continue; }
        }
        OpRes r0 = execOp(s);
        u64 first = r0.outcome();
        std::string bytes = r0.saved;
        if (r0.out) w.free_(*r0.out);
        unsigned m = 1 + c.draw(5);
        for (unsigned q = 0; q < m && !over(); q++) {
            std::unique_ptr<Broken> b = breakSchema(w, s.kind);
            if (!b) break;
            OpSpec x = s; x.badSchema = true; x.ref = nullptr; x.rsave = nullptr;
            bool faults = c.chance(1, 4) && genPlan(c, s.kind, r0.cnt, bytes.size(), x.plan, A_ALL);
            if (R->trace) tracef("  schema contradicts itself: %s", b->what.c_str());
            OpRes r = execOp(x);
            probe(P_BADSCHEMA); R->nontrivial = true;
            bool reached = seen.count(b->mark);
            if (k == 0 && b->k == BK_TYPE && seen.count(&b->n->def)) reached = true;
            cyaml_err_t own = b->err;
            bool nullSeq = b->k == BK_TYPE && b->n->type == CYAML_SEQUENCE && b->n->ptr();     // an absent sequence is only known to be one by its type
            bool isRoot = b->n == w.S->root, isEnum = b->k == BK_SIZE && b->n->type == CYAML_ENUM, isBits = b->k == BK_SIZE && b->n->type == CYAML_BITFIELD;
            b.reset();
            if (bad()) { if (r.out) w.free_(*r.out); break; }
            if (r.err == CYAML_OK) {
                if (reached) violate(O_PARAM, "%s succeeded with a schema that contradicts itself", kindName(s.kind));
                else if (normal != CYAML_OK) violate(O_PARAM, "%s succeeded although it must fail (%s)", kindName(s.kind), cyaml_strerror(normal));
                else if (k == 1 && r.saved != bytes) violate(O_PARAM, "save with an unused bad part of the schema wrote different bytes");
                else if (k != 1 && r.out && !sameVal(r.out->n, want, r.out->v)) violate(O_PARAM, "%s with an unused bad part of the schema gave different data %s", kindName(s.kind), diffVal(r.out->n, want, r.out->v).c_str());
            } else if (r.err != own && r.err != normal && !(isRoot && r.err == CYAML_ERR_BAD_PARAM_SEQ_COUNT) && !(isEnum && r.err == CYAML_ERR_INVALID_VALUE) && !(nullSeq && (r.err == CYAML_ERR_MAPPING_FIELD_MISSING || r.err == CYAML_ERR_INVALID_VALUE || r.err == CYAML_ERR_BAD_PARAM_NULL_DATA)) && !(isBits && r.err == CYAML_ERR_BAD_BITVAL_IN_SCHEMA) && !(faults && faultExplains(r.fired, s.kind, r.err)))
                violate(O_PARAM, "%s with a schema that contradicts itself returned %s instead of %s", kindName(s.kind), cyaml_strerror(r.err), cyaml_strerror(own));
            if (r.out) w.free_(*r.out);
        }
        if (!bad()) {
            OpRes r1 = execOp(s);
            if (!bad() && r1.outcome() != first) violate(O_RETRY, "%s after calls with a bad schema gave %s instead of %s", kindName(s.kind), cyaml_strerror(r1.err), cyaml_strerror(r0.err));
            if (r1.out) w.free_(*r1.out);
        }
        if (d) { if (!bad()) checkDoc(*d, O_SOURCE, "after calls with a bad schema"); w.free_(*d); }
        if (c.chance(1, 3) && !bad()) badParams(w);
    }
}

struct PropDef { const char *id; u64 want; const char *rule; };
const PropDef defs[] = {
    {"C01", MEMBITS | BIT(O_ALLOC), "histories of loads, saves, copies and frees on 1-2 clients; each operation runs undisturbed, then with every or drawn allocation, stream and veto points failing"},
    {"C02", BIT(O_OUTPUT) | BIT(O_SOURCE) | BIT(O_DISK), "histories as C01; caller outputs carry sentinels, sources, schema, config and files are hashed around each call"},
    {"C03", BIT(O_MASKED) | BIT(O_ERRCLASS) | BIT(O_FILE), "histories as C01; results under faults compared with the fault-free model outcome and the fault kinds that fired"},
    {"C04", BIT(O_FILE) | BIT(O_MASKED) | BIT(O_DISK), "save_file over old content on a simulated disk: short writes, full disk at swept byte positions, write errors, close errors, odd stdio buffers"},
    {"C05", BIT(O_RESULT) | BIT(O_DIVERGE), "generated documents (valid and invalid) loaded from buffer and from file under drawn read fragmentations, against the reference loader"},
    {"C06", BIT(O_ROUNDTRIP) | BIT(O_RESULT), "load/build, save, crash at drawn journal positions with torn writes, restart, reload, resave cycles"},
    {"C07", BIT(O_COPY) | BIT(O_SHARED) | BIT(O_MASKED) | BIT(O_MEM) | BIT(O_LEAK) | BIT(O_BADFREE) | BIT(O_SOURCE), "histories of copy (also into caller memory, copies of copies), change, save and free in drawn orders with failing allocations"},
    {"C08", BIT(O_RESULT) | MEMBITS | BIT(O_STEPS) | BIT(O_CORRUPT) | BIT(O_MASKED), "stored documents damaged by truncation, bit flips, lost or zeroed blocks, splices, garbage; loaded against the reference loader"},
    {"C09", BIT(O_SERIAL) | MEMBITS | BIT(O_SAVE) | BIT(O_RESULT) | BIT(O_COPY) | BIT(O_MASKED) | BIT(O_CB), "2-4 caller threads under a seeded scheduler preempting at library basic blocks, loads and stores; nested calls from allocator, log, validation and stream callbacks"},
    {"C10", BIT(O_CB), "documents for schemas rich in validation callbacks; full callback history against the model; veto swept over callback indexes"},
    {"C11", BIT(O_ALIAS) | BIT(O_RESULT) | BIT(O_SHARED) | BIT(O_LEAK) | BIT(O_BADFREE) | BIT(O_MASKED), "documents dense in anchors and aliases against the reference loader and against their written-out form, with failing allocations while recording and replaying"},
    {"C12", BIT(O_DEFAULT) | BIT(O_RESULT) | BIT(O_SHARED) | BIT(O_SOURCE) | BIT(O_LEAK) | BIT(O_MASKED) | BIT(O_RETRY), "schemas rich in defaults, absent fields, failing allocations inside default application, changes to loaded documents"},
    {"C13", BIT(O_ALLOC) | BIT(O_ZERO) | BIT(O_DIVERGE) | BIT(O_BADFREE), "the same operations under moving, in-place, address-reusing and default allocators with different garbage, with refused requests"},
    {"C14", BIT(O_RETRY) | BIT(O_STEPS), "histories with swept faults; each call repeated without the fault; steps bounded by the work"},
    {"C15", BIT(O_STREAM) | BIT(O_DISK), "file histories with failing opens, reads, writes, closes, allocations, documents and parameters"},
    {"C16", BIT(O_LOG) | BIT(O_DIVERGE), "the same operations and faults with no log, debug log and a drawn level; log messages and backtraces checked"},
    {"C21", BIT(O_PARAM) | MEMBITS | BIT(O_OUTPUT) | BIT(O_SOURCE) | BIT(O_RETRY) | BIT(O_STREAM) | BIT(O_DISK), "loads, saves and copies with a drawn contradiction placed in the schema or a bad parameter, with and without faults, between correct calls"},
    {"C17", BIT(O_SAVE) | BIT(O_DIVERGE), "client-built and loaded data saved to buffer and file in drawn styles, parsed back and compared node by node with the reference saver"},
};
}
const PropDef *find(const std::string &p) { for (auto &d : defs) if (p == d.id) return &d; return nullptr; }
bool knownProperty(const std::string &p) { return find(p); }
u64 propOracles(const std::string &p) { return find(p)->want; }
const char *propRule(const std::string &p) { return find(p)->rule; }

void runProperty(const std::string &prop) {
    int id = atoi(prop.c_str() + 1);
    Prof p;
    Choices &c = R->c;
    switch (id) {
    case 1: case 2: case 3: case 14: p.pAlias = c.chance(1, 3) ? 15 : 0; p.pErr = c.chance(1, 2) ? 30 : 0; break;
    case 4: p.pErr = 0; p.pCb = 0; p.pAlias = 0; break;
    case 5: p.pErr = 60; p.pCorrupt = 5; p.pAlias = c.chance(1, 4) ? 15 : 0; break;
    case 6: p.pErr = 0; p.pCb = 0; p.utf16 = false; break;
    case 7: p.pErr = 0; p.pCb = 0; p.pAlias = c.chance(1, 5) ? 10 : 0; break;
    case 8: p.pErr = 5; p.pAlias = c.chance(1, 4) ? 10 : 0; break;
    case 9: p.pErr = 10; p.pCb = 2; p.pAlias = c.chance(1, 4) ? 10 : 0; break;
    case 10: p.pCb = 7; p.pErr = 20; p.pAlias = c.chance(1, 3) ? 15 : 0; break;
    case 11: p.pAlias = 25; p.pErr = c.chance(1, 3) ? 20 : 0; p.pCb = 1; break;
    case 12: p.pDef = 8; p.pErr = 0; p.pCb = 1; break;
    case 13: p.pErr = c.chance(1, 3) ? 20 : 0; p.pAlias = c.chance(1, 4) ? 10 : 0; break;
    case 15: p.pErr = c.chance(1, 2) ? 40 : 0; break;
    case 16: p.pErr = c.chance(2, 3) ? 120 : 0; p.logOn = true; p.pAlias = c.chance(1, 4) ? 10 : 0; break;
    case 17: p.pErr = 0; p.pCb = 0; break;
    case 21: p.pErr = c.chance(1, 3) ? 20 : 0; p.pAlias = c.chance(1, 4) ? 10 : 0; break;
    }
    World w(c, p);
    HistOpt o;
    switch (id) {
    case 1: o.b.sweep = true; o.b.faults = 2; o.b.retry = false; o.params = c.chance(1, 6); history(w, o); break;
    case 2: o.b.sweep = true; o.b.faults = 3; o.b.retry = false; o.params = true; history(w, o); break;
    case 3: o.b.sweep = true; o.b.faults = 3; o.b.retry = false; history(w, o); break;
    case 14: o.b.sweep = true; o.b.faults = 2; o.b.retry = true; o.params = true; history(w, o); break;
    case 4: storage(w); break;
    case 5: loadFidelity(w); break;
    case 6: roundTrip(w); break;
    case 7: copies(w); break;
    case 8: damaged(w); break;
    case 9: if (c.chance(1, 3)) reentrant(w); else concurrent(w); break;
    case 10: callbacks(w); break;
    case 11: aliases(w); break;
    case 12: defaults(w); break;
    case 13: allocators(w); break;
    case 15: lifecycle(w); break;
    case 16: logging(w); break;
    case 17: saving(w); break;
    case 21: misuse(w); break;
    }
}
