#pragma once
#include "sim.h"
struct Ext {
    Holder *h = nullptr; bool zero = true, dangling = false, shared = false; std::string err, nonzero;
    std::set<u64> seen;
    void bad(const char *f, ...) __attribute__((format(printf, 2, 3))) {
        if (!err.empty()) return;
        char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); err = b;
    }
    void nz(const char *w) { if (nonzero.empty()) nonzero = w; }
};
void extractVal(const SNode *n, const u8 *at, const u8 *countAt, unsigned csz, Ext &x, Val &out, unsigned depth);
bool sameVal(const SNode *n, const Val &a, const Val &b);
std::string diffVal(const SNode *n, const Val &a, const Val &b, const std::string &at = "");
bool mutateDoc(Choices &c, const Feat &f, Env *e, Holder *h, const SNode *root, u8 *data, Val &v);
