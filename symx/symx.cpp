// symx - a small symbolic executor for LLVM bitcode.
//
// Executes the real code's LLVM IR path by path.  Harness inputs (vf_nd) are
// symbolic bit-vectors; every branch, address and property condition over them
// is decided by Z3.  All feasible paths are explored (DFS); a run that is cut
// short (time, memory, unknown solver answer) is reported as incomplete.
//
// Checked on every path: bounds / lifetime of every memory access, invalid and
// double free, division by zero, abort()/assert, unreachable, runaway loops,
// and the harness' vf_check() obligations.
#include <llvm/ADT/SmallVector.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx(u64 v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    u64 m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}
static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] static void die(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "symx: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    exit(2);
}

// ------------------------------------------------------------------ expressions
enum Kind : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_SHL, K_LSHR, K_ASHR, K_AND, K_OR,
                 K_XOR, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE };
struct Expr {
    Kind k;
    u8 w;
    u8 lo; // extract
    u32 id;
    u64 c; // const value / var id
    const Expr *a, *b, *d;
    const std::vector<u32> *vars;
    u64 kz;    // bits known to be zero
    u32 depth; // bounds recursive rewriting
    mutable u32 ep = 0;
    mutable u64 ev = 0;
    mutable Z3_ast zb = nullptr, zv = nullptr;
};
typedef const Expr *E;
struct EKey {
    Kind k; u8 w; u8 lo; u64 c; E a, b, d;
    bool operator==(const EKey &o) const { return k == o.k && w == o.w && lo == o.lo && c == o.c && a == o.a && b == o.b && d == o.d; }
};
struct EHash {
    size_t operator()(const EKey &x) const
    {
        u64 h = x.k * 0x9E3779B97F4A7C15ULL ^ x.w * 0xff51afd7ed558ccdULL ^ x.lo * 0xc4ceb9fe1a85ec53ULL;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; };
        mix(x.c); mix((u64)x.a); mix((u64)x.b); mix((u64)x.d);
        return h;
    }
};
static std::unordered_map<EKey, E, EHash> etab;
static std::deque<Expr> earena;
static const std::vector<u32> noVars;
static std::set<std::vector<u32>> varSets;

static const std::vector<u32> *unionVars(const std::vector<u32> *x, const std::vector<u32> *y)
{
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    std::vector<u32> r;
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    return &*varSets.insert(std::move(r)).first;
}
static E intern(Kind k, u8 w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr, u8 lo = 0)
{
    EKey key{k, w, lo, c, a, b, d};
    auto it = etab.find(key);
    if (it != etab.end()) return it->second;
    earena.emplace_back();
    Expr &e = earena.back();
    e.k = k; e.w = w; e.lo = lo; e.c = c; e.a = a; e.b = b; e.d = d;
    e.id = (u32)earena.size();
    {
        u64 m = w >= 64 ? ~0ULL : ((1ULL << w) - 1), z = 0;
        switch (k) {
        case K_CONST: z = ~c; break;
        case K_ZEXT: z = a->kz | ~(a->w >= 64 ? ~0ULL : ((1ULL << a->w) - 1)); break;
        case K_CONCAT: z = a->kz << b->w | b->kz; break;
        case K_AND: z = a->kz | b->kz; break;
        case K_OR: case K_XOR: z = a->kz & b->kz; break;
        case K_EXTRACT: z = a->kz >> lo; break;
        case K_ITE: z = b->kz & d->kz; break;
        default: break;
        }
        e.kz = z & m;
        u32 dd = 0;
        if (a && a->depth > dd) dd = a->depth;
        if (b && b->depth > dd) dd = b->depth;
        if (d && d->depth > dd) dd = d->depth;
        e.depth = dd + 1;
    }
    if (k == K_VAR) e.vars = &*varSets.insert(std::vector<u32>{(u32)c}).first;
    else {
        const std::vector<u32> *v = &noVars;
        if (a) v = unionVars(v, a->vars);
        if (b) v = unionVars(v, b->vars);
        if (d) v = unionVars(v, d->vars);
        e.vars = v;
    }
    etab[key] = &e;
    return &e;
}
static E mkC(u64 v, unsigned w) { return intern(K_CONST, (u8)w, v & maskw(w)); }
static bool isC(E e) { return e->k == K_CONST; }
static u64 foldBin(Kind k, unsigned w, u64 x, u64 y, bool *bad = nullptr)
{
    u64 m = maskw(w);
    switch (k) {
    case K_ADD: return (x + y) & m;
    case K_SUB: return (x - y) & m;
    case K_MUL: return (x * y) & m;
    case K_UDIV: return y ? x / y : m;
    case K_UREM: return y ? x % y : x;
    case K_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (u64)(-(u64)a) & m; return (u64)(a / b) & m; }
    case K_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
    case K_SHL: return y >= w ? 0 : (x << y) & m;
    case K_LSHR: return y >= w ? 0 : x >> y;
    case K_ASHR: return (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
    case K_AND: return x & y;
    case K_OR: return x | y;
    case K_XOR: return x ^ y;
    case K_EQ: return x == y;
    case K_ULT: return x < y;
    case K_ULE: return x <= y;
    case K_SLT: return sx(x, w) < sx(y, w);
    case K_SLE: return sx(x, w) <= sx(y, w);
    default: die("foldBin");
    }
}
static E mkExtract(E a, unsigned lo, unsigned w);
static E mkNot(E a);
static E mkIte(E c, E a, E b);
static bool isCmp(Kind k) { return k >= K_EQ; }
static E mkBin(Kind k, E a, E b);
static E mkConcat(E hi, E lo);
static E mkZext(E a, unsigned w);
// a | b where no bit can be set in both: pick every bit range from the operand that can be non-zero there
static E mkDisjoint(E a, E b)
{
    unsigned w = a->w;
    E r = nullptr;
    for (unsigned i = 0; i < w;) {
        int own = !((a->kz >> i) & 1) ? 0 : !((b->kz >> i) & 1) ? 1 : 2;
        unsigned j = i + 1;
        while (j < w && (!((a->kz >> j) & 1) ? 0 : !((b->kz >> j) & 1) ? 1 : 2) == own) j++;
        E piece = own == 2 ? mkC(0, j - i) : mkExtract(own ? b : a, i, j - i);
        r = r ? mkConcat(piece, r) : piece;
        i = j;
    }
    return r;
}
static unsigned maskRuns(u64 c, unsigned w)
{
    unsigned n = 1;
    for (unsigned i = 1; i < w; i++) if (((c >> i) & 1) != ((c >> (i - 1)) & 1)) n++;
    return n;
}
static E mkMaskC(E a, u64 c)
{
    unsigned w = a->w;
    E r = nullptr;
    for (unsigned i = 0; i < w;) {
        unsigned j = i + 1;
        while (j < w && ((c >> j) & 1) == ((c >> i) & 1)) j++;
        E piece = (c >> i) & 1 ? mkExtract(a, i, j - i) : mkC(0, j - i);
        r = r ? mkConcat(piece, r) : piece;
        i = j;
    }
    return r;
}
// associative-commutative normal form: left-nested chain sorted by id, constant last
static void acFlat(Kind k, E e, std::vector<E> &t, u64 &c)
{
    while (e->k == k) {
        if (isC(e->b)) c = foldBin(k, e->w, c, e->b->c);
        else t.push_back(e->b);
        e = e->a;
    }
    if (isC(e)) c = foldBin(k, e->w, c, e->c);
    else t.push_back(e);
}
static E acBuild(Kind k, std::vector<E> &t, u64 c, unsigned w)
{
    u64 unit = k == K_AND ? maskw(w) : 0;
    std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; });
    if (k == K_XOR) { // x ^ x = 0
        std::vector<E> u;
        for (size_t i = 0; i < t.size();) {
            if (i + 1 < t.size() && t[i] == t[i + 1]) { i += 2; continue; }
            u.push_back(t[i++]);
        }
        t.swap(u);
    } else if (k == K_AND) t.erase(std::unique(t.begin(), t.end()), t.end());
    if (k == K_AND && c == 0) return mkC(0, w);
    if (t.empty()) return mkC(c, w);
    E r = t[0];
    for (size_t i = 1; i < t.size(); i++) r = intern(k, (u8)w, 0, r, t[i]);
    if (c != unit) r = intern(k, (u8)w, 0, r, mkC(c, w));
    return r;
}
static E mkAC(Kind k, E a, E b)
{
    std::vector<E> t;
    u64 c = k == K_AND ? maskw(a->w) : 0;
    acFlat(k, a, t, c);
    acFlat(k, b, t, c);
    if (t.size() > 10 && !isC(a) && !isC(b)) return intern(k, a->w, 0, a, b); // long sums stay nested
    return acBuild(k, t, c, a->w);
}
static void xorTerms(E e, std::vector<E> &t)
{
    while (e->k == K_XOR) { t.push_back(e->b); e = e->a; }
    t.push_back(e);
}
static E mkBin(Kind k, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) die("width mismatch %d: %d vs %d", k, a->w, b->w);
    if (isC(a) && isC(b)) return mkC(foldBin(k, w, a->c, b->c), isCmp(k) ? 1 : w);
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b); // const on the right
    u64 m = maskw(w);
    switch (k) {
    case K_ADD:
        if (isC(b)) {
            if (b->c == 0) return a;
        }
        if (w > 1) return mkAC(K_ADD, a, b);
        break;
    case K_SUB:
        if (a == b) return mkC(0, w);
        if (isC(b)) return mkBin(K_ADD, a, mkC(-b->c, w));
        break;
    case K_MUL:
        if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
        break;
    case K_AND:
        if (a == b) return a;
        if (isC(b)) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->k == K_ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
            if ((a->kz | b->c) == m) return a;
            if (w > 1 && maskRuns(b->c, w) <= 8) return mkMaskC(a, b->c);
            if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkC(a->b->c & b->c, w));
        } else if (w >= 32) { // algebraic normal form for word-wide logic
            if ((a->kz | b->kz) == m) return mkC(0, w);
            if (a->k == K_XOR || b->k == K_XOR) {
                std::vector<E> x, y;
                xorTerms(a, x); xorTerms(b, y);
                if (x.size() * y.size() <= 16) {
                    E r = mkC(0, w);
                    for (E p : x) for (E q : y) r = mkBin(K_XOR, r, mkBin(K_AND, p, q));
                    return r;
                }
            }
            return mkAC(K_AND, a, b);
        }
        break;
    case K_OR:
        if (a == b) return a;
        if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
        if (w > 1 && (a->kz | b->kz) == m && maskRuns(a->kz, w) <= 8) return mkDisjoint(a, b);
        if (w >= 32 && !isC(b)) return mkBin(K_XOR, mkBin(K_XOR, a, b), mkBin(K_AND, a, b));
        break;
    case K_XOR:
        if (a == b) return mkC(0, w);
        if (w > 1) return mkAC(K_XOR, a, b);
        if (isC(b)) {
            if (b->c == 0) return a;
            if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkC(a->b->c ^ b->c, w));
            if (w == 1) { // boolean negation of comparisons
                if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
                if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
                if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
                if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
            }
        }
        break;
    case K_UDIV: case K_UREM:
        if (isC(b) && b->c && !(b->c & (b->c - 1))) {
            unsigned sh = (unsigned)__builtin_ctzll(b->c);
            if (k == K_UDIV) return sh ? mkZext(mkExtract(a, sh, w - sh), w) : a;
            return sh ? mkZext(mkExtract(a, 0, sh), w) : mkC(0, w);
        }
        break;
    case K_SHL: case K_LSHR: case K_ASHR:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (k != K_ASHR && b->c >= w) return mkC(0, w);
            if (k == K_SHL) return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkC(0, (unsigned)b->c));
            if (k == K_LSHR) return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        }
        break;
    case K_EQ:
        if (a == b) return mkC(1, 1);
        if (isC(b)) {
            if (w == 1) return b->c ? a : mkNot(a);
            if (a->k == K_ZEXT) {
                if (b->c > maskw(a->a->w)) return mkC(0, 1);
                return mkBin(K_EQ, a->a, mkC(b->c, a->a->w));
            }
            if (a->k == K_SEXT) {
                u64 t = b->c & maskw(a->a->w);
                if (((u64)sx(t, a->a->w) & m) != b->c) return mkC(0, 1);
                return mkBin(K_EQ, a->a, mkC(t, a->a->w));
            }
            if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkC(b->c - a->b->c, w));
            if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkC(b->c ^ a->b->c, w));
            if (a->k == K_ITE && isC(a->b) && isC(a->d)) {
                bool p = a->b->c == b->c, q = a->d->c == b->c;
                if (p && q) return mkC(1, 1);
                if (!p && !q) return mkC(0, 1);
                return p ? a->a : mkNot(a->a);
            }
            if (a->k == K_ITE && (isC(a->b) || isC(a->d)))
                return mkIte(a->a, mkBin(K_EQ, a->b, b), mkBin(K_EQ, a->d, b));
            if (a->k == K_CONCAT) {
                E hi = mkBin(K_EQ, a->a, mkC(b->c >> a->b->w, a->a->w));
                E lo = mkBin(K_EQ, a->b, mkC(b->c, a->b->w));
                return mkBin(K_AND, hi, lo);
            }
        }
        break;
    case K_ULT:
        if (a == b) return mkC(0, 1);
        if (isC(b) && b->c == 0) return mkC(0, 1);
        if (isC(a) && a->c == m) return mkC(0, 1);
        if (isC(b) && a->k == K_ZEXT) {
            if (b->c > maskw(a->a->w)) return mkC(1, 1);
            return mkBin(K_ULT, a->a, mkC(b->c, a->a->w));
        }
        if (isC(a) && b->k == K_ZEXT) {
            if (a->c >= maskw(b->a->w)) return mkC(0, 1);
            return mkBin(K_ULT, mkC(a->c, b->a->w), b->a);
        }
        if (isC(b) && b->c == 1) return mkBin(K_EQ, a, mkC(0, w));
        break;
    case K_ULE:
        if (a == b) return mkC(1, 1);
        if (isC(a) && a->c == 0) return mkC(1, 1);
        if (isC(b) && b->c == m) return mkC(1, 1);
        if (isC(b) && a->k == K_ZEXT) {
            if (b->c >= maskw(a->a->w)) return mkC(1, 1);
            return mkBin(K_ULE, a->a, mkC(b->c, a->a->w));
        }
        if (isC(a) && b->k == K_ZEXT) {
            if (a->c > maskw(b->a->w)) return mkC(0, 1);
            return mkBin(K_ULE, mkC(a->c, b->a->w), b->a);
        }
        break;
    case K_SLT: case K_SLE:
        if (a == b) return mkC(k == K_SLE, 1);
        if (isC(b) && a->k == K_ZEXT && sx(b->c, w) < 0) return mkC(0, 1);
        if (isC(b) && a->k == K_ZEXT) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (isC(a) && b->k == K_ZEXT && sx(a->c, w) < 0) return mkC(1, 1);
        if (isC(a) && b->k == K_ZEXT) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        break;
    default: break;
    }
    return intern(k, isCmp(k) ? 1 : (u8)w, 0, a, b);
}
static E mkNot(E a) { return mkBin(K_XOR, a, mkC(1, 1)); }
static E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (a->w == 1) {
        if (isC(a)) return a->c ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
        if (isC(b)) return b->c ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    }
    return intern(K_ITE, a->w, 0, c, a, b);
}
static E mkZext(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkC(a->c, w);
    if (a->k == K_ZEXT) return mkZext(a->a, w);
    return intern(K_ZEXT, (u8)w, 0, a);
}
static E mkSext(E a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a)) return mkC((u64)sx(a->c, a->w), w);
    if (a->k == K_ZEXT) return mkZext(a->a, w);
    if (a->k == K_SEXT) return mkSext(a->a, w);
    return intern(K_SEXT, (u8)w, 0, a);
}
static E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkC((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return mkZext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, lo->lo, w);
    // adjacent pieces of the same word inside a nested concatenation
    if (lo->k == K_CONCAT) {
        E l2 = lo->a;
        if ((isC(hi) && isC(l2)) || (hi->k == K_EXTRACT && l2->k == K_EXTRACT && hi->a == l2->a && hi->lo == l2->lo + l2->w)) return mkConcat(mkConcat(hi, l2), lo->b);
    }
    if (hi->k == K_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K_ZEXT && hi->w > hi->a->w) return mkConcat(mkC(0, hi->w - hi->a->w), mkConcat(hi->a, lo));
    if (lo->k == K_ZEXT && isC(hi)) return mkConcat(mkC(hi->c << (lo->w - lo->a->w), w - lo->a->w), lo->a);
    // sign/zero extension recombination: extract of zext's upper bits is const 0 (handled), sext left alone
    return intern(K_CONCAT, (u8)w, 0, hi, lo);
}
static E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return mkC(a->c >> lo, w);
    switch (a->k) {
    case K_EXTRACT: return mkExtract(a->a, lo + a->lo, w);
    case K_ZEXT:
        if (lo >= a->a->w) return mkC(0, w);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkZext(a->a, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case K_SEXT:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        break;
    case K_CONCAT:
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case K_ITE:
        if (isC(a->b) || isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
        break;
    case K_AND: case K_OR: case K_XOR: case K_ADD: case K_SUB: case K_MUL:
        if (lo == 0 && w == 32 && a->w == 64) { // 32-bit arithmetic carried out in 64-bit registers
            static std::unordered_map<E, E> memo;
            auto it = memo.find(a);
            if (it != memo.end()) return it->second;
            E r = mkBin(a->k, mkExtract(a->a, 0, 32), mkExtract(a->b, 0, 32));
            memo[a] = r;
            return r;
        }
        if (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL) {
            if (lo == 0 && a->depth <= 6) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            break;
        }
        if (a->depth <= 6 || isC(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case K_SHL:
        if (isC(a->b) && a->b->c < a->w) {
            unsigned s = (unsigned)a->b->c;
            if (lo >= s) return mkExtract(a->a, lo - s, w);
            if (lo + w <= s) return mkC(0, w);
        }
        break;
    case K_LSHR:
        if (isC(a->b) && a->b->c < a->w) {
            unsigned s = (unsigned)a->b->c;
            if (lo + s + w <= a->w) return mkExtract(a->a, lo + s, w);
            if (lo + s >= a->w) return mkC(0, w);
        }
        break;
    default: break;
    }
    return intern(K_EXTRACT, (u8)w, 0, a, nullptr, nullptr, (u8)lo);
}

typedef std::vector<u64> Model; // indexed by var id
static u32 evEpoch = 0;
static u64 evalE(E e, const Model &m)
{
    if (e->k == K_CONST) return e->c;
    if (e->k == K_VAR) return e->c < m.size() ? m[e->c] & maskw(e->w) : 0;
    if (e->ep == evEpoch) return e->ev;
    u64 r;
    switch (e->k) {
    case K_EXTRACT: r = (evalE(e->a, m) >> e->lo) & maskw(e->w); break;
    case K_ZEXT: r = evalE(e->a, m); break;
    case K_SEXT: r = (u64)sx(evalE(e->a, m), e->a->w) & maskw(e->w); break;
    case K_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    case K_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->d, m); break;
    default: { u64 x = evalE(e->a, m), y = evalE(e->b, m); r = foldBin(e->k, e->a->w, x, y); }
    }
    e->ep = evEpoch; e->ev = r;
    return r;
}
static u64 eval(E e, const Model &m) { evEpoch++; return evalE(e, m); }

// ------------------------------------------------------------------ Z3
static Z3_context zctx;
static u64 nQueries = 0, nCacheHit = 0, nUnknown = 0;
static double tSolver = 0;
static unsigned solverTimeoutMs = 60000;
static Z3_ast zBool(E e);
static Z3_ast zBV(E e)
{
    if (e->zv) return e->zv;
    Z3_ast r;
    Z3_sort s = Z3_mk_bv_sort(zctx, e->w);
    if (e->w == 1 && (isCmp(e->k))) {
        r = Z3_mk_ite(zctx, zBool(e), Z3_mk_unsigned_int64(zctx, 1, s), Z3_mk_unsigned_int64(zctx, 0, s));
    } else switch (e->k) {
    case K_CONST: r = Z3_mk_unsigned_int64(zctx, e->c, s); break;
    case K_VAR: { char n[40]; snprintf(n, sizeof n, "v%u_%d", (u32)e->c, e->w); r = Z3_mk_const(zctx, Z3_mk_string_symbol(zctx, n), s); break; }
    case K_ADD: r = Z3_mk_bvadd(zctx, zBV(e->a), zBV(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(zctx, zBV(e->a), zBV(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(zctx, zBV(e->a), zBV(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(zctx, zBV(e->a), zBV(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(zctx, zBV(e->a), zBV(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(zctx, zBV(e->a), zBV(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(zctx, zBV(e->a), zBV(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(zctx, zBV(e->a), zBV(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(zctx, zBV(e->a), zBV(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(zctx, zBV(e->a), zBV(e->b)); break;
    case K_AND: r = Z3_mk_bvand(zctx, zBV(e->a), zBV(e->b)); break;
    case K_OR: r = Z3_mk_bvor(zctx, zBV(e->a), zBV(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(zctx, zBV(e->a), zBV(e->b)); break;
    case K_CONCAT: r = Z3_mk_concat(zctx, zBV(e->a), zBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(zctx, e->lo + e->w - 1, e->lo, zBV(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(zctx, e->w - e->a->w, zBV(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(zctx, e->w - e->a->w, zBV(e->a)); break;
    case K_ITE: r = Z3_mk_ite(zctx, zBool(e->a), zBV(e->b), zBV(e->d)); break;
    default: die("zBV");
    }
    Z3_inc_ref(zctx, r);
    e->zv = r;
    return r;
}
static Z3_ast zBool(E e)
{
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->k) {
    case K_CONST: r = e->c ? Z3_mk_true(zctx) : Z3_mk_false(zctx); break;
    case K_EQ:
        if (e->a->w == 1) r = Z3_mk_iff(zctx, zBool(e->a), zBool(e->b));
        else r = Z3_mk_eq(zctx, zBV(e->a), zBV(e->b));
        break;
    case K_ULT: r = Z3_mk_bvult(zctx, zBV(e->a), zBV(e->b)); break;
    case K_ULE: r = Z3_mk_bvule(zctx, zBV(e->a), zBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(zctx, zBV(e->a), zBV(e->b)); break;
    case K_SLE: r = Z3_mk_bvsle(zctx, zBV(e->a), zBV(e->b)); break;
    case K_AND: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_and(zctx, 2, x); break; }
    case K_OR: { Z3_ast x[2] = {zBool(e->a), zBool(e->b)}; r = Z3_mk_or(zctx, 2, x); break; }
    case K_XOR:
        if (isC(e->b)) r = e->b->c ? Z3_mk_not(zctx, zBool(e->a)) : zBool(e->a);
        else r = Z3_mk_xor(zctx, zBool(e->a), zBool(e->b));
        break;
    case K_ITE: r = Z3_mk_ite(zctx, zBool(e->a), zBool(e->b), zBool(e->d)); break;
    default: r = Z3_mk_eq(zctx, zBV(e), Z3_mk_unsigned_int64(zctx, 1, Z3_mk_bv_sort(zctx, 1)));
    }
    Z3_inc_ref(zctx, r);
    e->zb = r;
    return r;
}
#include "sat.h"
static u64 nSatDirect = 0, nZ3 = 0, nCross = 0;
struct QRes { int sat; std::vector<std::pair<u32, u64>> vals; }; // sat: 1, 0, -1 unknown
static std::map<std::vector<u32>, QRes> qcache;
static Z3_solver zsolver;
static FILE *qlog;
// ---- equivalence sweeping: internal nodes with equal simulation signatures are proven equal
// bottom-up (same normal form after rewriting, or a SAT query over a bounded neighbourhood whose
// frontier is abstracted by free values), and replaced by one representative.
static u64 nSweep = 0, nSweepMerged = 0, nSweepSat = 0, nSweepFail = 0;
static u64 sweepRng = 0x853c49e6748fea9bULL;
static u64 srnd() { sweepRng ^= sweepRng << 13; sweepRng ^= sweepRng >> 7; sweepRng ^= sweepRng << 17; return sweepRng; }
static E rebuild(E e, E a, E b, E d)
{
    if (a == e->a && b == e->b && d == e->d) return e;
    switch (e->k) {
    case K_EXTRACT: return mkExtract(a, e->lo, e->w);
    case K_ZEXT: return mkZext(a, e->w);
    case K_SEXT: return mkSext(a, e->w);
    case K_CONCAT: return mkConcat(a, b);
    case K_ITE: return mkIte(a, b, d);
    default: return mkBin(e->k, a, b);
    }
}
static void dumpE(E e, int d)
{
    static const char *nm[] = {"C", "v", "+", "-", "*", "/", "s/", "%", "s%", "<<", ">>", ">>s", "&", "|", "^", "@", "x", "z", "s", "?", "==", "<", "<=", "s<", "s<="};
    if (e->k == K_CONST) { fprintf(stderr, "0x%llx", (unsigned long long)e->c); return; }
    if (e->k == K_VAR) { fprintf(stderr, "v%u", (u32)e->c); return; }
    if (d == 0) { fprintf(stderr, "#%u", e->id); return; }
    fprintf(stderr, "(%s", nm[e->k]);
    if (e->k == K_EXTRACT) fprintf(stderr, "%d:%d", e->lo, e->w);
    for (E c : {e->a, e->b, e->d}) if (c) { fprintf(stderr, " "); dumpE(c, e->k == c->k ? d : d - 1); }
    fprintf(stderr, ")");
}
// x - y (ADD/SUB) or x ^ y expanded highest node first; shared parts cancel before they are expanded
static bool linearEqual(E x, E y)
{
    auto lin = [](E e) { return e->k == K_ADD || e->k == K_SUB || (e->k == K_MUL && isC(e->b)); };
    Kind kind = (lin(x) || lin(y)) ? K_ADD : (x->k == K_XOR || y->k == K_XOR) ? K_XOR : K_CONST;
    if (kind == K_CONST) return false;
    u64 m = maskw(x->w), c = 0;
    auto cmp = [](E a, E b) { return a->id > b->id; };
    std::map<E, u64, decltype(cmp)> q(cmp);
    auto add = [&](E e, u64 co) {
        if (isC(e)) { if (kind == K_ADD) c += co * e->c; else if (co & 1) c ^= e->c; return; }
        auto it = q.emplace(e, 0).first;
        it->second = (it->second + co) & (kind == K_ADD ? m : 1);
        if (!it->second) q.erase(it);
    };
    add(x, 1); add(y, kind == K_ADD ? m : 1);
    for (int n = 0; n < 20000; n++) {
        auto it = q.begin();
        while (it != q.end() && !(kind == K_ADD ? lin(it->first) : it->first->k == K_XOR)) ++it;
        if (it == q.end()) break;
        if (std::distance(q.begin(), it) > 64) break;
        E e = it->first; u64 co = it->second;
        q.erase(it);
        add(e->a, e->k == K_MUL ? co * e->b->c : co);
        if (e->k != K_MUL) add(e->b, e->k == K_SUB ? (0 - co) & m : co);
    }
    return q.empty() && !(c & m);
}
static bool localEqual(E x, E y, unsigned lim)
{
    if (lim == 3 && linearEqual(x, y)) return true;

    std::unordered_set<E> seen, cut;
    std::vector<E> q{x, y}, nx;
    seen.insert(x); seen.insert(y);
    for (unsigned dep = 0; dep < lim; dep++) {
        nx.clear();
        for (E e : q) for (E c : {e->a, e->b, e->d}) if (c && !isC(c) && seen.insert(c).second) nx.push_back(c);
        q.swap(nx);
    }
    for (E e : q) if (e->k != K_VAR) cut.insert(e);
    Blaster B;
    B.cut = &cut;
    Blaster::V a = B.bl(x), b = B.bl(y);
    std::vector<int> cl;
    for (size_t i = 0; i < a.size(); i++) cl.push_back(B.mkXor(a[i], b[i]));
    if (B.unsupported) return false;
    B.s.add(cl);
    if (!B.s.ok) return true;
    return B.s.solve(1500) == 0;
}
static std::unordered_map<E, E> sweepRep; // proven equalities persist
static bool sweep(std::vector<E> &cons, std::vector<std::pair<u32, u64>> &vals)
{
    nSweep++;
    std::vector<E> nodes, st(cons.begin(), cons.end());
    std::unordered_set<E> seen(st.begin(), st.end());
    while (!st.empty()) {
        E e = st.back(); st.pop_back();
        nodes.push_back(e);
        for (E c : {e->a, e->b, e->d}) if (c && seen.insert(c).second) st.push_back(c);
    }
    std::sort(nodes.begin(), nodes.end(), [](E x, E y) { return x->id < y->id; });
    const int R = 96;
    std::vector<Model> ms(R);
    u32 mv = 0;
    for (E e : nodes) if (e->k == K_VAR && e->c + 1 > mv) mv = (u32)e->c + 1;
    for (auto &m : ms) { m.resize(mv); for (auto &x : m) x = srnd(); }
    std::map<std::vector<u64>, std::vector<E>> classes;
    std::vector<std::vector<u64>> sigs(nodes.size());
    for (int r = 0; r < R; r++) {
        evEpoch++;
        for (size_t i = 0; i < nodes.size(); i++) sigs[i].push_back(evalE(nodes[i], ms[r]));
    }
    for (int r = 0; r < R; r++) { // a simulated input may already satisfy the query
        evEpoch++;
        bool all = true;
        for (E c : cons) all = all && evalE(c, ms[r]);
        if (!all) continue;
        for (E e : nodes) if (e->k == K_VAR) vals.push_back({(u32)e->c, ms[r][e->c] & maskw(e->w)});
        return true;
    }
    auto rep = [&](E e) -> E { while (e) { auto it = sweepRep.find(e); if (it == sweepRep.end()) break; e = it->second; } return e; };
    double t0 = now();
    int once = 0;
    for (size_t i = 0; i < nodes.size(); i++) {
        E e = nodes[i];
        if (!e->a) { if (e->k == K_CONST || e->k == K_VAR) { sigs[i].push_back(e->w); classes[sigs[i]].push_back(e); } continue; }
        if (now() - t0 > 60) return false;
        E n = rep(rebuild(e, rep(e->a), rep(e->b), rep(e->d)));
        sigs[i].push_back(e->w);
        auto &cl = classes[sigs[i]];
        if (cl.empty()) {
            bool same = true;
            for (int r = 1; r < R; r++) same &= sigs[i][r] == sigs[i][0];
            if (same) cl.push_back(mkC(sigs[i][0], e->w));
        }
        E hit = nullptr;
        for (E x : cl) if (x == n) hit = x;
        if (!hit) {
            for (size_t k = 0; k < cl.size() && k < 3 && !hit; k++) {
                if (isC(cl[k]) && isC(n)) continue;
                for (unsigned lim : {3u, 7u, 14u, 28u}) {
                    nSweepSat++;
                    if (localEqual(cl[k], n, lim)) {
                        if (isC(n)) { sweepRep[cl[k]] = n; cl[k] = n; }
                        hit = cl[k];
                        break;
                    }
                }
                if (!hit) { nSweepFail++; if (getenv("SYMX_SWEEP")) fprintf(stderr, "sweep: unproven w%d k%d/k%d depth %u/%u\n", e->w, cl[k]->k, n->k, cl[k]->depth, n->depth); if (getenv("SYMX_SWEEP") && e->w >= 32 && !once++) { dumpE(cl[k], 3); fprintf(stderr, "\n"); dumpE(n, 3); fprintf(stderr, "\n"); } }
            }
            if (!hit) cl.push_back(n);
        }
        if (hit) { nSweepMerged++; if (hit != n) sweepRep[n] = hit; if (hit != e && n != e) sweepRep[e] = hit; }
        else if (n != e) sweepRep[e] = n;
    }
    for (E &c : cons) c = rep(c);
    if (getenv("SYMX_SWEEP")) for (E c : cons) fprintf(stderr, "left: k%d w%d depth %u\n", c->k, c->w, c->depth);
    if (getenv("SYMX_SWEEP")) fprintf(stderr, "sweep: %zu nodes, %llu merged, %llu sat, %llu fail, %.2fs\n", nodes.size(), (unsigned long long)nSweepMerged, (unsigned long long)nSweepSat, (unsigned long long)nSweepFail, now() - t0);
    return false;
}
// cons: sliced constraints (incl. query); vars: their variables
static bool bigCone(const std::vector<E> &cons)
{
    std::unordered_set<E> seen(cons.begin(), cons.end());
    std::vector<E> st(cons.begin(), cons.end());
    while (!st.empty()) {
        E e = st.back(); st.pop_back();
        for (E c : {e->a, e->b, e->d}) if (c && seen.insert(c).second) st.push_back(c);
        if (seen.size() > 1200) return true;
    }
    return false;
}
static const QRes &solve(std::vector<E> &cons)
{
    std::sort(cons.begin(), cons.end(), [](E x, E y) { return x->id < y->id; });
    cons.erase(std::unique(cons.begin(), cons.end()), cons.end());
    std::vector<u32> key;
    for (E e : cons) key.push_back(e->id);
    auto it = qcache.find(key);
    if (it != qcache.end()) { nCacheHit++; return it->second; }
    double t0 = now();
    nQueries++;
    int B_nv = 0; size_t B_nc = 0; u64 B_cf = 0;
    QRes own;
    own.sat = -1;
    bool big = bigCone(cons);
    if (!big) {
        Blaster B;
        for (E e : cons) { int l = B.bl(e)[0]; B.s.add({l}); if (!B.s.ok) break; }
        if (!B.unsupported) {
            own.sat = B.s.solve(B.s.nv > 4000 ? 1000 : 30000); B_nv = B.s.nv; B_nc = B.s.cl.size(); B_cf = B.s.conflicts;
            if (own.sat == 1)
                for (auto &p : B.vars) {
                    u64 x = 0;
                    for (size_t i = 0; i < p.second.size(); i++) if (B.s.lv(p.second[i]) == 1) x |= 1ULL << i;
                    own.vals.push_back({p.first, x});
                }
        }
    }
    if (own.sat < 0 && (big || B_nv > 2000)) {
        std::vector<E> c2(cons);
        if (sweep(c2, own.vals)) own.sat = 1;
        for (E e : c2) if (isC(e) && !e->c) own.sat = 0;
        if (own.sat == 0) { nSatDirect++; tSolver += now() - t0; return qcache[key] = std::move(own); }
        if (own.sat < 0) {
            Blaster B;
            for (E e : c2) { int l = B.bl(e)[0]; B.s.add({l}); if (!B.s.ok) break; }
            if (!B.unsupported) {
                own.sat = B.s.solve(30000);
                if (own.sat == 1)
                    for (auto &p : B.vars) {
                        u64 x = 0;
                        for (size_t i = 0; i < p.second.size(); i++) if (B.s.lv(p.second[i]) == 1) x |= 1ULL << i;
                        own.vals.push_back({p.first, x});
                    }
            }
        }
    }
    if (own.sat == 1) { // the model is re-checked by evaluation
        Model m;
        for (auto &p : own.vals) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; }
        for (E e : cons) if (!eval(e, m)) die("internal: bad model");
    }
    if (getenv("SYMX_Q")) fprintf(stderr, "q cons %zu vars %d clauses %zu conf %llu sat %d %.2fms\n", cons.size(), B_nv, B_nc, (unsigned long long)B_cf, own.sat, (now()-t0)*1e3);
    // every 64th direct UNSAT verdict is repeated by Z3
    if (own.sat == 1 || (own.sat == 0 && (nSatDirect & 63))) {
        nSatDirect++;
        tSolver += now() - t0;
        return qcache[key] = std::move(own);
    }
    nZ3++;
    Z3_solver_reset(zctx, zsolver);
    std::set<u32> vs;
    std::map<u32, E> vexpr;
    for (E e : cons) Z3_solver_assert(zctx, zsolver, zBool(e));
    Z3_lbool r = Z3_solver_check(zctx, zsolver);
    QRes q;
    q.sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (q.sat < 0) nUnknown++;
    if (q.sat == 1) {
        Z3_model m = Z3_solver_get_model(zctx, zsolver);
        Z3_model_inc_ref(zctx, m);
        unsigned n = Z3_model_get_num_consts(zctx, m);
        for (unsigned i = 0; i < n; i++) {
            Z3_func_decl d = Z3_model_get_const_decl(zctx, m, i);
            Z3_symbol sy = Z3_get_decl_name(zctx, d);
            const char *nm = Z3_get_symbol_string(zctx, sy);
            if (nm[0] != 'v') continue;
            u32 id = (u32)atoi(nm + 1);
            Z3_ast v = Z3_model_get_const_interp(zctx, m, d);
            uint64_t val = 0;
            if (v && Z3_get_numeral_uint64(zctx, v, &val)) q.vals.push_back({id, val});
        }
        Z3_model_dec_ref(zctx, m);
        for (E e : cons) // variables z3 eliminated default to 0
            for (u32 v : *e->vars) vs.insert(v);
        for (auto &p : q.vals) vs.erase(p.first);
        for (u32 v : vs) q.vals.push_back({v, 0});
    }
    if (own.sat == 0) { nSatDirect++; nCross++; if (q.sat == 1) die("internal: solver disagreement"); if (q.sat < 0) { q.sat = 0; nUnknown--; } }
    double dt = now() - t0;
    tSolver += dt;
    if (dt > 2 && getenv("SYMX_SLOW")) fprintf(stderr, "slow query %.2fs (%zu constraints)\n", dt, cons.size());
    return qcache[key] = std::move(q);
}

// ------------------------------------------------------------------ values & memory
struct Val { u64 c; E e; };
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static E toE(const Val &v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
static Val fromE(E e) { return isC(e) ? Val{e->c, nullptr} : Val{0, e}; }

enum { OF_HEAP = 1, OF_STACK = 2, OF_GLOBAL = 4, OF_RO = 8, OF_FREED = 16, OF_FUNC = 32 };
struct Obj {
    u32 ref = 1, size = 0;
    u8 flags = 0;
    const Instruction *site = nullptr, *freeSite = nullptr;
    std::vector<u8> b;      // concrete bytes
    std::vector<u8> st;     // 0 concrete 1 symbolic 2 uninitialised
    std::vector<E> sym;     // lazily sized
};
struct ObjRef {
    Obj *p = nullptr;
    ObjRef() {}
    ObjRef(Obj *o) : p(o) {}
    ObjRef(const ObjRef &o) : p(o.p) { if (p) p->ref++; }
    ObjRef(ObjRef &&o) : p(o.p) { o.p = nullptr; }
    ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->ref == 0) delete p; }
};

// ------------------------------------------------------------------ decoded program
struct Opnd { int slot; u64 c; };
struct Edge { int blk; std::vector<std::pair<int, Opnd>> phis; };
struct DFunc;
enum IOp : u8 { I_BIN, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH,
                I_RET, I_CALL, I_UNREACH, I_EXTRACTV, I_UNSUP };
struct Inst {
    IOp op; u8 k; u8 w; u8 w2; bool swap = false, neg = false, isptr = false;
    int dst = -1;
    Opnd a{-1, 0}, b{-1, 0}, d{-1, 0};
    std::vector<std::pair<Opnd, int64_t>> gep; // index operand, scale (index sign-extended from its width)
    std::vector<u8> gepw;
    std::vector<Opnd> args;
    std::vector<u8> argw;
    std::vector<u32> byval; // size or 0 per arg
    std::vector<Edge> edges;
    std::vector<u64> cases;
    DFunc *callee = nullptr;
    int builtin = 0;
    const Instruction *src = nullptr;
};
struct Block { std::vector<Inst> in; };
struct DFunc {
    Function *f = nullptr;
    std::string name;
    int nslots = 0, nargs = 0;
    bool decoded = false, vararg = false, used = false;
    std::vector<Block> blocks;
    u64 addr = 0;
    int builtin = 0;
};

static LLVMContext lctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const Function *, DFunc *> funcs;
static std::unordered_map<u64, DFunc *> funcByAddr;
static std::unordered_map<const GlobalVariable *, u64> globalAddr;

struct Frame {
    DFunc *f;
    int blk = 0, pc = 0;
    int retSlot = -1;
    std::vector<Val> r;
    std::vector<u32> allocas;
    std::vector<Val> va;
    std::vector<u8> vaw;
};
struct Note { const char *name; Val v; };
struct Nd { u32 var; u8 w; u64 c; bool conc; };
struct State {
    std::vector<ObjRef> objs;
    std::vector<Frame> fr;
    std::vector<E> cons;
    Model model;
    std::unordered_map<E, u64> known;
    u32 nvars = 0;
    std::vector<Nd> nd;
    std::vector<Note> notes;
    u64 steps = 0;
    double spent = 0; // seconds this path has taken since the last fork point it was resumed from, plus its ancestors
    u32 forks = 0;
    u64 errnoAddr = 0;
};
static std::vector<State *> worklist;
static std::vector<ObjRef> initObjs;

static u64 totalSteps = 0, nPaths = 0, nForks = 0, nInfeasible = 0, nReached = 0, nChecks = 0, nCheckSolver = 0, nErrPaths = 0;
static u64 maxSteps = 30000000, nHang = 0;
static double pathTime = 0;
static double tStart, timeLimit = 600;
static bool incomplete = false;
static std::string incompleteWhy;
static std::map<std::string, u64> reachedNames;

struct Failure { std::string what, loc, kind, stack; std::vector<u64> vals; std::vector<std::pair<std::string, u64>> notes; u64 count = 1; };
static std::map<std::string, Failure> failures;
static std::vector<std::pair<std::vector<u64>, std::vector<std::pair<std::string, u64>>>> samples;
static size_t maxSamples = 12;
static size_t maxFailures = 20;

struct PathEnd {};
struct Reexec {}; // restart current instruction later (state was pushed back)

// ------------------------------------------------------------------ globals
static u64 newObj(State *s, u32 size, u8 flags, const Instruction *site, u8 initst)
{
    Obj *o = new Obj();
    o->size = size; o->flags = flags; o->site = site;
    o->b.assign(size, 0);
    o->st.assign(size, initst);
    auto &v = s ? s->objs : initObjs;
    v.emplace_back(o);
    return (u64)(v.size() - 1) << 32;
}
static DFunc *getFunc(const Function *F);
static u64 constVal(const Constant *C);
static u64 constAddr(const GlobalValue *G)
{
    if (auto *F = dyn_cast<Function>(G)) return getFunc(F)->addr;
    if (auto *V = dyn_cast<GlobalVariable>(G)) {
        auto it = globalAddr.find(V);
        if (it == globalAddr.end()) die("unknown global %s", G->getName().str().c_str());
        return it->second;
    }
    if (auto *A = dyn_cast<GlobalAlias>(G)) return constVal(A->getAliasee());
    die("global kind");
}
static u64 constVal(const Constant *C)
{
    if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) die("wide int"); return I->getZExtValue(); }
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
    if (auto *G = dyn_cast<GlobalValue>(C)) return constAddr(G);
    if (auto *X = dyn_cast<ConstantExpr>(C)) {
        switch (X->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(X)->accumulateConstantOffset(*DL, off)) die("const gep");
            return constVal(X->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            return constVal(X->getOperand(0));
        case Instruction::Sub: return constVal(X->getOperand(0)) - constVal(X->getOperand(1));
        case Instruction::Add: return constVal(X->getOperand(0)) + constVal(X->getOperand(1));
        case Instruction::Trunc: return constVal(X->getOperand(0)) & maskw(X->getType()->getIntegerBitWidth());
        default: die("const expr opcode %u", X->getOpcode());
        }
    }
    if (auto *F = dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getZExtValue();
    die("constant kind %u", C->getValueID());
}
static void initConst(Obj *o, u64 off, const Constant *C)
{
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *S = dyn_cast<ConstantStruct>(C)) {
        auto *L = DL->getStructLayout(S->getType());
        for (unsigned i = 0; i < S->getNumOperands(); i++) initConst(o, off + L->getElementOffset(i), S->getOperand(i));
        return;
    }
    if (auto *A = dyn_cast<ConstantArray>(C)) {
        u64 sz = DL->getTypeAllocSize(A->getType()->getElementType());
        for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(o, off + i * sz, A->getOperand(i));
        return;
    }
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
        StringRef r = D->getRawDataValues();
        memcpy(&o->b[off], r.data(), r.size());
        return;
    }
    u64 v = constVal(C);
    unsigned n = DL->getTypeStoreSize(C->getType());
    for (unsigned i = 0; i < n; i++) o->b[off + i] = (u8)(v >> (8 * i));
}

// ------------------------------------------------------------------ builtins table
enum { B_NONE = 0, B_ND = 1, B_PICK, B_ASSUME, B_CHECK, B_REACHED, B_NOTE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET,
       B_MEMCMP, B_STRLEN, B_STRCMP, B_STRNCMP, B_STRCASECMP, B_STRNCASECMP, B_ABORT, B_ASSERTFAIL, B_EXIT, B_ERRNO, B_VASTART, B_VAEND,
       B_VACOPY, B_BSWAP, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_NOP, B_EXPECT, B_OBJSIZE, B_FSHL, B_FSHR, B_CTPOP, B_STACKSAVE, B_ISSYM, B_DBG,
       B_CTLZ, B_CTTZ, B_READABLE, B_CONC, B_UADDO, B_HEAPLIVE };
static const std::map<std::string, int> builtinNames = {
    {"vf_nd", B_ND}, {"vf_pick", B_PICK}, {"vf_assume", B_ASSUME}, {"vf_check", B_CHECK}, {"vf_reached", B_REACHED}, {"vf_note", B_NOTE},
    {"vf_malloc", B_MALLOC}, {"vf_free", B_FREE}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN},
    {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"strcasecmp", B_STRCASECMP}, {"strncasecmp", B_STRNCASECMP}, {"abort", B_ABORT},
    {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__errno_location", B_ERRNO}, {"vf_is_symbolic", B_ISSYM},
    {"vf_debug", B_DBG}, {"vf_concretize", B_CONC}, {"vf_heap_live", B_HEAPLIVE}};

static int intrinsicBuiltin(const Function *F)
{
    switch (F->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY;
    case Intrinsic::memmove: return B_MEMMOVE;
    case Intrinsic::memset: return B_MEMSET;
    case Intrinsic::vastart: return B_VASTART;
    case Intrinsic::vaend: return B_VAEND;
    case Intrinsic::vacopy: return B_VACOPY;
    case Intrinsic::bswap: return B_BSWAP;
    case Intrinsic::umin: return B_UMIN;
    case Intrinsic::umax: return B_UMAX;
    case Intrinsic::smin: return B_SMIN;
    case Intrinsic::smax: return B_SMAX;
    case Intrinsic::abs: return B_ABS;
    case Intrinsic::expect: return B_EXPECT;
    case Intrinsic::objectsize: return B_OBJSIZE;
    case Intrinsic::fshl: return B_FSHL;
    case Intrinsic::fshr: return B_FSHR;
    case Intrinsic::ctpop: return B_CTPOP;
    case Intrinsic::ctlz: return B_CTLZ;
    case Intrinsic::cttz: return B_CTTZ;
    case Intrinsic::stacksave: return B_STACKSAVE;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: return B_NOP;
    case Intrinsic::trap: return B_ABORT;
    default: return -1;
    }
}
static DFunc *getFunc(const Function *F)
{
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    DFunc *d = new DFunc();
    d->f = const_cast<Function *>(F);
    d->name = F->getName().str();
    d->vararg = F->isVarArg();
    d->nargs = (int)F->arg_size();
    d->addr = newObj(nullptr, 16, OF_FUNC | OF_RO, nullptr, 0);
    if (F->isIntrinsic()) d->builtin = intrinsicBuiltin(F);
    else { auto b = builtinNames.find(d->name); if (b != builtinNames.end()) d->builtin = b->second; }
    funcs[F] = d;
    funcByAddr[d->addr] = d;
    return d;
}

static unsigned tyw(Type *T)
{
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isDoubleTy()) return 64;
    if (T->isFloatTy()) return 32;
    return 0;
}
static void decode(DFunc *d)
{
    if (d->decoded) return;
    d->decoded = true;
    Function &F = *d->f;
    std::unordered_map<const Value *, int> slot;
    std::unordered_map<const BasicBlock *, int> bidx;
    int n = 0;
    for (auto &A : F.args()) slot[&A] = n++;
    int nb = 0;
    for (auto &B : F) {
        bidx[&B] = nb++;
        for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    }
    d->nslots = n;
    auto op = [&](const Value *V) -> Opnd {
        if (auto *C = dyn_cast<Constant>(V)) {
            if (C->getType()->isAggregateType()) return Opnd{-1, 0};
            return Opnd{-1, constVal(C)};
        }
        if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return Opnd{-1, 0};
        return Opnd{slot.at(V), 0};
    };
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        e.blk = bidx.at(to);
        for (auto &P : to->phis()) e.phis.push_back({slot.at(&P), op(P.getIncomingValueForBlock(from))});
        return e;
    };
    for (auto &B : F) {
        d->blocks.emplace_back();
        for (auto &I : B) {
            if (isa<PHINode>(I)) continue;
            Inst x;
            x.src = &I;
            x.w = (u8)tyw(I.getType());
            x.w2 = 0;
            x.k = 0;
            x.dst = I.getType()->isVoidTy() ? -1 : slot.at(&I);
            x.op = I_UNSUP;
            if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
                x.op = I_BIN;
                x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1));
                switch (BO->getOpcode()) {
                case Instruction::Add: x.k = K_ADD; break;
                case Instruction::Sub: x.k = K_SUB; break;
                case Instruction::Mul: x.k = K_MUL; break;
                case Instruction::UDiv: x.k = K_UDIV; break;
                case Instruction::SDiv: x.k = K_SDIV; break;
                case Instruction::URem: x.k = K_UREM; break;
                case Instruction::SRem: x.k = K_SREM; break;
                case Instruction::Shl: x.k = K_SHL; break;
                case Instruction::LShr: x.k = K_LSHR; break;
                case Instruction::AShr: x.k = K_ASHR; break;
                case Instruction::And: x.k = K_AND; break;
                case Instruction::Or: x.k = K_OR; break;
                case Instruction::Xor: x.k = K_XOR; break;
                default: x.op = I_UNSUP;
                }
            } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
                x.op = I_ICMP;
                x.w2 = (u8)tyw(C->getOperand(0)->getType());
                x.a = op(C->getOperand(0)); x.b = op(C->getOperand(1));
                switch (C->getPredicate()) {
                case CmpInst::ICMP_EQ: x.k = K_EQ; break;
                case CmpInst::ICMP_NE: x.k = K_EQ; x.neg = true; break;
                case CmpInst::ICMP_ULT: x.k = K_ULT; break;
                case CmpInst::ICMP_ULE: x.k = K_ULE; break;
                case CmpInst::ICMP_UGT: x.k = K_ULT; x.swap = true; break;
                case CmpInst::ICMP_UGE: x.k = K_ULE; x.swap = true; break;
                case CmpInst::ICMP_SLT: x.k = K_SLT; break;
                case CmpInst::ICMP_SLE: x.k = K_SLE; break;
                case CmpInst::ICMP_SGT: x.k = K_SLT; x.swap = true; break;
                case CmpInst::ICMP_SGE: x.k = K_SLE; x.swap = true; break;
                default: x.op = I_UNSUP;
                }
                if (x.swap) std::swap(x.a, x.b);
            } else if (isa<SelectInst>(I)) {
                x.op = I_SELECT; x.a = op(I.getOperand(0)); x.b = op(I.getOperand(1)); x.d = op(I.getOperand(2));
            } else if (isa<ZExtInst>(I)) { x.op = I_ZEXT; x.a = op(I.getOperand(0)); x.w2 = (u8)tyw(I.getOperand(0)->getType()); }
            else if (isa<SExtInst>(I)) { x.op = I_SEXT; x.a = op(I.getOperand(0)); x.w2 = (u8)tyw(I.getOperand(0)->getType()); }
            else if (isa<TruncInst>(I)) { x.op = I_TRUNC; x.a = op(I.getOperand(0)); x.w2 = (u8)tyw(I.getOperand(0)->getType()); }
            else if (isa<BitCastInst>(I) || isa<FreezeInst>(I)) { x.op = I_MOV; x.a = op(I.getOperand(0)); }
            else if (isa<PtrToIntInst>(I)) { x.op = x.w < 64 ? I_TRUNC : I_MOV; x.a = op(I.getOperand(0)); x.w2 = 64; }
            else if (isa<IntToPtrInst>(I)) { unsigned w2 = tyw(I.getOperand(0)->getType()); x.op = w2 < 64 ? I_ZEXT : I_MOV; x.a = op(I.getOperand(0)); x.w2 = (u8)w2; }
            else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                x.op = I_GEP;
                x.a = op(G->getPointerOperand());
                int64_t off = 0;
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    if (StructType *S = gi.getStructTypeOrNull()) {
                        off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                    } else {
                        int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) off += CI->getSExtValue() * sc;
                        else { x.gep.push_back({op(gi.getOperand()), sc}); x.gepw.push_back((u8)tyw(gi.getOperand()->getType())); }
                    }
                }
                x.b = Opnd{-1, (u64)off};
            } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                x.op = I_LOAD; x.a = op(L->getPointerOperand());
                x.isptr = L->getType()->isPointerTy();
                if (!x.w) x.op = I_UNSUP;
            } else if (auto *S = dyn_cast<StoreInst>(&I)) {
                x.op = I_STORE; x.a = op(S->getPointerOperand()); x.b = op(S->getValueOperand());
                x.w = (u8)tyw(S->getValueOperand()->getType());
                if (!x.w) x.op = I_UNSUP;
            } else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                x.op = I_ALLOCA; x.a = op(A->getArraySize()); x.b = Opnd{-1, (u64)DL->getTypeAllocSize(A->getAllocatedType())};
            } else if (auto *BR = dyn_cast<BranchInst>(&I)) {
                if (BR->isUnconditional()) { x.op = I_BR; x.edges.push_back(edge(&B, BR->getSuccessor(0))); }
                else { x.op = I_CBR; x.a = op(BR->getCondition()); x.edges.push_back(edge(&B, BR->getSuccessor(0))); x.edges.push_back(edge(&B, BR->getSuccessor(1))); }
            } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                x.op = I_SWITCH; x.a = op(SW->getCondition()); x.w2 = (u8)tyw(SW->getCondition()->getType());
                x.edges.push_back(edge(&B, SW->getDefaultDest()));
                for (auto &c : SW->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.edges.push_back(edge(&B, c.getCaseSuccessor())); }
            } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
                x.op = I_RET;
                if (R->getReturnValue()) { x.a = op(R->getReturnValue()); x.w2 = 1; }
            } else if (isa<UnreachableInst>(I)) x.op = I_UNREACH;
            else if (auto *CI = dyn_cast<CallInst>(&I)) {
                x.op = I_CALL;
                if (CI->isInlineAsm()) x.op = I_UNSUP;
                Value *cal = CI->getCalledOperand()->stripPointerCasts();
                if (auto *CF = dyn_cast<Function>(cal)) x.callee = getFunc(CF);
                else if (!CI->isInlineAsm()) x.a = op(CI->getCalledOperand());
                if (!(x.callee && x.callee->builtin == B_NOP))
                    for (unsigned i = 0; i < CI->arg_size(); i++) {
                        x.args.push_back(op(CI->getArgOperand(i)));
                        x.argw.push_back((u8)tyw(CI->getArgOperand(i)->getType()));
                        x.byval.push_back(CI->isByValArgument(i) ? (u32)DL->getTypeAllocSize(CI->getParamByValType(i)) : 0);
                    }
            } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                x.op = I_UNSUP; (void)EV;
            }
            d->blocks.back().in.push_back(std::move(x));
        }
    }
}

// ------------------------------------------------------------------ engine
static std::string locOf(const Instruction *I)
{
    if (!I) return "?";
    const DebugLoc &L = I->getDebugLoc();
    if (!L) return I->getFunction()->getName().str();
    std::string f = "?";
    if (auto *S = dyn_cast_or_null<DIScope>(L.getScope())) f = S->getFilename().str();
    size_t p = f.rfind('/');
    if (p != std::string::npos) f = f.substr(p + 1);
    return f + ":" + std::to_string(L.getLine());
}
static State *S;         // current state
static const Inst *CI_;  // current instruction

static bool inSlice(E e, const std::set<u32> &vs)
{
    for (u32 v : *e->vars) if (vs.count(v)) return true;
    return false;
}
static void slice(State *s, E q, std::vector<E> &out)
{
    static std::vector<u32> mark;
    static u32 ep = 0;
    ep++;
    if (mark.size() < s->nvars + 1) mark.resize(s->nvars + 64, 0);
    for (u32 v : *q->vars) mark[v] = ep;
    std::vector<char> in(s->cons.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s->cons.size(); i++) {
            if (in[i]) continue;
            bool hit = false;
            for (u32 v : *s->cons[i]->vars) if (mark[v] == ep) { hit = true; break; }
            if (!hit) continue;
            in[i] = 1;
            for (u32 v : *s->cons[i]->vars) if (mark[v] != ep) { mark[v] = ep; ch = true; }
        }
    }
    for (size_t i = 0; i < s->cons.size(); i++) if (in[i]) out.push_back(s->cons[i]);
    out.push_back(q);
}
// can cond be true?  On success with a different model, m is updated.
static bool mayBe(State *s, E cond, Model &m)
{
    if (isC(cond)) return cond->c != 0;
    if (eval(cond, s->model)) { m = s->model; return true; }
    std::vector<E> cs;
    slice(s, cond, cs);
    const QRes &q = solve(cs);
    if (q.sat < 0) {
        incomplete = true; incompleteWhy = "solver returned unknown";
        throw PathEnd();
    }
    if (!q.sat) return false;
    m = s->model;
    for (auto &p : q.vals) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    return true;
}
static void addCons(State *s, E c, const Model &m)
{
    if (isC(c)) return;
    if (c->k == K_AND && c->w == 1) { addCons(s, c->a, m); addCons(s, c->b, m); s->known[c] = 1; s->model = m; return; }
    s->cons.push_back(c);
    s->known[c] = 1;
    if (c->k == K_XOR && isC(c->b)) s->known[c->a] = 0;
    if (c->k == K_EQ && isC(c->b)) s->known[c->a] = c->b->c;
    s->model = m;
}
static State *cloneState(State *s)
{
    nForks++;
    State *n = new State(*s);
    n->forks++;
    s->forks++;
    return n;
}
// decide a boolean condition, forking if both are possible (other side re-executes the instruction)
static bool decide(E c)
{
    if (isC(c)) return c->c != 0;
    auto it = S->known.find(c);
    if (it != S->known.end()) return it->second != 0;
    Model mt, mf;
    E nc = mkNot(c);
    bool t = mayBe(S, c, mt), f = mayBe(S, nc, mf);
    if (t && f) {
        State *o = cloneState(S);
        addCons(o, nc, mf);
        worklist.push_back(o);
        addCons(S, c, mt);
        return true;
    }
    if (t) { S->known[c] = 1; return true; }
    if (f) { S->known[c] = 0; return false; }
    throw PathEnd(); // infeasible (cannot happen)
}
static u64 concretize(const Val &v, unsigned w)
{
    if (!v.e) return v.c;
    E e = v.e;
    auto it = S->known.find(e);
    if (it != S->known.end()) return it->second;
    u64 x = eval(e, S->model);
    E eq = mkBin(K_EQ, e, mkC(x, w));
    Model mf;
    E ne = mkNot(eq);
    if (mayBe(S, ne, mf)) {
        State *o = cloneState(S);
        addCons(o, ne, mf);
        worklist.push_back(o);
        addCons(S, eq, Model(S->model));
    }
    S->known[e] = x;
    return x;
}
static std::vector<u64> ndValues(State *s, const Model &m)
{
    std::vector<u64> r;
    for (auto &n : s->nd) r.push_back(n.conc ? n.c : (n.var < m.size() ? m[n.var] & maskw(n.w) : 0));
    return r;
}
static std::string stackOf(State *s)
{
    std::string r;
    for (size_t i = s->fr.size(); i-- > 0;) {
        if (!r.empty()) r += " < ";
        r += s->fr[i].f->name;
        if (s->fr.size() - i > 12) break;
    }
    return r;
}
static void fail(const std::string &kind, const std::string &what, const Model &m)
{
    std::string loc = locOf(CI_ ? CI_->src : nullptr);
    // library-model frames: report the innermost frame outside
    std::string key = kind + "|" + what + "|" + (kind == "check" ? "" : loc);
    auto it = failures.find(key);
    if (it != failures.end()) { it->second.count++; return; }
    if (failures.size() >= maxFailures) { return; }
    Failure f;
    f.what = what; f.kind = kind; f.loc = loc; f.stack = stackOf(S);
    f.vals = ndValues(S, m);
    for (auto &n : S->notes) f.notes.push_back({n.name, n.v.e ? eval(n.v.e, m) : n.v.c});
    failures[key] = f;
}
[[noreturn]] static void memError(const std::string &what)
{
    fail("memory", what, S->model);
    nErrPaths++;
    throw PathEnd();
}
static Obj *objAt(u64 id) { return id < S->objs.size() ? S->objs[id].p : nullptr; }
static Obj *writable(u64 id)
{
    Obj *o = S->objs[id].p;
    if (o->ref > 1) {
        Obj *n = new Obj(*o);
        n->ref = 1;
        S->objs[id] = ObjRef(n);
        return n;
    }
    return o;
}
static std::string objDesc(Obj *o)
{
    if (!o) return "no object";
    std::string r = o->flags & OF_HEAP ? "heap block" : o->flags & OF_STACK ? "stack object" : o->flags & OF_FUNC ? "function" : "global";
    r += " of " + std::to_string(o->size) + " bytes";
    if (o->site) r += " allocated at " + locOf(o->site);
    if (o->freeSite) r += ", freed at " + locOf(o->freeSite);
    return r;
}
static void checkAccess(u64 addr, u64 n, bool wr)
{
    u64 id = addr >> 32, off = addr & 0xffffffffu;
    if (n == 0) return;
    if (id == 0) memError(std::string(wr ? "write" : "read") + " through NULL pointer");
    Obj *o = objAt(id);
    if (!o) memError("access through wild pointer");
    if (o->flags & OF_FREED) memError(std::string("use after ") + ((o->flags & OF_STACK) ? "return" : "free") + " (" + (wr ? "write" : "read") + ") of " + objDesc(o));
    if (o->flags & OF_FUNC) memError("data access to function");
    if (off + n > o->size) memError(std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + objDesc(o));
    if (wr && (o->flags & OF_RO)) memError("write to read-only " + objDesc(o));
}
static E byteExpr(Obj *&o, u64 id, u64 off)
{
    if (o->st[off] == 0) return mkC(o->b[off], 8);
    if (o->st[off] == 1) {
        E e = o->sym[off];
        auto it = S->known.find(e);
        return it == S->known.end() ? e : mkC(it->second, 8);
    }
    // uninitialised: fresh unconstrained byte
    o = writable(id);
    E v = intern(K_VAR, 8, S->nvars++);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    o->sym[off] = v;
    o->st[off] = 1;
    return v;
}
static Val loadConc(u64 addr, unsigned w)
{
    unsigned n = (w + 7) / 8;
    checkAccess(addr, n, false);
    u64 id = addr >> 32, off = addr & 0xffffffffu;
    Obj *o = S->objs[id].p;
    bool conc = true;
    for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; }
    if (conc) {
        u64 v = 0;
        memcpy(&v, &o->b[off], n);
        return cv(v & maskw(w));
    }
    E r = byteExpr(o, id, off + n - 1);
    for (unsigned i = n - 1; i-- > 0;) r = mkConcat(r, byteExpr(o, id, off + i));
    if (w < 8 * n) r = mkExtract(r, 0, w);
    return fromE(r);
}
static void storeConc(u64 addr, const Val &v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    checkAccess(addr, n, true);
    u64 id = addr >> 32, off = addr & 0xffffffffu;
    Obj *o = writable(id);
    if (!v.e) {
        u64 c = v.c & maskw(w);
        for (unsigned i = 0; i < n; i++) { o->b[off + i] = (u8)(c >> (8 * i)); o->st[off + i] = 0; }
        return;
    }
    E e = v.e;
    if (w < 8 * n) e = mkZext(e, 8 * n);
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    for (unsigned i = 0; i < n; i++) {
        E x = mkExtract(e, 8 * i, 8);
        if (isC(x)) { o->b[off + i] = (u8)x->c; o->st[off + i] = 0; }
        else { o->sym[off + i] = x; o->st[off + i] = 1; }
    }
}
// resolve a symbolic address: returns a concrete address when unique or forks; or, for reads, single object + offset expr
static Val loadSym(E addr, unsigned w, bool isptr)
{
    unsigned n = (w + 7) / 8;
    auto it = S->known.find(addr);
    if (it != S->known.end()) return loadConc(it->second, w);
    u64 a0 = eval(addr, S->model);
    u64 id = a0 >> 32;
    Obj *o = objAt(id);
    if (!isptr && id && o && !(o->flags & (OF_FREED | OF_FUNC)) && o->size >= n && o->size <= 4096) {
        E base = mkC(id << 32, 64);
        E off = mkBin(K_SUB, addr, base);
        E inb = mkBin(K_ULE, off, mkC(o->size - n, 64));
        Model m;
        E ninb = mkNot(inb);
        if (eval(inb, S->model)) {
            if (!(S->known.count(inb)) && mayBe(S, ninb, m)) {
                State *c = cloneState(S);
                addCons(c, ninb, m);
                worklist.push_back(c);
                addCons(S, inb, Model(S->model));
            }
            S->known[inb] = 1;
            // ite chain grouped over offsets; skip offsets the expression cannot take is left to the solver
            E r = nullptr;
            std::vector<E> vals(o->size - n + 1);
            for (u64 i = 0; i + n <= o->size; i++) {
                E v = byteExpr(o, id, i + n - 1);
                for (unsigned j = n - 1; j-- > 0;) v = mkConcat(v, byteExpr(o, id, i + j));
                vals[i] = v;
            }
            std::function<E(u64, u64)> build = [&](u64 lo, u64 hi) -> E {
                bool same = true;
                for (u64 i = lo + 1; i < hi; i++) if (vals[i] != vals[lo]) { same = false; break; }
                if (same) return vals[lo];
                u64 mid = (lo + hi) / 2;
                E x = build(lo, mid), y = build(mid, hi);
                return mkIte(mkBin(K_ULT, off, mkC(mid, 64)), x, y);
            };
            r = build(0, vals.size());
            if (w < 8 * n) r = mkExtract(r, 0, w);
            return fromE(r);
        }
    }
    u64 a = concretize(Val{0, addr}, 64);
    return loadConc(a, w);
}
static Val load(const Val &a, unsigned w, bool isptr) { return a.e ? loadSym(a.e, w, isptr) : loadConc(a.c, w); }
static void store(const Val &a, const Val &v, unsigned w)
{
    storeConc(a.e ? concretize(a, 64) : a.c, v, w);
}

static inline Val get(const Frame &f, const Opnd &o)
{
    if (o.slot < 0) return cv(o.c);
    const Val &v = f.r[o.slot];
    if (v.e) {
        auto it = S->known.find(v.e->k == K_ZEXT ? v.e->a : v.e);
        if (it != S->known.end()) return cv(it->second);
    }
    return v;
}

static void gotoEdge(Frame &f, const Edge &e)
{
    if (e.phis.size() == 1) f.r[e.phis[0].first] = get(f, e.phis[0].second);
    else if (!e.phis.empty()) {
        SmallVector<Val, 8> t;
        for (auto &p : e.phis) t.push_back(get(f, p.second));
        for (size_t i = 0; i < t.size(); i++) f.r[e.phis[i].first] = t[i];
    }
    f.blk = e.blk;
    f.pc = 0;
}
static void copyBytes(u64 d, u64 s, u64 n)
{
    if (!n) return;
    checkAccess(s, n, false);
    checkAccess(d, n, true);
    u64 di = d >> 32, doff = d & 0xffffffffu, soff = s & 0xffffffffu;
    ObjRef so = S->objs[s >> 32];
    Obj *o = writable(di);
    std::vector<u8> b(so.p->b.begin() + soff, so.p->b.begin() + soff + n), st(so.p->st.begin() + soff, so.p->st.begin() + soff + n);
    bool anysym = false;
    for (u8 x : st) if (x == 1) anysym = true;
    if (anysym) {
        std::vector<E> sy(so.p->sym.begin() + soff, so.p->sym.begin() + soff + n);
        if (o->sym.empty()) o->sym.assign(o->size, nullptr);
        std::copy(sy.begin(), sy.end(), o->sym.begin() + doff);
    }
    std::copy(b.begin(), b.end(), o->b.begin() + doff);
    std::copy(st.begin(), st.end(), o->st.begin() + doff);
}
static std::string cstr(u64 a)
{
    std::string r;
    u64 id = a >> 32, off = a & 0xffffffffu;
    Obj *o = objAt(id);
    while (o && off < o->size && o->st[off] == 0 && o->b[off]) r += (char)o->b[off++];
    return r;
}
static E lowerE(E x)
{
    if (isC(x)) return mkC(x->c >= 'A' && x->c <= 'Z' ? x->c + 32 : x->c, 8);
    E isup = mkBin(K_ULT, mkBin(K_ADD, x, mkC((u64)-(int)'A', 8)), mkC(26, 8));
    return mkIte(isup, mkBin(K_ADD, x, mkC(32, 8)), x);
}
// strcmp family; limit = max bytes (or ~0), cs = stop at NUL
static Val cmpBuiltin(u64 a, u64 b, u64 limit, bool stopNul, bool nocase)
{
    struct It { E x, y; };
    std::vector<It> it;
    u64 i = 0;
    E prefixEq = mkC(1, 1);
    for (; i < limit; i++) {
        // reading byte i is only performed if the prefix is equal (and non-NUL)
        u64 pa = a + i, pb = b + i;
        auto bad = [&](u64 p) {
            Obj *o = objAt(p >> 32);
            return (p >> 32) == 0 || !o || (o->flags & (OF_FREED | OF_FUNC)) || (p & 0xffffffffu) >= o->size;
        };
        if (bad(pa) || bad(pb)) {
            if (!isC(prefixEq)) {
                Model m;
                if (!mayBe(S, prefixEq, m)) break; // never reached
                addCons(S, prefixEq, m);            // error path witness
            }
            checkAccess(pa, 1, false);
            checkAccess(pb, 1, false);
        }
        Obj *oa = S->objs[pa >> 32].p;
        E x = byteExpr(oa, pa >> 32, pa & 0xffffffffu);
        Obj *ob = S->objs[pb >> 32].p;
        E y = byteExpr(ob, pb >> 32, pb & 0xffffffffu);
        if (nocase) { x = lowerE(x); y = lowerE(y); }
        it.push_back({x, y});
        E eq = mkBin(K_EQ, x, y);
        E cont = stopNul ? mkBin(K_AND, eq, mkNot(mkBin(K_EQ, x, mkC(0, 8)))) : eq;
        prefixEq = mkBin(K_AND, prefixEq, cont);
        if (isC(prefixEq) && !prefixEq->c) { i++; break; }
        if (isC(cont) && !cont->c) { i++; break; }
        // prune with known facts: if equality is already decided false, stop
        auto kn = S->known.find(eq);
        if (kn != S->known.end() && !kn->second) { i++; break; }
    }
    E r = mkC(0, 32);
    for (size_t j = it.size(); j-- > 0;) {
        E x = it[j].x, y = it[j].y;
        E eq = mkBin(K_EQ, x, y);
        E diff = mkBin(K_SUB, mkZext(x, 32), mkZext(y, 32));
        E cont = stopNul ? mkIte(mkBin(K_EQ, x, mkC(0, 8)), mkC(0, 32), r) : r;
        if (isC(eq)) r = eq->c ? cont : diff;
        else r = mkIte(eq, cont, mkIte(mkBin(K_ULT, x, y), mkC(~0ULL, 32), mkC(1, 32)));
    }
    return fromE(r);
}
static void ret(Frame &f, const Inst &in, Val v) { if (in.dst >= 0) f.r[in.dst] = v; }
static Val binop(Kind k, unsigned w, const Val &a, const Val &b)
{
    if (!a.e && !b.e) return cv(foldBin(k, w, a.c, b.c));
    return fromE(mkBin(k, toE(a, w), toE(b, w)));
}

static bool doBuiltin(Frame &f, const Inst &in, int b, const DFunc *callee)
{
    auto A = [&](int i) { return get(f, in.args[i]); };
    auto AC = [&](int i) { return concretize(get(f, in.args[i]), in.argw[i]); };
    switch (b) {
    case B_ND: {
        unsigned w = (unsigned)AC(0);
        u32 id = S->nvars++;
        S->nd.push_back(Nd{id, (u8)w, 0, false});
        E v = intern(K_VAR, (u8)w, id);
        ret(f, in, fromE(mkZext(v, 64)));
        return true;
    }
    case B_PICK: {
        u64 n = AC(0);
        if (n == 0) throw PathEnd();
        for (u64 i = n; i-- > 1;) {
            State *c = cloneState(S);
            c->nd.push_back(Nd{0, 64, i, true});
            Frame &cf = c->fr.back();
            if (in.dst >= 0) cf.r[in.dst] = cv(i);
            cf.pc++;
            worklist.push_back(c);
        }
        S->nd.push_back(Nd{0, 64, 0, true});
        ret(f, in, cv(0));
        return true;
    }
    case B_CONC: ret(f, in, cv(AC(0))); return true;
    case B_ASSUME: {
        Val v = A(0);
        E c = mkNot(mkBin(K_EQ, toE(v, in.argw[0]), mkC(0, in.argw[0])));
        if (isC(c)) { if (!c->c) { nInfeasible++; throw PathEnd(); } return true; }
        Model m;
        if (!mayBe(S, c, m)) { nInfeasible++; throw PathEnd(); }
        addCons(S, c, m);
        return true;
    }
    case B_CHECK: {
        Val v = A(0);
        nChecks++;
        E c = mkNot(mkBin(K_EQ, toE(v, in.argw[0]), mkC(0, in.argw[0])));
        if (isC(c)) {
            if (!c->c) { fail("check", cstr(A(1).c), S->model); nErrPaths++; throw PathEnd(); }
            return true;
        }
        nCheckSolver++;
        Model m;
        E nc = mkNot(c);
        if (mayBe(S, nc, m)) {
            fail("check", cstr(A(1).c), m);
            if (bigCone({c}) || !mayBe(S, c, m)) { nErrPaths++; throw PathEnd(); }
            addCons(S, c, m);
        } else S->known[c] = 1;
        return true;
    }
    case B_REACHED: nReached++; reachedNames[cstr(A(0).c)]++; return true;
    case B_NOTE: {
        u64 p = A(0).c;
        Obj *o = objAt(p >> 32);
        (void)o;
        static std::set<std::string> names;
        S->notes.push_back(Note{names.insert(cstr(p)).first->c_str(), A(1)});
        return true;
    }
    case B_DBG: {
        Val v = A(1);
        fprintf(stderr, "DBG %s %s%llu\n", cstr(A(0).c).c_str(), v.e ? "sym " : "", (unsigned long long)(v.e ? eval(v.e, S->model) : v.c));
        return true;
    }
    case B_ISSYM: ret(f, in, cv(A(0).e != nullptr)); return true;
    case B_HEAPLIVE: {
        u64 n = 0;
        for (auto &r : S->objs) if (r.p && (r.p->flags & OF_HEAP) && !(r.p->flags & OF_FREED)) n++;
        ret(f, in, cv(n));
        return true;
    }
    case B_MALLOC: case B_CALLOC: {
        u64 n = AC(0);
        if (b == B_CALLOC) n *= AC(1);
        if (n > (1u << 26)) { // absurd request: allocation fails
            ret(f, in, cv(0));
            return true;
        }
        ret(f, in, cv(newObj(S, (u32)n, OF_HEAP, in.src, b == B_CALLOC ? 0 : 2)));
        return true;
    }
    case B_FREE: case B_REALLOC: {
        u64 p = AC(0);
        u64 n = b == B_REALLOC ? AC(1) : 0;
        if (p == 0) {
            if (b == B_REALLOC) ret(f, in, cv(newObj(S, (u32)n, OF_HEAP, in.src, 2)));
            return true;
        }
        Obj *o = objAt(p >> 32);
        if (!o || (p >> 32) == 0) memError("free of wild pointer");
        if (!(o->flags & OF_HEAP)) memError("free of non-heap " + objDesc(o));
        if (o->flags & OF_FREED) memError("double free of " + objDesc(o));
        if (p & 0xffffffffu) memError("free of interior pointer into " + objDesc(o));
        u64 np = 0;
        if (b == B_REALLOC) {
            if (n > (1u << 26)) { ret(f, in, cv(0)); return true; }
            np = newObj(S, (u32)n, OF_HEAP, in.src, 2);
            copyBytes(np, p, std::min<u64>(n, S->objs[p >> 32].p->size));
        }
        o = writable(p >> 32);
        o->flags |= OF_FREED;
        o->freeSite = in.src;
        // release the payload
        o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit();
        if (b == B_REALLOC) ret(f, in, cv(np));
        return true;
    }
    case B_MEMCPY: case B_MEMMOVE: {
        u64 d = AC(0), s = AC(1), n = AC(2);
        if (b == B_MEMCPY && n && d != s && (d >> 32) == (s >> 32) && ((d < s && d + n > s) || (s < d && s + n > d))) memError("memcpy with overlapping ranges");
        copyBytes(d, s, n);
        ret(f, in, cv(d));
        return true;
    }
    case B_MEMSET: {
        u64 d = AC(0), n = AC(2);
        Val v = A(1);
        if (n) {
            checkAccess(d, n, true);
            Obj *o = writable(d >> 32);
            u64 off = d & 0xffffffffu;
            if (!v.e) {
                memset(&o->b[off], (int)(v.c & 0xff), n);
                memset(&o->st[off], 0, n);
            } else for (u64 i = 0; i < n; i++) storeConc(d + i, fromE(mkExtract(v.e, 0, 8)), 8);
        }
        ret(f, in, cv(d));
        return true;
    }
    case B_MEMCMP: { u64 a = AC(0), c = AC(1), n = AC(2); ret(f, in, cmpBuiltin(a, c, n, false, false)); return true; }
    case B_STRCMP: { u64 a = AC(0), c = AC(1); ret(f, in, cmpBuiltin(a, c, ~0ULL, true, false)); return true; }
    case B_STRCASECMP: { u64 a = AC(0), c = AC(1); ret(f, in, cmpBuiltin(a, c, ~0ULL, true, true)); return true; }
    case B_STRNCMP: { u64 a = AC(0), c = AC(1), n = AC(2); ret(f, in, cmpBuiltin(a, c, n, true, false)); return true; }
    case B_STRNCASECMP: { u64 a = AC(0), c = AC(1), n = AC(2); ret(f, in, cmpBuiltin(a, c, n, true, true)); return true; }
    case B_STRLEN: {
        u64 a = AC(0), i = 0;
        for (;; i++) {
            checkAccess(a + i, 1, false);
            Obj *o = S->objs[a >> 32].p;
            u64 off = (a & 0xffffffffu) + i;
            if (o->st[off] == 0) { if (!o->b[off]) break; continue; }
            E x = byteExpr(o, a >> 32, off);
            if (decide(mkBin(K_EQ, x, mkC(0, 8)))) break;
        }
        ret(f, in, cv(i));
        return true;
    }
    case B_ABORT: fail("abort", "abort() / trap reached", S->model); nErrPaths++; throw PathEnd();
    case B_ASSERTFAIL: fail("abort", "assert failed: " + cstr(A(0).c), S->model); nErrPaths++; throw PathEnd();
    case B_EXIT: fail("abort", "process exit requested", S->model); nErrPaths++; throw PathEnd();
    case B_ERRNO:
        if (!S->errnoAddr) S->errnoAddr = newObj(S, 4, OF_GLOBAL, nullptr, 0);
        ret(f, in, cv(S->errnoAddr));
        return true;
    case B_VASTART: {
        u64 p = AC(0);
        u64 area = newObj(S, (u32)(f.va.size() * 8 + 8), OF_STACK, in.src, 2);
        f.allocas.push_back((u32)(area >> 32));
        for (size_t i = 0; i < f.va.size(); i++) {
            Val v = f.va[i];
            if (v.e && f.vaw[i] < 64) v = fromE(mkZext(v.e, 64));
            storeConc(area + i * 8, v, 64);
        }
        storeConc(p, cv(48), 32);
        storeConc(p + 4, cv(304), 32);
        storeConc(p + 8, cv(area), 64);
        storeConc(p + 16, cv(0), 64);
        return true;
    }
    case B_VAEND: return true;
    case B_VACOPY: { u64 d = AC(0), s = AC(1); copyBytes(d, s, 24); return true; }
    case B_BSWAP: {
        Val v = A(0);
        unsigned w = in.w;
        E e = toE(v, w), r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { E x = mkExtract(e, 8 * i, 8); r = r ? mkConcat(r, x) : x; }
        ret(f, in, fromE(r));
        return true;
    }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
        Val x = A(0), y = A(1);
        E lt = mkBin(b == B_UMIN || b == B_UMAX ? K_ULT : K_SLT, toE(x, in.w), toE(y, in.w));
        bool mn = b == B_UMIN || b == B_SMIN;
        ret(f, in, fromE(mn ? mkIte(lt, toE(x, in.w), toE(y, in.w)) : mkIte(lt, toE(y, in.w), toE(x, in.w))));
        return true;
    }
    case B_ABS: {
        E x = toE(A(0), in.w);
        ret(f, in, fromE(mkIte(mkBin(K_SLT, x, mkC(0, in.w)), mkBin(K_SUB, mkC(0, in.w), x), x)));
        return true;
    }
    case B_EXPECT: ret(f, in, A(0)); return true;
    case B_OBJSIZE: ret(f, in, cv(maskw(in.w))); return true;
    case B_FSHL: case B_FSHR: {
        unsigned w = in.w;
        u64 sh = AC(2) % w;
        E x = toE(A(0), w), y = toE(A(1), w);
        if (b == B_FSHR) sh = (w - sh) % w, sh == 0 ? (void)0 : (void)0;
        if (b == B_FSHR && AC(2) % w == 0) { ret(f, in, fromE(y)); return true; }
        if (sh == 0) { ret(f, in, fromE(x)); return true; }
        ret(f, in, fromE(mkBin(K_OR, mkBin(K_SHL, x, mkC(sh, w)), mkBin(K_LSHR, y, mkC(w - sh, w)))));
        return true;
    }
    case B_CTPOP: ret(f, in, cv((u64)__builtin_popcountll(AC(0)))); return true;
    case B_CTLZ: { u64 v = AC(0); unsigned w = in.w, n = 0; while (n < w && !((v >> (w - 1 - n)) & 1)) n++; ret(f, in, cv(n)); return true; }
    case B_CTTZ: { u64 v = AC(0); unsigned w = in.w, n = 0; while (n < w && !((v >> n) & 1)) n++; ret(f, in, cv(n)); return true; }
    case B_STACKSAVE: ret(f, in, cv(0)); return true;
    case B_NOP: return true;
    }
    incomplete = true;
    incompleteWhy = "unsupported builtin/intrinsic " + callee->name;
    throw PathEnd();
}
static void pushCall(DFunc *fn, const std::vector<Val> &args, const std::vector<u8> &aw, int retSlot)
{
    decode(fn);
    fn->used = true;
    Frame nf;
    nf.f = fn;
    nf.retSlot = retSlot;
    nf.r.assign(fn->nslots, cv(0));
    for (size_t i = 0; i < args.size(); i++) {
        if ((int)i < fn->nargs) nf.r[i] = args[i];
        else { nf.va.push_back(args[i]); nf.vaw.push_back(aw.empty() ? 64 : aw[i]); }
    }
    if (S->fr.size() > 2000) { fail("memory", "call stack overflow (unbounded recursion)", S->model); nErrPaths++; throw PathEnd(); }
    S->fr.push_back(std::move(nf));
}
static bool oneStep() // returns false at path end
{
    Frame &f = S->fr.back();
    const Inst &in = f.f->blocks[f.blk].in[f.pc];
    CI_ = &in;
    S->steps++;
    totalSteps++;
    switch (in.op) {
    case I_BIN: {
        Val a = get(f, in.a), b = get(f, in.b);
        Kind k = (Kind)in.k;
        if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
            if (!b.e) { if (b.c == 0) memError("division by zero"); }
            else {
                E z = mkBin(K_EQ, b.e, mkC(0, in.w));
                if (decide(z)) memError("division by zero");
            }
        }
        f.r[in.dst] = binop(k, in.w, a, b);
        f.pc++;
        break;
    }
    case I_ICMP: {
        Val a = get(f, in.a), b = get(f, in.b);
        if (!a.e && !b.e) f.r[in.dst] = cv(foldBin((Kind)in.k, in.w2, a.c, b.c) ^ (in.neg ? 1 : 0));
        else {
            E r = mkBin((Kind)in.k, toE(a, in.w2), toE(b, in.w2));
            if (in.neg) r = mkNot(r);
            f.r[in.dst] = fromE(r);
        }
        f.pc++;
        break;
    }
    case I_SELECT: {
        Val c = get(f, in.a);
        if (!c.e) f.r[in.dst] = get(f, c.c ? in.b : in.d);
        else {
            auto it = S->known.find(c.e);
            if (it != S->known.end()) f.r[in.dst] = get(f, it->second ? in.b : in.d);
            else f.r[in.dst] = fromE(mkIte(c.e, toE(get(f, in.b), in.w), toE(get(f, in.d), in.w)));
        }
        f.pc++;
        break;
    }
    case I_ZEXT: { Val a = get(f, in.a); f.r[in.dst] = a.e ? fromE(mkZext(a.e, in.w)) : a; f.pc++; break; }
    case I_SEXT: { Val a = get(f, in.a); f.r[in.dst] = a.e ? fromE(mkSext(a.e, in.w)) : cv((u64)sx(a.c, in.w2) & maskw(in.w)); f.pc++; break; }
    case I_TRUNC: { Val a = get(f, in.a); f.r[in.dst] = a.e ? fromE(mkExtract(a.e, 0, in.w)) : cv(a.c & maskw(in.w)); f.pc++; break; }
    case I_MOV: f.r[in.dst] = get(f, in.a); f.pc++; break;
    case I_GEP: {
        Val p = get(f, in.a);
        if (!p.e) p.c += in.b.c;
        else if (in.b.c) p = fromE(mkBin(K_ADD, p.e, mkC(in.b.c, 64)));
        for (size_t i = 0; i < in.gep.size(); i++) {
            Val x = get(f, in.gep[i].first);
            unsigned w = in.gepw[i];
            if (!x.e) {
                u64 off = (u64)sx(x.c, w) * (u64)in.gep[i].second;
                if (!p.e) p.c += off;
                else p = fromE(mkBin(K_ADD, p.e, mkC(off, 64)));
            } else {
                E o = mkBin(K_MUL, mkSext(x.e, 64), mkC((u64)in.gep[i].second, 64));
                p = fromE(mkBin(K_ADD, toE(p, 64), o));
            }
        }
        f.r[in.dst] = p;
        f.pc++;
        break;
    }
    case I_LOAD: { Val v = load(get(f, in.a), in.w, in.isptr); f.r[in.dst] = v; f.pc++; break; }
    case I_STORE: store(get(f, in.a), get(f, in.b), in.w); f.pc++; break;
    case I_ALLOCA: {
        u64 n = concretize(get(f, in.a), 64) * in.b.c;
        u64 p = newObj(S, (u32)n, OF_STACK, in.src, 2);
        f.allocas.push_back((u32)(p >> 32));
        f.r[in.dst] = cv(p);
        f.pc++;
        break;
    }
    case I_BR: gotoEdge(f, in.edges[0]); break;
    case I_CBR: {
        Val c = get(f, in.a);
        bool t;
        if (!c.e) t = c.c != 0;
        else t = decide(c.e);
        gotoEdge(f, in.edges[t ? 0 : 1]);
        break;
    }
    case I_SWITCH: {
        Val c = get(f, in.a);
        int e = 0;
        if (c.e) {
            auto it = S->known.find(c.e);
            if (it != S->known.end()) c = cv(it->second);
        }
        if (!c.e) { for (size_t i = 0; i < in.cases.size(); i++) if (in.cases[i] == c.c) { e = (int)i + 1; break; } }
        else {
            // decide case by case (forks re-execute)
            for (size_t i = 0; i < in.cases.size(); i++)
                if (decide(mkBin(K_EQ, c.e, mkC(in.cases[i], in.w2)))) { e = (int)i + 1; break; }
        }
        gotoEdge(f, in.edges[e]);
        break;
    }
    case I_RET: {
        Val v = in.w2 ? get(f, in.a) : cv(0);
        int rs = f.retSlot;
        for (u32 id : f.allocas) {
            Obj *o = writable(id);
            o->flags |= OF_FREED;
            o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit();
        }
        S->fr.pop_back();
        if (S->fr.empty()) return false;
        if (rs >= 0) S->fr.back().r[rs] = v;
        break;
    }
    case I_CALL: {
        DFunc *fn = in.callee;
        if (!fn) {
            u64 p = concretize(get(f, in.a), 64);
            auto it = funcByAddr.find(p);
            if (it == funcByAddr.end()) memError(p == 0 ? "call through NULL function pointer" : "call through invalid function pointer");
            fn = it->second;
        }
        if (fn->builtin) {
            doBuiltin(f, in, fn->builtin, fn);
            S->fr.back().pc++;
            break;
        }
        if (fn->f->isDeclaration()) {
            incomplete = true;
            incompleteWhy = "call to undefined function " + fn->name;
            throw PathEnd();
        }
        std::vector<Val> args;
        for (size_t i = 0; i < in.args.size(); i++) {
            Val v = get(f, in.args[i]);
            if (i < in.byval.size() && in.byval[i]) {
                u64 src = concretize(v, 64);
                u64 p = newObj(S, in.byval[i], OF_STACK, in.src, 2);
                copyBytes(p, src, in.byval[i]);
                f.allocas.push_back((u32)(p >> 32));
                v = cv(p);
            }
            args.push_back(v);
        }
        f.pc++;
        int dst = in.dst;
        pushCall(fn, args, in.argw, dst);
        break;
    }
    case I_UNREACH: memError("unreachable code executed");
    default: {
        std::string s;
        raw_string_ostream os(s);
        in.src->print(os);
        incomplete = true;
        incompleteWhy = "unsupported instruction " + s + " at " + locOf(in.src);
        throw PathEnd();
    }
    }
    return true;
}
static bool allDone = false;
static u64 rng = 88172645463325252ULL;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void finishPath(State *s)
{
    nPaths++;
    // reservoir sample for replay validation
    std::vector<std::pair<std::string, u64>> notes;
    for (auto &n : s->notes) notes.push_back({n.name, n.v.e ? eval(n.v.e, s->model) : n.v.c});
    auto entry = std::make_pair(ndValues(s, s->model), notes);
    if (samples.size() < maxSamples) samples.push_back(entry);
    else if (maxSamples) { u64 k = rnd() % nPaths; if (k < maxSamples) samples[k] = entry; }
}
static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
static void dumpVals(FILE *o, const std::vector<u64> &v)
{
    fprintf(o, "[");
    for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)v[i]);
    fprintf(o, "]");
}
static void dumpNotes(FILE *o, const std::vector<std::pair<std::string, u64>> &v)
{
    fprintf(o, "[");
    for (size_t i = 0; i < v.size(); i++) fprintf(o, "%s[\"%s\",%llu]", i ? "," : "", jesc(v[i].first).c_str(), (unsigned long long)v[i].second);
    fprintf(o, "]");
}
static void writeOut(const char *path)
{
    FILE *o = fopen(path, "w");
    if (!o) die("cannot write %s", path);
    fprintf(o, "{\"complete\":%s,\"why\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"infeasible\":%llu,\"errpaths\":%llu,\"steps\":%llu,\"queries\":%llu,\"cache_hits\":%llu,"
               "\"q_sat\":%llu,\"q_z3\":%llu,\"q_cross\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"reached\":%llu,\"checks\":%llu,\"checks_solver\":%llu,\"unexplored\":%zu,\n",
            incomplete ? "false" : "true", jesc(incompleteWhy).c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nInfeasible,
            (unsigned long long)nErrPaths, (unsigned long long)totalSteps, (unsigned long long)nQueries, (unsigned long long)nCacheHit, (unsigned long long)nSatDirect, (unsigned long long)nZ3, (unsigned long long)nCross, tSolver, now() - tStart,
            (unsigned long long)nReached, (unsigned long long)nChecks, (unsigned long long)nCheckSolver, worklist.size());
    fprintf(o, "\"reach\":{");
    bool first = true;
    for (auto &p : reachedNames) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(o, "},\n\"functions\":[");
    first = true;
    for (auto &p : funcs) if (p.second->used) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(p.second->name).c_str()); first = false; }
    fprintf(o, "],\n\"failures\":[");
    first = true;
    for (auto &p : failures) {
        Failure &f = p.second;
        fprintf(o, "%s{\"kind\":\"%s\",\"what\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"count\":%llu,\"values\":", first ? "" : ",\n", f.kind.c_str(), jesc(f.what).c_str(), jesc(f.loc).c_str(), jesc(f.stack).c_str(), (unsigned long long)f.count);
        dumpVals(o, f.vals);
        fprintf(o, ",\"notes\":");
        dumpNotes(o, f.notes);
        fprintf(o, "}");
        first = false;
    }
    fprintf(o, "],\n\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) {
        fprintf(o, "%s{\"values\":", i ? ",\n" : "");
        dumpVals(o, samples[i].first);
        fprintf(o, ",\"notes\":");
        dumpNotes(o, samples[i].second);
        fprintf(o, "}");
    }
    fprintf(o, "]}\n");
    fclose(o);
}
int main(int argc, char **argv)
{
    const char *bc = nullptr, *out = "symx.json", *entry = "vf_main";
    unsigned shard = 0, nshards = 1;
    bool stopFirst = false;
    u64 memLimit = 6ULL << 30;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> const char * { if (++i >= argc) die("missing arg for %s", a.c_str()); return argv[i]; };
        if (a == "-o") out = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--time") timeLimit = atof(nx());
        else if (a == "--path-time") pathTime = atof(nx());
        else if (a == "--max-steps") maxSteps = strtoull(nx(), 0, 10);
        else if (a == "--samples") maxSamples = strtoull(nx(), 0, 10);
        else if (a == "--shard") { sscanf(nx(), "%u/%u", &shard, &nshards); }
        else if (a == "--solver-timeout") solverTimeoutMs = atoi(nx());
        else if (a == "--stop-first") stopFirst = true;
        else if (a == "--mem-mb") memLimit = strtoull(nx(), 0, 10) << 20;
        else if (a == "--seed") { rng ^= strtoull(nx(), 0, 10) * 0x9E3779B97F4A7C15ULL; if (!rng) rng = 1; }
        else bc = argv[i];
    }
    (void)memLimit;
    if (!bc) die("no bitcode");
    tStart = now();
    SMDiagnostic err;
    mod = parseIRFile(bc, err, lctx);
    if (!mod) die("cannot read %s: %s", bc, err.getMessage().str().c_str());
    DL = &mod->getDataLayout();
    Z3_config cfg = Z3_mk_config();
    zctx = Z3_mk_context(cfg);
    Z3_set_error_handler(zctx, [](Z3_context c, Z3_error_code e) { die("z3: %s", Z3_get_error_msg(c, e)); });
    zsolver = getenv("SYMX_SIMPLE") ? Z3_mk_simple_solver(zctx) : getenv("SYMX_DEF") ? Z3_mk_solver(zctx) : Z3_mk_solver_for_logic(zctx, Z3_mk_string_symbol(zctx, "QF_BV"));
    Z3_solver_inc_ref(zctx, zsolver);
    Z3_params ps = Z3_mk_params(zctx);
    Z3_params_inc_ref(zctx, ps);
    Z3_params_set_uint(zctx, ps, Z3_mk_string_symbol(zctx, "timeout"), solverTimeoutMs);
    Z3_solver_set_params(zctx, zsolver, ps);

    newObj(nullptr, 0, 0, nullptr, 0); // id 0: NULL
    for (auto &G : mod->globals()) {
        u64 sz = DL->getTypeAllocSize(G.getValueType());
        globalAddr[&G] = newObj(nullptr, (u32)sz, OF_GLOBAL, nullptr, 0);
    }
    for (auto &F : *mod) getFunc(&F);
    for (auto &G : mod->globals()) {
        Obj *o = initObjs[globalAddr[&G] >> 32].p;
        if (G.hasInitializer()) initConst(o, 0, G.getInitializer());
        else if (!G.hasInitializer()) for (auto &x : o->st) x = 2;
        if (G.isConstant()) o->flags |= OF_RO;
    }
    Function *F = mod->getFunction(entry);
    if (!F || F->isDeclaration()) die("no entry %s", entry);
    State *s0 = new State();
    s0->objs = initObjs;
    S = s0;
    pushCall(getFunc(F), {}, {}, -1);
    worklist.push_back(s0);
    bool sharded = nshards <= 1;
    while (!worklist.empty()) {
        if (!sharded && worklist.size() >= nshards * 16) {
            std::vector<State *> keep;
            for (size_t i = 0; i < worklist.size(); i++) {
                if (i % nshards == shard) keep.push_back(worklist[i]);
                else delete worklist[i];
            }
            worklist.swap(keep);
            sharded = true;
            // everything finished so far belongs to shard 0
            if (shard) { nPaths = 0; samples.clear(); nReached = 0; }
            if (worklist.empty()) break;
        }
        if (!sharded) { S = worklist.front(); worklist.erase(worklist.begin()); } // breadth first until split
        else { S = worklist.back(); worklist.pop_back(); }
        bool keepit = true;
        try {
            u32 forks0 = S->forks;
            double pt0 = now(); u32 tick = 0;
            for (;;) {
                if (!oneStep()) { finishPath(S); keepit = false; break; }
                bool slow = false;
                if ((++tick & 63) == 0) {
                    double t = now();
                    S->spent += t - pt0;
                    pt0 = t;
                    slow = pathTime > 0 && S->spent > pathTime;
                    if (t - tStart > timeLimit) { allDone = true; incomplete = true; incompleteWhy = "time limit"; break; }
                }
                if (S->steps > maxSteps || slow) {
                    fail("hang", "runaway execution (step limit exceeded)", S->model);
                    nErrPaths++;
                    keepit = false;
                    if (++nHang >= 3) { allDone = true; incomplete = true; incompleteWhy = "runaway paths"; }
                    break;
                }
                if (!sharded && S->forks != forks0) { worklist.push_back(S); break; }
            }
            if (keepit && !sharded) { if (!allDone) continue; }
        } catch (PathEnd &) { keepit = false; }
        if (allDone) break;
        delete S;
        S = nullptr;
        if (stopFirst && !failures.empty()) break;
        if (now() - tStart > timeLimit) { incomplete = true; incompleteWhy = "time limit"; break; }
    }
    writeOut(out);
    _Exit(0);
}
