// A small CDCL SAT solver plus bit-blaster for the engine's expressions.
// One fresh instance per query; a query that needs too many conflicts (or
// contains a division) is handed to Z3 instead.
struct Sat {
    typedef int Lit; // 2*var + sign
    int nv = 0;
    std::vector<std::vector<int>> watches; // by literal: clause indices
    std::vector<std::vector<Lit>> cl;
    std::vector<signed char> val; // by var: -1 unassigned, 0 false, 1 true
    std::vector<int> level, reason;
    std::vector<signed char> phase;
    std::vector<double> act;
    std::vector<Lit> trail;
    std::vector<int> lim;
    size_t qh = 0;
    double inc = 1;
    bool ok = true;
    std::vector<int> heap, hpos;
    std::vector<char> seen;
    u64 conflicts = 0;

    bool lt(int a, int b) { return act[a] > act[b]; }
    void up(int i) { int x = heap[i]; while (i) { int p = (i - 1) >> 1; if (!lt(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
    void down(int i) { int x = heap[i], n = (int)heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && lt(heap[c + 1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
    void hins(int v) { if (hpos[v] >= 0) return; hpos[v] = (int)heap.size(); heap.push_back(v); up(hpos[v]); }
    int hpop() { int x = heap[0]; int l = heap.back(); heap.pop_back(); hpos[x] = -1; if (!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return x; }

    int newVar()
    {
        int v = nv++;
        watches.emplace_back(); watches.emplace_back();
        val.push_back(-1); level.push_back(0); reason.push_back(-1); phase.push_back(0); act.push_back(0); seen.push_back(0); hpos.push_back(-1);
        hins(v);
        return v;
    }
    int lv(Lit l) { signed char v = val[l >> 1]; return v < 0 ? -1 : (v ^ (l & 1)); }
    void enq(Lit l, int r) { int v = l >> 1; val[v] = !(l & 1); level[v] = (int)lim.size(); reason[v] = r; trail.push_back(l); }
    void add(std::vector<Lit> c)
    {
        if (!ok) return;
        size_t j = 0;
        for (size_t i = 0; i < c.size(); i++) { int x = lv(c[i]); if (x == 1) return; if (x < 0) c[j++] = c[i]; }
        c.resize(j);
        if (c.empty()) { ok = false; return; }
        if (c.size() == 1) { enq(c[0], -1); return; }
        int id = (int)cl.size();
        watches[c[0] ^ 1].push_back(id); watches[c[1] ^ 1].push_back(id);
        cl.push_back(std::move(c));
    }
    int propagate()
    {
        while (qh < trail.size()) {
            Lit p = trail[qh++];
            auto &w = watches[p];
            size_t i = 0, j = 0;
            for (; i < w.size(); i++) {
                int ci = w[i];
                auto &c = cl[ci];
                Lit np = p ^ 1;
                if (c[0] == np) std::swap(c[0], c[1]);
                if (lv(c[0]) == 1) { w[j++] = ci; continue; }
                bool found = false;
                for (size_t k = 2; k < c.size(); k++)
                    if (lv(c[k]) != 0) { std::swap(c[1], c[k]); watches[c[1] ^ 1].push_back(ci); found = true; break; }
                if (found) continue;
                w[j++] = ci;
                if (lv(c[0]) == 0) {
                    for (i++; i < w.size(); i++) w[j++] = w[i];
                    w.resize(j);
                    qh = trail.size();
                    return ci;
                }
                enq(c[0], ci);
            }
            w.resize(j);
        }
        return -1;
    }
    void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
    void cancel(int l)
    {
        if ((int)lim.size() <= l) return;
        for (int i = (int)trail.size(); i-- > lim[l];) { int v = trail[i] >> 1; phase[v] = val[v]; val[v] = -1; hins(v); }
        trail.resize(lim[l]);
        lim.resize(l);
        qh = trail.size();
    }
    // 1 sat, 0 unsat, -1 gave up
    int solve(u64 maxConf)
    {
        if (!ok) return 0;
        if (propagate() >= 0) return 0;
        u64 restart = 100, since = 0;
        for (;;) {
            int c = propagate();
            if (c >= 0) {
                conflicts++; since++;
                if (lim.empty()) return 0;
                if (conflicts > maxConf) return -1;
                std::vector<Lit> learnt(1, 0);
                int pathC = 0; Lit p = -1; int idx = (int)trail.size() - 1;
                do {
                    auto &cc = cl[c];
                    for (size_t k = (p == -1 ? 0 : 1); k < cc.size(); k++) {
                        Lit q = cc[k]; int v = q >> 1;
                        if (!seen[v] && level[v] > 0) {
                            bump(v); seen[v] = 1;
                            if (level[v] >= (int)lim.size()) pathC++; else learnt.push_back(q);
                        }
                    }
                    while (!seen[trail[idx] >> 1]) idx--;
                    p = trail[idx--];
                    c = reason[p >> 1];
                    if (c >= 0 && cl[c][0] != p) { auto &r = cl[c]; for (size_t k = 1; k < r.size(); k++) if (r[k] == p) { std::swap(r[0], r[k]); break; } }
                    seen[p >> 1] = 0;
                    pathC--;
                } while (pathC > 0);
                learnt[0] = p ^ 1;
                int bt = 0; size_t mi = 1;
                for (size_t k = 1; k < learnt.size(); k++) if (level[learnt[k] >> 1] > bt) { bt = level[learnt[k] >> 1]; mi = k; }
                for (auto l : learnt) seen[l >> 1] = 0;
                cancel(bt);
                if (learnt.size() == 1) enq(learnt[0], -1);
                else {
                    std::swap(learnt[1], learnt[mi]);
                    int id = (int)cl.size();
                    watches[learnt[0] ^ 1].push_back(id); watches[learnt[1] ^ 1].push_back(id);
                    cl.push_back(learnt);
                    enq(learnt[0], id);
                }
                inc *= 1.05;
            } else {
                if (since > restart) { since = 0; restart = restart * 3 / 2; cancel(0); continue; }
                int v = -1;
                while (!heap.empty()) { int x = hpop(); if (val[x] < 0) { v = x; break; } }
                if (v < 0) return 1;
                lim.push_back((int)trail.size());
                enq(2 * v + (phase[v] == 1 ? 0 : 1), -1);
            }
        }
    }
};
// NB: reason clauses are watched through positions 0/1; conflict analysis may swap a reason's
// literals only inside position 0/1 because the implied literal always sits at one of them.

struct Blaster {
    Sat s;
    static constexpr int T = 0, F = 1; // literal of var 0, forced true
    std::unordered_map<u64, int> ands, xors;
    std::unordered_map<E, std::vector<int>> memo;
    std::unordered_map<u32, std::vector<int>> vars;
    bool unsupported = false;
    const std::unordered_set<E> *cut = nullptr;
    std::map<std::pair<E, u64>, std::pair<std::vector<int>, std::vector<int>>> divs;
    Blaster() { s.newVar(); s.add({T}); s.propagate(); }
    int mkAnd(int a, int b)
    {
        if (a > b) std::swap(a, b);
        if (a == F || b == F || a == (b ^ 1)) return F;
        if (a == T) return b;
        if (b == T || a == b) return a;
        u64 k = (u64)a << 32 | (unsigned)b;
        auto it = ands.find(k);
        if (it != ands.end()) return it->second;
        int o = 2 * s.newVar();
        s.add({o ^ 1, a}); s.add({o ^ 1, b}); s.add({o, a ^ 1, b ^ 1});
        return ands[k] = o;
    }
    int mkOr(int a, int b) { return mkAnd(a ^ 1, b ^ 1) ^ 1; }
    int mkXor(int a, int b)
    {
        int neg = 0;
        if (a == T || a == F) return b ^ (a == T);
        if (b == T || b == F) return a ^ (b == T);
        neg = (a & 1) ^ (b & 1); a &= ~1; b &= ~1;
        if (a == b) return F ^ neg;
        if (a > b) std::swap(a, b);
        u64 k = (u64)a << 32 | (unsigned)b;
        auto it = xors.find(k);
        if (it != xors.end()) return it->second ^ neg;
        int o = 2 * s.newVar();
        s.add({o ^ 1, a, b}); s.add({o ^ 1, a ^ 1, b ^ 1}); s.add({o, a ^ 1, b}); s.add({o, a, b ^ 1});
        xors[k] = o;
        return o ^ neg;
    }
    int mkMux(int c, int a, int b)
    {
        if (c == T) return a;
        if (c == F) return b;
        if (a == b) return a;
        if (a == (b ^ 1)) return mkXor(c, b);
        if (a == T) return mkOr(c, b);
        if (a == F) return mkAnd(c ^ 1, b);
        if (b == T) return mkOr(c ^ 1, a);
        if (b == F) return mkAnd(c, a);
        int o = 2 * s.newVar();
        s.add({c ^ 1, a ^ 1, o}); s.add({c ^ 1, a, o ^ 1}); s.add({c, b ^ 1, o}); s.add({c, b, o ^ 1});
        s.add({a ^ 1, b ^ 1, o}); s.add({a, b, o ^ 1});
        return o;
    }
    typedef std::vector<int> V;
    V addV(const V &a, const V &b, int cin)
    {
        V r(a.size());
        int c = cin;
        for (size_t i = 0; i < a.size(); i++) {
            int x = mkXor(a[i], b[i]);
            r[i] = mkXor(x, c);
            if (i + 1 < a.size()) c = mkOr(mkAnd(a[i], b[i]), mkAnd(x, c));
        }
        return r;
    }
    V notV(V a) { for (auto &l : a) l ^= 1; return a; }
    int ultV(const V &a, const V &b, bool orEq)
    {
        int r = orEq ? T : F;
        for (size_t i = 0; i < a.size(); i++) r = mkMux(mkXor(a[i], b[i]), b[i], r);
        return r;
    }
    const V &bl(E e)
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        V r;
        unsigned w = e->w;
        if (cut && cut->count(e)) { // abstracted by a free value
            for (unsigned i = 0; i < w; i++) r.push_back(2 * s.newVar());
            return memo[e] = std::move(r);
        }
        switch (e->k) {
        case K_CONST: for (unsigned i = 0; i < w; i++) r.push_back((e->c >> i) & 1 ? T : F); break;
        case K_VAR: { auto &v = vars[(u32)e->c]; while (v.size() < w) v.push_back(2 * s.newVar()); r.assign(v.begin(), v.begin() + w); break; }
        case K_ADD: r = addV(bl(e->a), V(bl(e->b)), F); break;
        case K_SUB: r = addV(bl(e->a), notV(bl(e->b)), T); break;
        case K_MUL: {
            V a = bl(e->a), b = bl(e->b);
            r.assign(w, F);
            int na = 0, nb = 0;
            for (unsigned i = 0; i < w; i++) { na += a[i] != F; nb += b[i] != F; }
            if (nb > na) std::swap(a, b);
            for (unsigned i = 0; i < w; i++) {
                if (b[i] == F) continue;
                V t(w, F);
                for (unsigned j = i; j < w; j++) t[j] = mkAnd(a[j - i], b[i]);
                r = addV(r, t, F);
            }
            break;
        }
        case K_UDIV: case K_UREM:
            if (isC(e->b) && e->b->c && e->a->w <= 64) { // a = q*c + r, r < c, q <= max/c
                auto key = std::make_pair(e->a, (u64)e->b->c);
                auto it = divs.find(key);
                if (it == divs.end()) {
                    V a = bl(e->a), q, rr, c2, mx, prod;
                    unsigned W = w * 2;
                    for (unsigned i = 0; i < w; i++) { q.push_back(2 * s.newVar()); rr.push_back(2 * s.newVar()); }
                    V qe = q, re = rr, ae = a;
                    qe.resize(W, F); re.resize(W, F); ae.resize(W, F);
                    prod.assign(W, F);
                    for (unsigned i = 0; i < w; i++) {
                        if (!((e->b->c >> i) & 1)) continue;
                        V t(W, F);
                        for (unsigned j = i; j < W; j++) t[j] = qe[j - i];
                        prod = addV(prod, t, F);
                    }
                    prod = addV(prod, re, F);
                    for (unsigned i = 0; i < W; i++) s.add({mkXor(prod[i], ae[i]) ^ 1});
                    for (unsigned i = 0; i < w; i++) c2.push_back((e->b->c >> i) & 1 ? T : F);
                    s.add({ultV(rr, c2, false)});
                    it = divs.emplace(key, std::make_pair(q, rr)).first;
                }
                r = e->k == K_UDIV ? it->second.first : it->second.second;
                break;
            }
            unsupported = true; r.assign(w, F); break;
        case K_SDIV: case K_SREM: unsupported = true; r.assign(w, F); break;
        case K_SHL: case K_LSHR: case K_ASHR: {
            V a = bl(e->a), b = bl(e->b);
            int fill = e->k == K_ASHR ? a[w - 1] : F;
            for (unsigned st = 0; st < w && st < 31; st++) {
                u64 sh = 1ULL << st;
                V n(w);
                for (unsigned i = 0; i < w; i++) {
                    int sv = e->k == K_SHL ? (i >= sh ? a[i - sh] : F) : (i + sh < w ? a[i + sh] : fill);
                    n[i] = mkMux(b[st], sv, a[i]);
                }
                a = n;
                if (sh >= w) { // this and all higher shift bits shift everything out
                    for (unsigned k = st + 1; k < w; k++) for (unsigned i = 0; i < w; i++) a[i] = mkMux(b[k], fill, a[i]);
                    break;
                }
            }
            r = a;
            break;
        }
        case K_AND: { V a = bl(e->a), b = bl(e->b); for (unsigned i = 0; i < w; i++) r.push_back(mkAnd(a[i], b[i])); break; }
        case K_OR: { V a = bl(e->a), b = bl(e->b); for (unsigned i = 0; i < w; i++) r.push_back(mkOr(a[i], b[i])); break; }
        case K_XOR: { V a = bl(e->a), b = bl(e->b); for (unsigned i = 0; i < w; i++) r.push_back(mkXor(a[i], b[i])); break; }
        case K_CONCAT: { V a = bl(e->a); r = bl(e->b); r.insert(r.end(), a.begin(), a.end()); break; }
        case K_EXTRACT: { const V &a = bl(e->a); r.assign(a.begin() + e->lo, a.begin() + e->lo + w); break; }
        case K_ZEXT: r = bl(e->a); r.resize(w, F); break;
        case K_SEXT: { r = bl(e->a); int m = r.back(); r.resize(w, m); break; }
        case K_ITE: { int c = bl(e->a)[0]; V a = bl(e->b), b = bl(e->d); for (unsigned i = 0; i < w; i++) r.push_back(mkMux(c, a[i], b[i])); break; }
        case K_EQ: { V a = bl(e->a), b = bl(e->b); int x = T; for (size_t i = 0; i < a.size(); i++) x = mkAnd(x, mkXor(a[i], b[i]) ^ 1); r.push_back(x); break; }
        case K_ULT: case K_ULE: { V a = bl(e->a), b = bl(e->b); r.push_back(ultV(a, b, e->k == K_ULE)); break; }
        case K_SLT: case K_SLE: { V a = bl(e->a), b = bl(e->b); a.back() ^= 1; b.back() ^= 1; r.push_back(ultV(a, b, e->k == K_SLE)); break; }
        }
        return memo[e] = std::move(r);
    }
};
