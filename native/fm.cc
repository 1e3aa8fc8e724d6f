// Emptiness test for conjunctions of integer linear (in)equalities: Gaussian
// elimination, then Fourier-Motzkin elimination with integer tightening.  The
// numeric domain of the abstract interpreter (lib/lin.py has the reference
// implementation in Python).  Result: 0 = empty (proved), 1 = not shown empty.
// An exact rational simplex with a shallow branch-and-bound answers most
// queries first; Fourier-Motzkin is the fallback.
// A small pool of integer models answers most "not empty" queries at once.
#include <cstdint>
#include <cstring>
#include <vector>
#include <algorithm>
#include <unordered_map>
#include <map>
#include <string>
#include <functional>

typedef __int128 I;
static const I BIG = ((I)1) << 100;

struct Row {
    std::vector<std::pair<int, I>> t;   // sorted by variable
    I c = 0;
    std::vector<uint64_t> h;            // ancestors (Chernikov)
};

static I iabs(I x) { return x < 0 ? -x : x; }
static I igcd(I a, I b) { a = iabs(a); b = iabs(b); while (b) { I r = a % b; a = b; b = r; } return a; }
static I floordiv(I a, I b) { I q = a / b, r = a % b; return (r && ((r < 0) != (b < 0))) ? q - 1 : q; }
static I ceildiv(I a, I b) { return -floordiv(-a, b); }

static bool overflow_ = false;

// 0: keep, 1: trivially true, 2: contradiction
static int norm(Row& r, bool eq) {
    if (r.t.empty()) {
        if (eq) return r.c == 0 ? 1 : 2;
        return r.c <= 0 ? 1 : 2;
    }
    I g = 0;
    for (auto& p : r.t) { g = igcd(g, p.second); if (g == 1) break; }
    if (g > 1) {
        if (eq) {
            if (r.c % g) return 2;
            for (auto& p : r.t) p.second /= g;
            r.c /= g;
        } else {
            for (auto& p : r.t) p.second /= g;
            r.c = -floordiv(-r.c, g);
        }
    }
    for (auto& p : r.t) if (iabs(p.second) > BIG) overflow_ = true;
    if (iabs(r.c) > BIG) overflow_ = true;
    return 0;
}

static I coef(const Row& r, int v) {
    auto it = std::lower_bound(r.t.begin(), r.t.end(), v, [](const std::pair<int, I>& p, int x) { return p.first < x; });
    return (it != r.t.end() && it->first == v) ? it->second : (I)0;
}

// a*ka + b*kb
static void comb(const Row& a, I ka, const Row& b, I kb, Row& o) {
    o.t.clear();
    o.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) { o.t.push_back({a.t[i].first, a.t[i].second * ka}); i++; }
        else if (i >= a.t.size() || b.t[j].first < a.t[i].first) { o.t.push_back({b.t[j].first, b.t[j].second * kb}); j++; }
        else { I v = a.t[i].second * ka + b.t[j].second * kb; if (v) o.t.push_back({a.t[i].first, v}); i++; j++; }
    }
    o.c = a.c * ka + b.c * kb;
}

struct Model { std::unordered_map<int, I> v; };
static std::vector<Model> pool;
static size_t pool_next = 0;
static const size_t POOL = 96;

struct Step { int kind; int var; std::vector<Row> rows; };   // kind 0: equality, 1: bounds

static bool satisfies(const std::vector<Row>& rows, const std::vector<char>& eq, const Model& m, size_t& hint) {
    size_t n = rows.size();
    auto bad = [&](size_t i) {
        I s = rows[i].c;
        for (auto& p : rows[i].t) { auto it = m.v.find(p.first); if (it != m.v.end()) s += p.second * it->second; }
        return eq[i] ? s != 0 : s > 0;
    };
    if (n && bad(n - 1)) return false;
    if (hint < n && bad(hint)) return false;
    for (size_t i = 0; i < n; i++) if (bad(i)) { hint = i; return false; }
    return true;
}

static bool rebuild(std::vector<Step>& steps, Model& m) {
    for (size_t k = steps.size(); k-- > 0;) {
        Step& s = steps[k];
        if (s.kind == 0) {
            Row& r = s.rows[0];
            I sum = r.c, kv = 0;
            for (auto& p : r.t) { if (p.first == s.var) kv = p.second; else { auto it = m.v.find(p.first); if (it != m.v.end()) sum += p.second * it->second; } }
            if (sum % kv) return false;
            m.v[s.var] = -sum / kv;
        } else {
            bool hl = false, hh = false; I lo = 0, hi = 0;
            for (auto& r : s.rows) {
                I sum = r.c, kv = 0;
                for (auto& p : r.t) { if (p.first == s.var) kv = p.second; else { auto it = m.v.find(p.first); if (it != m.v.end()) sum += p.second * it->second; } }
                // kv*x + sum <= 0
                if (kv > 0) { I b = floordiv(-sum, kv); if (!hh || b < hi) hi = b; hh = true; }
                else { I b = ceildiv(-sum, kv); if (!hl || b > lo) lo = b; hl = true; }
            }
            if (hl && hh && lo > hi) return false;
            I x = 0;
            if (hl && x < lo) x = lo;
            if (hh && x > hi) x = hi;
            m.v[s.var] = x;
        }
    }
    return true;
}

static int solve(std::vector<Row> rows, std::vector<char> eqf, size_t limit, std::vector<Step>& steps) {
    std::vector<Row> eqs, les;
    for (size_t i = 0; i < rows.size(); i++) {
        int r = norm(rows[i], eqf[i]);
        if (r == 2) return 0;
        if (r == 1) continue;
        (eqf[i] ? eqs : les).push_back(std::move(rows[i]));
    }
    Row tmp;
    while (!eqs.empty()) {
        size_t bi = 0; int bv = -1; bool bb = true; size_t bl = 0;
        for (size_t i = 0; i < eqs.size(); i++) {
            for (auto& p : eqs[i].t) {
                bool b = iabs(p.second) != 1;
                if (bv < 0 || b < bb || (b == bb && eqs[i].t.size() < bl)) { bi = i; bv = p.first; bb = b; bl = eqs[i].t.size(); }
            }
            if (!bb && bl == 1) break;
        }
        Row e = eqs[bi];
        eqs.erase(eqs.begin() + bi);
        I k = coef(e, bv);
        for (int pass = 0; pass < 2; pass++) {
            std::vector<Row>& lst = pass ? les : eqs;
            std::vector<Row> out;
            out.reserve(lst.size());
            for (auto& r : lst) {
                I k2 = coef(r, bv);
                if (!k2) { out.push_back(std::move(r)); continue; }
                comb(r, iabs(k), e, k > 0 ? -k2 : k2, tmp);
                int q = norm(tmp, pass == 0);
                if (q == 2) return 0;
                if (q == 0) out.push_back(tmp);
            }
            lst.swap(out);
        }
        steps.push_back({0, bv, {e}});
        if (overflow_) return 1;
    }
    // dedupe
    auto dedupe = [](std::vector<Row>& v) {
        std::map<std::vector<std::pair<int, I>>, size_t> seen;
        std::vector<Row> out;
        for (auto& r : v) {
            auto it = seen.find(r.t);
            if (it == seen.end()) { seen[r.t] = out.size(); out.push_back(std::move(r)); }
            else if (out[it->second].c < r.c) out[it->second] = std::move(r);
        }
        v.swap(out);
    };
    dedupe(les);
    size_t words = (les.size() + 63) / 64;
    for (size_t i = 0; i < les.size(); i++) { les[i].h.assign(words, 0); les[i].h[i / 64] |= 1ull << (i % 64); }
    int elim = 0;
    while (!les.empty()) {
        std::map<int, std::pair<int, int>> cnt;
        for (auto& r : les) for (auto& p : r.t) { auto& x = cnt[p.first]; if (p.second > 0) x.first++; else x.second++; }
        int bv = -1; long bc = 0;
        bool one = false;
        for (auto& kv : cnt) {
            long a = kv.second.first, b = kv.second.second;
            if (a == 0 || b == 0) { bv = kv.first; one = true; break; }
            long c = a * b - a - b;
            if (bv < 0 || c < bc) { bv = kv.first; bc = c; }
        }
        std::vector<Row> pos, neg, rest;
        for (auto& r : les) { I k = coef(r, bv); if (k > 0) pos.push_back(std::move(r)); else if (k < 0) neg.push_back(std::move(r)); else rest.push_back(std::move(r)); }
        Step s{1, bv, {}};
        for (auto& r : pos) s.rows.push_back(r);
        for (auto& r : neg) s.rows.push_back(r);
        steps.push_back(std::move(s));
        if (one) { les.swap(rest); continue; }
        elim++;
        std::vector<Row> nw;
        nw.swap(rest);
        bool prune = pos.size() * neg.size() > 400;
        for (auto& p : pos) for (auto& n : neg) {
            std::vector<uint64_t> h(words);
            int hc = 0;
            for (size_t w = 0; w < words; w++) { h[w] = p.h[w] | n.h[w]; hc += __builtin_popcountll(h[w]); }
            if (prune && hc > elim + 1) continue;
            comb(p, -coef(n, bv), n, coef(p, bv), tmp);
            int q = norm(tmp, false);
            if (q == 2) return 0;
            if (q == 1) continue;
            nw.push_back(tmp);
            nw.back().h = h;
            if (nw.size() > 4 * limit) { steps.clear(); return 1; }
        }
        if (overflow_) { steps.clear(); return 1; }
        dedupe(nw);
        if (nw.size() > limit) { steps.clear(); return 1; }
        les.swap(nw);
    }
    return 1;
}


// ------------------------------------------------------------------ simplex
struct Ovf {};
struct Q {
    int64_t n = 0, d = 1;
};
static inline Q mkq(I n, I d) {
    if (n == 0) return Q{0, 1};
    if (d != 1) {
        if (d < 0) { n = -n; d = -d; }
        I a = iabs(n), b = d;
        while (b) { I r = a % b; a = b; b = r; }
        if (a != 1) { n /= a; d /= a; }
    }
    static const I LIM = ((I)1) << 62;
    if (n > LIM || n < -LIM || d > LIM) throw Ovf();
    return Q{(int64_t)n, (int64_t)d};
}
static inline Q qadd(const Q& a, const Q& b) {
    if (a.d == 1 && b.d == 1) return mkq((I)a.n + b.n, 1);
    return mkq((I)a.n * b.d + (I)b.n * a.d, (I)a.d * b.d);
}
static inline Q qmul(const Q& a, const Q& b) { return mkq((I)a.n * b.n, (I)a.d * b.d); }
static inline Q qneg(const Q& a) { return Q{-a.n, a.d}; }
static inline int qcmp(const Q& a, const Q& b) {
    I x = (I)a.n * b.d, y = (I)b.n * a.d;
    return x < y ? -1 : x > y ? 1 : 0;
}

struct Simplex {
    std::vector<std::vector<Q>> T;      // row -> coefficient per nonbasic column
    std::vector<int> basic, nonb;       // row -> variable, column -> variable
    std::vector<int> row, col;          // variable -> row / column or -1
    std::vector<Q> val, lo, hi;
    std::vector<char> hl, hh;
    std::unordered_map<int, int> id;    // external structural variable -> variable
    std::vector<int> ext;               // variable -> external or -1
    bool dead = false;

    int fresh(int e) {
        int v = val.size();
        val.push_back(Q()); lo.push_back(Q()); hi.push_back(Q()); hl.push_back(0); hh.push_back(0);
        row.push_back(-1); col.push_back(-1); ext.push_back(e);
        return v;
    }
    int var(int e) {
        auto it = id.find(e);
        if (it != id.end()) return it->second;
        int v = fresh(e);
        id[e] = v;
        col[v] = nonb.size();
        nonb.push_back(v);
        for (auto& r : T) r.push_back(Q());
        return v;
    }
    void shift(int v, const Q& nv) {    // nonbasic v gets a new value
        Q d = qadd(nv, qneg(val[v]));
        if (!d.n) return;
        int c = col[v];
        for (size_t i = 0; i < T.size(); i++) if (T[i][c].n) val[basic[i]] = qadd(val[basic[i]], qmul(T[i][c], d));
        val[v] = nv;
    }
    void upper(int v, Q b) {
        if (hh[v] && qcmp(hi[v], b) <= 0) return;
        hi[v] = b; hh[v] = 1;
        if (hl[v] && qcmp(b, lo[v]) < 0) { dead = true; return; }
        if (col[v] >= 0 && qcmp(val[v], b) > 0) shift(v, b);
    }
    void lower(int v, Q b) {
        if (hl[v] && qcmp(lo[v], b) >= 0) return;
        lo[v] = b; hl[v] = 1;
        if (hh[v] && qcmp(hi[v], b) < 0) { dead = true; return; }
        if (col[v] >= 0 && qcmp(val[v], b) < 0) shift(v, b);
    }
    void add(Row r, bool eq) {
        int k = norm(r, eq);
        if (k == 2) { dead = true; return; }
        if (k == 1) return;
        if (overflow_) throw Ovf();
        if (r.t.size() == 1) {
            int v = var(r.t[0].first);
            I a = r.t[0].second;
            if (eq) {
                if (r.c % a) { dead = true; return; }
                Q b = mkq(-r.c / a, 1);
                upper(v, b); if (!dead) lower(v, b);
            } else if (a > 0) upper(v, mkq(floordiv(-r.c, a), 1));
            else lower(v, mkq(ceildiv(-r.c, a), 1));
            return;
        }
        for (auto& p : r.t) var(p.first);
        std::vector<Q> t(nonb.size());
        Q value;
        for (auto& p : r.t) {
            int v = id[p.first];
            Q k2 = mkq(p.second, 1);
            value = qadd(value, qmul(k2, val[v]));
            if (col[v] >= 0) t[col[v]] = qadd(t[col[v]], k2);
            else { auto& b = T[row[v]]; for (size_t j = 0; j < t.size(); j++) if (b[j].n) t[j] = qadd(t[j], qmul(k2, b[j])); }
        }
        int s = fresh(-1);
        val[s] = value;
        row[s] = T.size();
        basic.push_back(s);
        T.push_back(std::move(t));
        Q b = mkq(-r.c, 1);
        upper(s, b);
        if (eq && !dead) lower(s, b);
    }
    void pivot(int r, int c, const Q& target) {
        int xb = basic[r], xn = nonb[c];
        Q a = T[r][c];
        Q inv = mkq(a.d, a.n);
        Q d = qmul(qadd(target, qneg(val[xb])), inv);
        val[xb] = target;
        val[xn] = qadd(val[xn], d);
        for (size_t i = 0; i < T.size(); i++) if ((int)i != r && T[i][c].n) val[basic[i]] = qadd(val[basic[i]], qmul(T[i][c], d));
        // row r: xn = inv * xb - sum(inv * a_rj x_j)
        auto& R = T[r];
        Q ni = qneg(inv);
        for (size_t j = 0; j < R.size(); j++) if ((int)j != c && R[j].n) R[j] = qmul(R[j], ni);
        R[c] = inv;
        for (size_t i = 0; i < T.size(); i++) {
            if ((int)i == r) continue;
            auto& X = T[i];
            Q k = X[c];
            if (!k.n) continue;
            X[c] = Q();
            for (size_t j = 0; j < R.size(); j++) if (R[j].n) X[j] = qadd(X[j], qmul(k, R[j]));
        }
        basic[r] = xn; nonb[c] = xb;
        row[xn] = r; col[xn] = -1; col[xb] = c; row[xb] = -1;
    }
    // true: feasible over the rationals
    bool solve() {
        if (dead) return false;
        for (int it = 0; it < 4000; it++) {
            int br = -1; bool low = false;
            for (size_t i = 0; i < basic.size(); i++) {
                int v = basic[i];
                bool bl = hl[v] && qcmp(val[v], lo[v]) < 0, bh = hh[v] && qcmp(val[v], hi[v]) > 0;
                if ((bl || bh) && (br < 0 || v < basic[br])) { br = i; low = bl; }
            }
            if (br < 0) return true;
            int bc = -1;
            for (size_t j = 0; j < nonb.size(); j++) {
                const Q& a = T[br][j];
                if (!a.n) continue;
                int v = nonb[j];
                bool inc = (a.n > 0) == low;
                bool can = inc ? !(hh[v] && qcmp(val[v], hi[v]) >= 0) : !(hl[v] && qcmp(val[v], lo[v]) <= 0);
                if (can && (bc < 0 || v < nonb[bc])) bc = j;
            }
            if (bc < 0) { dead = true; return false; }
            pivot(br, bc, low ? lo[basic[br]] : hi[basic[br]]);
        }
        throw Ovf();
    }
    int frac() const {
        for (size_t v = 0; v < val.size(); v++) if (ext[v] >= 0 && val[v].d != 1) return v;
        return -1;
    }
    void model(Model& m) const { for (size_t v = 0; v < val.size(); v++) if (ext[v] >= 0) m.v[ext[v]] = val[v].n; }
};

// 0 empty, 1 unknown, 2 integer model in m
static int branch(Simplex& s, int depth, Model* m) {
    if (!s.solve()) return 0;
    int v = s.frac();
    if (v < 0) { if (m) s.model(*m); return 2; }
    if (!depth) return 1;
    I f = floordiv(s.val[v].n, s.val[v].d);
    int res = 0;
    {
        Simplex a = s;
        a.upper(v, mkq(f, 1));
        if (a.row[v] >= 0 || !a.dead) { int r = branch(a, depth - 1, m); if (r == 2) return 2; if (r) res = 1; }
    }
    {
        Simplex a = s;
        a.lower(v, mkq(f + 1, 1));
        int r = branch(a, depth - 1, m);
        if (r == 2) return 2;
        if (r) res = 1;
    }
    return res;
}

static void remember(const Model& m) {
    if (pool.size() < POOL) { pool.push_back(m); pool_next = pool.size() % POOL; }
    else { pool[pool_next] = m; pool_next = (pool_next + 1) % POOL; }
}

struct Reduction {
    std::vector<std::pair<int, Row>> elim;      // variable with coefficient +-1, equation
    void apply(Row& q) const {
        Row tmp;
        for (auto& e : elim) {
            I k2 = coef(q, e.first);
            if (!k2) continue;
            I k = coef(e.second, e.first);      // +-1
            comb(q, 1, e.second, k > 0 ? -k2 : k2, tmp);
            std::swap(q, tmp);
        }
    }
    void extend(Model& m) const {
        for (size_t z = elim.size(); z-- > 0;) {
            I sum = elim[z].second.c, kv = 0;
            for (auto& t : elim[z].second.t) { if (t.first == elim[z].first) kv = t.second; else { auto it = m.v.find(t.first); if (it != m.v.end()) sum += t.second * it->second; } }
            m.v[elim[z].first] = kv > 0 ? -sum : sum;
        }
    }
    // false: empty.  rows and eq are replaced by the reduced, deduplicated system
    bool build(std::vector<Row>& rows, std::vector<char>& eq) {
        std::vector<Row> eqs, les, out;
        Row tmp;
        for (size_t i = 0; i < rows.size(); i++) {
            int r = norm(rows[i], eq[i]);
            if (r == 2) return false;
            if (r == 0) (eq[i] ? eqs : les).push_back(std::move(rows[i]));
        }
        std::vector<Row> hard;
        for (size_t i = 0; i < eqs.size(); i++) {
            Row e = eqs[i];
            apply(e);
            int r = norm(e, true);
            if (r == 2) return false;
            if (r == 1) continue;
            int bv = -1;
            for (auto& q : e.t) if (iabs(q.second) == 1) { bv = q.first; break; }
            if (bv < 0) { hard.push_back(e); continue; }
            elim.push_back({bv, e});
        }
        rows.clear(); eq.clear();
        for (auto& e : hard) {
            apply(e);
            int r = norm(e, true);
            if (r == 2) return false;
            if (r == 0) { rows.push_back(e); eq.push_back(1); }
        }
        std::map<std::vector<std::pair<int, I>>, size_t> seen;
        for (auto& r : les) {
            apply(r);
            int k = norm(r, false);
            if (k == 2) return false;
            if (k == 1) continue;
            auto it = seen.find(r.t);
            if (it == seen.end()) { seen[r.t] = rows.size(); rows.push_back(r); eq.push_back(0); }
            else if (rows[it->second].c < r.c) rows[it->second].c = r.c;
        }
        return true;
    }
};

static std::vector<size_t> hints;

static void parse(const char*& p, long n, std::vector<Row>& rows, std::vector<char>& eq) {
    auto rd = [&](I& out) { uint64_t lo; int64_t hi; memcpy(&lo, p, 8); memcpy(&hi, p + 8, 8); p += 16; out = ((I)hi << 64) | (I)lo; };
    for (long i = 0; i < n; i++) {
        Row r;
        int32_t nt, e;
        memcpy(&nt, p, 4); memcpy(&e, p + 4, 4); p += 8;
        rd(r.c);
        r.t.resize(nt);
        for (int j = 0; j < nt; j++) { int64_t v; memcpy(&v, p, 8); p += 8; r.t[j].first = (int)v; rd(r.t[j].second); }
        std::sort(r.t.begin(), r.t.end());
        rows.push_back(std::move(r));
        eq.push_back((char)e);
    }
}

static int check(const std::vector<Row>& rows, const std::vector<char>& eq, long limit, Model* found) {
    hints.resize(POOL, 0);
    for (size_t k = 0; k < pool.size(); k++) {
        size_t i = (pool_next + pool.size() - 1 - k) % pool.size();
        if (satisfies(rows, eq, pool[i], hints[i])) { if (found) *found = pool[i]; return 2; }
    }
    overflow_ = false;
    try {
        Simplex s;
        Reduction red;
        std::vector<Row> rr = rows;
        std::vector<char> re = eq;
        if (!red.build(rr, re)) return 0;
        for (size_t i = 0; i < rr.size() && !s.dead; i++) s.add(rr[i], re[i]);
        Model m;
        int r = branch(s, 3, &m);
        if (r == 0) return 0;
        if (r == 2) {
            red.extend(m);
            size_t h = 0;
            if (satisfies(rows, eq, m, h)) { if (found) *found = m; remember(m); return 2; }
        }
    } catch (Ovf&) {}
    overflow_ = false;
    std::vector<Step> steps;
    int r = solve(rows, eq, limit, steps);
    if (r == 1 && !steps.empty() && !overflow_) {
        Model m;
        if (rebuild(steps, m)) {
            size_t h = 0;
            if (satisfies(rows, eq, m, h)) {
                if (found) *found = m;
                if (pool.size() < POOL) { pool.push_back(std::move(m)); pool_next = pool.size() % POOL; }
                else { pool[pool_next] = std::move(m); pool_next = (pool_next + 1) % POOL; }
                return 2;
            }
        }
    }
    return r;
}

extern "C" {
// buffer: per row: int32 nterms, int32 eq, 16-byte constant, then nterms * (int64 var, 16-byte coefficient)
int fm_check(const char* buf, long n, long limit) {
    std::vector<Row> rows;
    std::vector<char> eq;
    const char* p = buf;
    parse(p, n, rows, eq);
    return check(rows, eq, limit, nullptr) ? 1 : 0;
}

// for every query row alone added to the base: out[i] = 0 if empty
void fm_batch(const char* buf, long n, const char* qbuf, long nq, long limit, char* out) {
    std::vector<Row> rows, qs;
    std::vector<char> eq, qe;
    const char* p = buf;
    parse(p, n, rows, eq);
    p = qbuf;
    parse(p, nq, qs, qe);
    hints.resize(POOL, 0);
    std::vector<Model> local;
    size_t h0 = 0;
    for (auto& m : pool) if (satisfies(rows, eq, m, h0)) local.push_back(m);
    overflow_ = false;
    Simplex base;
    bool usable = true;
    try {
        for (size_t i = 0; i < rows.size() && !base.dead; i++) base.add(rows[i], eq[i]);
        Model m;
        int r = branch(base, 3, &m);
        if (r == 0) { memset(out, 0, nq); return; }
        if (r == 2 && satisfies(rows, eq, m, h0)) local.push_back(m);
    } catch (Ovf&) { usable = false; }
    for (long i = 0; i < nq; i++) {
        bool done = false;
        for (size_t z = local.size(); z-- > 0;) {
            Model& m = local[z];
            I s = qs[i].c;
            for (auto& t : qs[i].t) { auto it = m.v.find(t.first); if (it != m.v.end()) s += t.second * it->second; }
            if (qe[i] ? s == 0 : s <= 0) { done = true; break; }
        }
        if (done) { out[i] = 1; continue; }
        int r = 1;
        Model m;
        overflow_ = false;
        bool full = !usable;
        if (usable) {
            try {
                Simplex s = base;
                s.add(qs[i], qe[i]);
                r = branch(s, 3, &m);
                if (r == 1) full = true;
            } catch (Ovf&) { full = true; }
        }
        if (full) {
            rows.push_back(qs[i]); eq.push_back(qe[i]);
            r = check(rows, eq, limit, &m);
            rows.pop_back(); eq.pop_back();
        }
        out[i] = r ? 1 : 0;
        if (r == 2) { size_t h = 0; if (satisfies(rows, eq, m, h)) { local.push_back(m); if (!full) remember(m); } }
    }
}
void fm_reset() { pool.clear(); pool_next = 0; }
}

// ------------------------------------------------------------- array axioms
// A group lists (index, value) pairs of one array.  kind 0: equal indices have
// equal values; 1: values grow with the index; 2: as 1, and by at most the
// difference of the indices.  Instances are added on demand: only where the
// current model violates one, and only if the order of the indices is implied.
struct Pt { Row idx, val; };
struct Group { int kind; std::vector<Pt> pts; };

static I eval(const Row& r, const Model& m) {
    I s = r.c;
    for (auto& p : r.t) { auto it = m.v.find(p.first); if (it != m.v.end()) s += p.second * it->second; }
    return s;
}
static Row sub(const Row& a, const Row& b, I c) { Row o; comb(a, 1, b, -1, o); o.c += c; return o; }

struct Theory {
    const Reduction* red = nullptr;
    std::vector<Row> rows;
    std::vector<char> eq;
    Simplex s;
    long limit;
    bool usable = true;
    void add(const Row& r, bool e) {
        rows.push_back(r); eq.push_back(e);
        if (usable && !s.dead) { try { overflow_ = false; s.add(r, e); } catch (Ovf&) { usable = false; } }
    }
    // 0 empty, 1 unknown, 2 model
    int find(Model& m) {
        if (usable) {
            try {
                bool ok = s.solve();          // keeps the pivots
                if (!ok) return 0;
                int r = branch(s, 3, &m);
                if (r == 0) return 0;
                if (r == 2) { size_t h = 0; if (satisfies(rows, eq, m, h)) return 2; }
            } catch (Ovf&) { usable = false; }
        }
        return check(rows, eq, limit, &m);
    }
};

static std::vector<Model> genuine;       // recent models that satisfy the axioms too
static size_t genuine_next = 0, genuine_count = 0;

// 0 empty, 1 not empty, 2 not decided.  Case distinctions over the order of two indices
// are made where the current model violates an axiom, up to a budget.
static int theory_check(Theory& T, const std::vector<Group>& gs, int& budget) {
    for (;;) {
        Model m;
        int r = T.find(m);
        if (r == 0) return 0;
        if (r == 1) return 2;
        if (--budget < 0) return 2;
        // violated instances between neighbours in the order of the model
        struct V { size_t g, i, j; };
        std::vector<V> viol;
        for (size_t g = 0; g < gs.size(); g++) {
            auto& P = gs[g].pts;
            size_t n = P.size();
            std::vector<std::pair<std::pair<I, I>, size_t>> v(n);
            for (size_t i = 0; i < n; i++) v[i] = {{eval(P[i].idx, m), eval(P[i].val, m)}, i};
            std::sort(v.begin(), v.end());
            int kind = gs[g].kind;
            for (size_t i = 1; i < n; i++) {
                I di = v[i].first.first - v[i - 1].first.first, dv = v[i].first.second - v[i - 1].first.second;
                bool bad = di == 0 ? dv != 0 : kind >= 1 && (dv < 0 || (kind == 2 && dv > di));
                if (!bad) continue;
                // with equal indices the smaller value comes first: order them the other way
                if (di == 0 && kind >= 1) viol.push_back({g, v[i].second, v[i - 1].second});
                else viol.push_back({g, v[i - 1].second, v[i].second});
            }
        }
        if (viol.empty()) {
            if (T.red) T.red->extend(m);
            genuine_count++;
            if (genuine.size() < 64) genuine.push_back(m); else { genuine[genuine_next] = m; genuine_next = (genuine_next + 1) % 64; }
            return 1;
        }
        auto side = [&](const V& v, bool less) {      // idx_i > idx_j, or (less) idx_i < idx_j
            const Pt &x = gs[v.g].pts[v.i], &y = gs[v.g].pts[v.j];
            Row q = less ? sub(x.idx, y.idx, 1) : sub(y.idx, x.idx, 1);
            return q;
        };
        auto axiom = [&](const V& v) {
            const Pt &x = gs[v.g].pts[v.i], &y = gs[v.g].pts[v.j];
            Row e = sub(x.idx, y.idx, 0), d = sub(x.val, y.val, 0);
            if (gs[v.g].kind == 0) { T.add(d, true); return; }
            T.add(d, false);
            if (gs[v.g].kind == 2) { Row o; comb(e, 1, d, -1, o); T.add(o, false); }
        };
        bool progress = false;
        auto instance = [&](const V& v) {
            for (int k = 0; k < (gs[v.g].kind == 0 ? 2 : 1); k++) {
                Theory B = T;
                B.add(side(v, k), false);
                Model x;
                if (B.find(x) != 0) return;
            }
            progress = true;
            axiom(v);
        };
        for (auto& v : viol) instance(v);
        if (progress) continue;
        // a case distinction
        const V& v = viol[0];
        int kind = gs[v.g].kind;
        for (int k = 0; k < (kind == 0 ? 2 : 1); k++) {
            Theory B = T;
            B.add(side(v, k), false);
            int c = theory_check(B, gs, budget);
            if (c) return c;
        }
        const Pt &x = gs[v.g].pts[v.i], &y = gs[v.g].pts[v.j];
        T.add(sub(x.idx, y.idx, 0), kind == 0);
        axiom(v);
    }
}

static const int SPLITS = 4;

// The axioms for all pairs of indices whose order the rows imply.
static void all_orders(Theory& T, const std::vector<Group>& gs, std::vector<Model>& ms) {
    Theory base = T;
    for (auto& g : gs) {
        size_t n = g.pts.size();
        std::vector<std::vector<char>> le(n, std::vector<char>(n, 0)), no(n, std::vector<char>(n, 0));
        auto refute = [&](const Model& m) {
            std::vector<I> v(n);
            for (size_t i = 0; i < n; i++) v[i] = eval(g.pts[i].idx, m);
            for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (v[i] > v[j]) no[i][j] = 1;
        };
        for (auto& m : ms) refute(m);
        for (size_t i = 0; i < n; i++) le[i][i] = 1;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
            if (i == j || le[i][j] || no[i][j]) continue;
            Row q = sub(g.pts[j].idx, g.pts[i].idx, 1);      // idx_j + 1 <= idx_i ?
            int r;
            Model m;
            if (q.t.empty()) r = q.c <= 0 ? 1 : 0;
            else { Theory B = base; B.add(q, false); r = B.find(m); }
            if (r == 2) { ms.push_back(m); refute(m); continue; }
            if (r == 1) { no[i][j] = 1; continue; }
            for (size_t a = 0; a < n; a++) if (le[a][i]) for (size_t b = 0; b < n; b++) if (le[j][b]) le[a][b] = 1;
        }
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
            if (i == j || !le[i][j]) continue;
            const Pt &x = g.pts[i], &y = g.pts[j];
            Row d = sub(x.val, y.val, 0);
            if (le[j][i]) { if (i < j) T.add(d, true); continue; }
            if (g.kind == 0) continue;
            bool between = false;
            for (size_t h = 0; h < n && !between; h++) between = h != i && h != j && le[i][h] && le[h][j] && !le[h][i] && !le[j][h];
            if (between) continue;
            T.add(d, false);
            if (g.kind == 2) { Row o; comb(sub(x.idx, y.idx, 0), 1, d, -1, o); T.add(o, false); }
        }
    }
}

static bool axioms_hold(const std::vector<Group>& gs, const Model& m) {
    for (auto& g : gs) {
        size_t n = g.pts.size();
        std::vector<std::pair<I, I>> v(n);
        for (size_t i = 0; i < n; i++) v[i] = {eval(g.pts[i].idx, m), eval(g.pts[i].val, m)};
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < n; i++) {
            if (v[i].first == v[i - 1].first && v[i].second != v[i - 1].second) return false;
            if (g.kind >= 1 && v[i].second < v[i - 1].second) return false;
            if (g.kind == 2 && v[i].second - v[i - 1].second > v[i].first - v[i - 1].first) return false;
        }
    }
    return true;
}

extern "C" {
// groups: per group int64 kind, int64 npts, then 2*npts rows; queries (may be none): out[i]: base + query is 0 empty, 1 not empty, 2 not decided
void fm_arrays(const char* buf, long n, const char* gbuf, long ng, const char* qbuf, long nq, long limit, char* out) {
    Theory T;
    T.limit = limit;
    std::vector<Row> rows, qs;
    std::vector<char> eq, qe;
    const char* p = buf;
    parse(p, n, rows, eq);
    p = qbuf;
    parse(p, nq, qs, qe);
    std::vector<Group> gs(ng);
    p = gbuf;
    for (long g = 0; g < ng; g++) {
        int64_t k, np;
        memcpy(&k, p, 8); memcpy(&np, p + 8, 8); p += 16;
        gs[g].kind = k;
        std::vector<Row> rr;
        std::vector<char> ee;
        parse(p, 2 * np, rr, ee);
        for (long i = 0; i < np; i++) gs[g].pts.push_back({rr[2 * i], rr[2 * i + 1]});
    }
    std::vector<const Model*> local;
    size_t h = 0;
    for (auto& m : genuine) if (satisfies(rows, eq, m, h) && axioms_hold(gs, m)) { local.push_back(&m); if (!nq) { out[0] = 1; return; } }
    Reduction red;
    overflow_ = false;
    if (!red.build(rows, eq)) { memset(out, 0, nq ? nq : 1); return; }
    if (overflow_) { memset(out, 2, nq ? nq : 1); return; }
    T.red = &red;
    for (auto& g : gs) for (auto& pt : g.pts) { red.apply(pt.idx); red.apply(pt.val); }
    for (size_t i = 0; i < rows.size(); i++) T.add(rows[i], eq[i]);
    std::vector<Model> keep, ms;
    for (auto m : local) keep.push_back(*m);
    auto fresh = [&](const std::function<int()>& f) {
        size_t before = genuine_count;
        int r = f();
        if (r == 1 && genuine_count != before) keep.push_back(genuine[genuine.size() < 64 ? genuine.size() - 1 : (genuine_next + 63) % 64]);
        return r;
    };
    Theory E = T;
    bool eager = false;
    auto decide = [&](const Row* q, bool qe_) {
        Theory X = T;
        if (q) X.add(*q, qe_);
        int budget = SPLITS;
        int r = fresh([&] { return theory_check(X, gs, budget); });
        if (r != 2) return r;
        Model m;
        if (!q) {
            E = X;                 // with the instances found so far
            all_orders(E, gs, ms);
            eager = true;
            return E.find(m) == 0 ? 0 : 2;
        }
        if (!eager) { E = T; all_orders(E, gs, ms); eager = true; }
        Theory Y = E;
        Y.add(*q, qe_);
        return Y.find(m) == 0 ? 0 : 2;
    };
    int r = 1;
    if (keep.empty()) r = decide(nullptr, false);
    if (!nq) { out[0] = r; return; }
    if (r == 0) { memset(out, 0, nq); return; }
    for (long i = 0; i < nq; i++) {
        bool done = false;
        for (auto& m : keep) {
            I v = eval(qs[i], m);
            if (qe[i] ? v == 0 : v <= 0) { done = true; break; }
        }
        if (done) { out[i] = 1; continue; }
        Row q = qs[i];
        red.apply(q);
        out[i] = decide(&q, qe[i]);
    }
}
}
