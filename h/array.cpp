// Array: every size up to a bound, every index from -N to N-1, const and mutable.
#include <dstruct.hpp>
#include "mc.hpp"
using namespace mc;

// K 0: every written value is new; K > 0: values come from an alphabet of K, so equal values occur everywhere
template <class T, int N, int K = 0> struct AWorld : World {
    static constexpr bool kGlobals = false, kStrictAlloc = true;
    typedef dstruct::Array<T, N> C;
    // ops: write each index, write through each iterator position, refill, copy/move from a second array
    static constexpr int KK = K ? K : 1; static u32 val(int v) { return K ? (u32)v + 1 : ks().nextId++; }
    void *raw[2]; SV<u32, (N ? N : 1)> m[2];
    C &c(int s) { return *(C *)raw[s]; }
    void init() {
        for (int s = 0; s < 2; s++) {
            raw[s] = arenaAlloc(sizeof(C), BK_ROOT, alignof(C) > 16 ? alignof(C) : 16); m[s].clear();
            u32 id = val(0);
            if (s == 0) { Arg<T> a(id); LIB(new (raw[s]) C(a.v)); }
            else { LIB(new (raw[s]) C()); Arg<T> a(id); for (int i = 0; i < N; i++) LIB(c(s)[i] = a.v); }
            for (int i = 0; i < N; i++) m[s].push_back(id);
        }
        renew(0); renew(1);
    }
    void renew(int s) { same(s); if (K) return; for (int i = 0; i < N; i++) { u32 id = ks().nextId++; Arg<T> a(id); LIB(c(s)[i] = a.v); m[s][i] = id; } }
    void same(int s) { const C &k = c(s); for (int i = 0; i < N; i++) { u32 g = lib([&] { return Val<T>::id(k[i]); }); MC_CHECK("F", g == m[s][i], "element %d is #%x, expected #%x", i, g, m[s][i]); } }
    int nops() { return 2 * (3 * N + 1) * KK + 4; }
    bool enabled(int) { return true; }
    struct D { int s, code, i, v; };
    D dec(int o) { int per = 3 * N + 1; if (o >= 2 * per * KK) return {0, 9, o - 2 * per * KK, 0}; int v = o / (2 * per); o %= 2 * per; int s = o / per, r = o % per; if (r < 2 * N) return {s, 0, r - N, v}; if (r < 3 * N) return {s, 1, r - 2 * N, v}; return {s, 2, 0, v}; }
    const char *opflags(int o) { D d = dec(o); return d.code == 9 ? (d.i % 2 ? "V" : "C") : ""; }
    void opname(int o, char *b, size_t n) { D d = dec(o); snprintf(b, n, d.code == 0 ? "%c[%d] = value %d" : d.code == 1 ? "*(%c.begin()+%d) = value %d" : d.code == 2 ? "%c = C(value), %d %d" : d.i == 0 ? "%c = b" : d.i == 1 ? "%c = move(b)" : d.i == 2 ? "%c = C(b)" : "%c = C(move(b))", 'a' + d.s, d.i, d.v); }
    void apply(int o) {
        D d = dec(o); C &x = c(d.s); u32 id = val(d.v);
        if (d.code == 0) { Arg<T> a(id); LIB(x[d.i] = a.v); m[d.s][d.i < 0 ? d.i + N : d.i] = id; }
        else if (d.code == 1) { Arg<T> a(id); LIB(auto it = x.begin(); for (int q = 0; q < d.i; q++) ++it; *it = a.v); m[d.s][d.i] = id; }
        else if (d.code == 2) { LIB(x.~C()); rawset(raw[d.s], 0xBE, sizeof(C)); { Arg<T> a(id); LIB(new (raw[d.s]) C(a.v)); } for (int i = 0; i < N; i++) m[d.s][i] = id; renew(d.s); }
        else {
            if (d.i == 0) { const C &y = c(1); LIB(c(0) = y); m[0] = m[1]; }
            if (d.i == 1) { LIB(c(0) = static_cast<C &&>(c(1))); m[0] = m[1]; renewAll(1); }
            if (d.i == 2) { LIB(c(0).~C()); rawset(raw[0], 0xBE, sizeof(C)); const C &y = c(1); LIB(new (raw[0]) C(y)); m[0] = m[1]; }
            if (d.i == 3) { LIB(c(0).~C()); rawset(raw[0], 0xBE, sizeof(C)); LIB(new (raw[0]) C(static_cast<C &&>(c(1)))); m[0] = m[1]; renewAll(1); }
            if (d.i == 0 || d.i == 2) { same(1); renew(0); } else renew(0);
        }
    }
    void renewAll(int s) { for (int i = 0; i < N; i++) { u32 id = val(0); Arg<T> a(id); LIB(c(s)[i] = a.v); m[s][i] = id; } }
    template <class Q> void access(Q &x, int s, const char *cq) {
        for (int i = -N; i < N; i++) { u32 g = lib([&] { return Val<T>::id(x[i]); }); u32 w = m[s][i < 0 ? i + N : i]; MC_CHECK("F", g == w, "%s[%d] is element #%x, expected #%x", cq, i, g, w); }
        if (N) {
            u32 f = lib([&] { return Val<T>::id(x.front()); }), b = lib([&] { return Val<T>::id(x.back()); });
            MC_CHECK("F", f == m[s][0], "%sfront() is #%x", cq, f); MC_CHECK("F", b == m[s][N - 1], "%sback() is #%x", cq, b);
        }
        int i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i) { MC_CHECK("F", i < N, "%siteration runs past the end", cq); u32 g = Val<T>::id(*it); MC_CHECK("F", g == m[s][i], "%siteration differs at %d", cq, i); }
        MC_CHECK("F", i == N, "%siteration ends after %d of %d", cq, i, N);
        i = 0; for (auto &v : x) { MC_CHECK("F", i < N && Val<T>::id(v) == m[s][i], "%srange-for differs at %d", cq, i); i++; }
        MC_CHECK("F", i == N, "%srange-for count", cq);
        auto b = x.begin();
        for (int p = 0; p <= N; p++) {
            auto at = b + p; auto fe = x.end() - (N - p);
            MC_CHECK("I", at == fe && !(at != fe), "%sbegin+%d and end-%d differ", cq, p, N - p);
            MC_CHECK("I", dstruct::distance(b, at) == p && dstruct::distance(at, b) == -p, "%sdistance is wrong", cq);
            if (p < N) { MC_CHECK("I", Val<T>::id(*at) == m[s][p] && Val<T>::id(*at.operator->()) == m[s][p], "%sbegin+%d is the wrong element", cq, p);
                auto u = at; auto old = u++; auto w = at; auto &r = ++w; MC_CHECK("I", old == at && u == w && u == b + (p + 1) && &r == &w, "%sincrement", cq);
                auto dn = u; auto od = dn--; MC_CHECK("I", od == u && dn == at, "%sdecrement", cq); auto pd = u; --pd; MC_CHECK("I", pd == at, "%spre-decrement", cq); }
            for (int q = -p; q <= N - p; q++) { MC_CHECK("I", (at + q) == b + (p + q) && (at - (-q)) == b + (p + q), "%sit+n", cq); }
        }
        int cnt = 0; bool ok = true; dstruct::algorithm::for_each(x.begin(), x.end(), [&](const T &v) { if (cnt >= N || Val<T>::id(v) != m[s][cnt]) ok = false; cnt++; });
        MC_CHECK("I", ok && cnt == N, "%sfor_each", cq);
        for (int k = 0; k < N; k++) { T key = Val<T>::make(m[s][k]); auto it = dstruct::algorithm::find(x.begin(), x.end(), key); MC_CHECK("I", it == b + m[s].find(m[s][k]), "%sfind", cq); }
        { T key = Val<T>::make(4000); MC_CHECK("I", dstruct::algorithm::find(x.begin(), x.end(), key) == x.end(), "%sfind absent", cq); }
    }
    void check() {
        for (int i = 0; i < MAXID; i++) ranks().rank[i] = i;
        for (int s = 0; s < 2; s++) {
            C &x = c(s); const C &k = x;
            MC_CHECK("F", (long long)lib([&] { return k.size(); }) == N && (long long)lib([&] { return x.size(); }) == N, "size() is wrong");
            MC_CHECK("F", lib([&] { return k.empty(); }) == (N == 0), "empty() is wrong");
            access(x, s, ""); access(k, s, "const ");
        }
    }
    void finish() { for (int s = 0; s < 2; s++) LIB(c(s).~C()); }
    void canon(GraphHash &g, Hash &h) { u32 nx = 1; for (int s = 0; s < 2; s++) for (int i = 0; i < N; i++) { if (K) canonId(m[s][i], m[s][i]); else if (pv().canon[m[s][i]] == CANON_STALE) canonId(m[s][i], nx++); h.mix(pv().canon[m[s][i]]); } for (int s = 0; s < 2; s++) g.root(raw[s]); }
};
template <class W> Job J(const char *n) { return Ops<W>::job(n); }
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(J<AWorld<Tk, 0>>("tk0")); v.push_back(J<AWorld<int, 0>>("int0")); v.push_back(J<AWorld<Tk, 1>>("tk1")); v.push_back(J<AWorld<Tk, 2>>("tk2")); v.push_back(J<AWorld<Tk, 3>>("tk3"));
    v.push_back(J<AWorld<Tk, 5>>("tk5")); v.push_back(J<AWorld<int, 4>>("int4")); v.push_back(J<AWorld<int, 8>>("int8"));
    v.push_back(J<AWorld<Tk48, 2>>("tk48_2")); v.push_back(J<AWorld<Tk24, 7>>("tk24_7")); v.push_back(J<AWorld<u64, 16>>("u64_16")); v.push_back(J<AWorld<int, 33>>("int33"));
    v.push_back(J<AWorld<int, 2, 3>>("int2_abc")); v.push_back(J<AWorld<int, 5, 2>>("int5_ab")); v.push_back(J<AWorld<Tk, 3, 3>>("tk3_abc")); v.push_back(J<AWorld<Tk24, 4, 2>>("tk24_4_ab")); v.push_back(J<AWorld<u64, 6, 2>>("u64_6_ab"));
}
