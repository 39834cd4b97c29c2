// DisjointSet against the equivalence closure of its history.
#include <dstruct.hpp>
#include <sys/resource.h>
#include "mc.hpp"
using namespace mc;
enum { D_CONN, D_UNION, D_FIND, D_RENEW, D_SELFC, D_SELFV, D_CPA, D_MVA, D_CPC, D_MVC, D_SWP };
template <class A, int N, bool PAIR> struct DsuWorld : World {
    typedef dstruct::DisjointSet<A> C;
    static constexpr bool kGlobals = false, kStrictAlloc = std::is_same<A, TrackAlloc>::value;
    static constexpr int NS = PAIR ? 2 : 1;
    struct Op { int code, s, a, b; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mk() {
        auto *v = new std::vector<Op>;
        for (int s = 0; s < NS; s++) {
            auto add = [&](int c, int a = 0, int b = 0) { v->push_back({c, s, a, b}); };
            for (int i = 0; i < N; i++) { add(D_FIND, i); for (int k = 0; k < N; k++) { add(D_CONN, i, k); if (i != k) add(D_UNION, i, k); } }
            for (int n = 1; n <= N; n++) if (n == N || (PAIR && n >= N - 1)) add(D_RENEW, n);
            if (PAIR) { for (int c = D_SELFC; c <= D_MVC; c++) add(c); if (!s) add(D_SWP); }
        }
        tab() = v;
    }
    void *raw[NS]; int n[NS]; int cls[NS][N]; // class = least member
    C &c(int s) { return *(C *)raw[s]; }
    void make(int s, int k) { LIB(new (raw[s]) C(k)); n[s] = k; for (int i = 0; i < N; i++) cls[s][i] = i; }
    void init() { for (int s = 0; s < NS; s++) { raw[s] = arenaAlloc(sizeof(C), BK_ROOT); make(s, N - s); } }
    int nops() { return (int)tab()->size(); }
    bool enabled(int o) {
        const Op &p = (*tab())[o];
        switch (p.code) {
        case D_FIND: return p.a < n[p.s];
        case D_CONN: return p.a < n[p.s] && p.b < n[p.s];
        case D_UNION: return p.a < n[p.s] && p.b < n[p.s] && cls[p.s][p.a] != cls[p.s][p.b];
        default: return true;
        }
    }
    const char *opflags(int o) { switch ((*tab())[o].code) { case D_SELFC: case D_CPA: case D_CPC: return "C"; case D_SELFV: case D_MVA: case D_MVC: case D_SWP: return "V"; } return ""; }
    void opname(int o, char *b, size_t z) {
        const Op &p = (*tab())[o]; char x = 'a' + p.s, y = 'a' + 1 - p.s;
        switch (p.code) {
        case D_FIND: snprintf(b, z, "%c.find(%d)", x, p.a); break; case D_CONN: snprintf(b, z, "%c.connect(%d,%d)", x, p.a, p.b); break;
        case D_UNION: snprintf(b, z, "%c.union_set(find(%d),find(%d))", x, p.a, p.b); break; case D_RENEW: snprintf(b, z, "%c = fresh with %d elements", x, p.a); break;
        case D_SELFC: snprintf(b, z, "%c = %c", x, x); break; case D_SELFV: snprintf(b, z, "%c = move(%c)", x, x); break;
        case D_CPA: snprintf(b, z, "%c = %c", y, x); break; case D_MVA: snprintf(b, z, "%c = move(%c)", y, x); break;
        case D_CPC: snprintf(b, z, "%c = C(%c)", y, x); break; case D_MVC: snprintf(b, z, "%c = C(move(%c))", y, x); break; default: snprintf(b, z, "swap(a,b)");
        }
    }
    void join(int s, int a, int b) { int x = cls[s][a], y = cls[s][b]; if (x == y) return; int lo = x < y ? x : y, hi = x < y ? y : x; for (int i = 0; i < N; i++) if (cls[s][i] == hi) cls[s][i] = lo; }
    int find(int s, int i) { return lib([&] { return (int)c(s).find(i); }); }
    void take(int d, int s) { n[d] = n[s]; memcpy(cls[d], cls[s], sizeof cls[d]); }
    void gone(int s) { n[s] = 0; for (int i = 0; i < N; i++) cls[s][i] = i; }
    void apply(int o) {
        const Op p = (*tab())[o]; int s = p.s, d = 1 - s; C &x = c(s);
        switch (p.code) {
        case D_FIND: { int r = find(s, p.a); MC_CHECK("F", r >= 0 && r < n[s] && cls[s][r] == cls[s][p.a], "find(%d) is %d, which is not connected to it", p.a, r); } break;
        case D_CONN: LIB(x.connect(p.a, p.b)); join(s, p.a, p.b); break;
        case D_UNION: { int a = p.a, b = p.b; LIB(x.union_set(x.find(a), x.find(b))); join(s, p.a, p.b); } break; // as users write it: the roots are references
        case D_RENEW: LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); make(s, p.a); break;
        case D_SELFC: if constexpr (PAIR) { C &y = x; LIB(x = y); } break;
        case D_SELFV: if constexpr (PAIR) { C &y = x; LIB(x = static_cast<C &&>(y)); } break;
        case D_CPA: if constexpr (PAIR) { const C &y = x; LIB(c(d) = y); take(d, s); } break;
        case D_MVA: if constexpr (PAIR) { LIB(c(d) = static_cast<C &&>(x)); take(d, s); gone(s); } break;
        case D_CPC: if constexpr (PAIR) { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); const C &y = x; LIB(new (raw[d]) C(y)); take(d, s); } break;
        case D_MVC: if constexpr (PAIR) { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); LIB(new (raw[d]) C(static_cast<C &&>(x))); take(d, s); gone(s); } break;
        case D_SWP: if constexpr (PAIR) { LIB(dstruct::swap(c(0), c(1))); int t = n[0]; n[0] = n[1]; n[1] = t; for (int i = 0; i < N; i++) { t = cls[0][i]; cls[0][i] = cls[1][i]; cls[1][i] = t; } } break;
        }
    }
    void check() {
        for (int s = 0; s < NS; s++) {
            C &x = c(s); const C &k = x; int nn = n[s], sets = 0;
            for (int i = 0; i < nn; i++) sets += cls[s][i] == i;
            long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == nn, "%c.size() is %lld, expected %d", 'a' + s, z, nn);
            MC_CHECK("F", lib([&] { return k.empty(); }) == (nn == 0), "empty() is wrong");
            MC_CHECK("F", lib([&] { return (long long)k.capacity(); }) >= nn, "capacity() below size()");
            long long cn = lib([&] { return (long long)k.count(); }); MC_CHECK("F", cn == sets, "%c.count() is %lld, expected %d sets", 'a' + s, cn, sets);
            int rep[N + 1];
            for (int i = 0; i < nn; i++) probe([&] { // each question on the undisturbed state
                for (int q = 0; q < nn; q++) { bool g = lib([&] { return x.connected(i, q); }); MC_CHECK("F", g == (cls[s][i] == cls[s][q]), "%c.connected(%d,%d) is %d", 'a' + s, i, q, g); }
            });
            for (int i = 0; i < nn; i++) { rep[i] = find(s, i); MC_CHECK("F", rep[i] >= 0 && rep[i] < nn && cls[s][rep[i]] == cls[s][i], "%c.find(%d) is %d, which is not connected to it", 'a' + s, i, rep[i]); }
            for (int i = nn; i-- > 0;) { int r = find(s, i); MC_CHECK("F", r == rep[i], "find(%d) changes from %d to %d without a union", i, rep[i], r); for (int q = 0; q < nn; q++) MC_CHECK("F", (rep[i] == rep[q]) == (cls[s][i] == cls[s][q]), "representatives of %d and %d disagree with connectedness", i, q); }
            cn = lib([&] { return (long long)k.count(); }); MC_CHECK("F", cn == sets, "find changes count() to %lld", cn);
        }
        if (ks().liveBytes > 64u * NS * (N + 2) + 1024) fail("B", "%llu bytes held for %d elements", (unsigned long long)ks().liveBytes, N);
    }
    void finish() { for (int s = 0; s < NS; s++) LIB(c(s).~C()); }
    void canon(GraphHash &g, Hash &h) { for (int s = 0; s < NS; s++) { h.mix(n[s]); for (int i = 0; i < n[s]; i++) h.mix(cls[s][i]); } for (int s = 0; s < NS; s++) g.root(raw[s]); }
};
// Families of unions on many elements: the t-th union of family f joins a and b.
struct UFam {
    static constexpr int NUM = 14;
    static const char *name(int f) { static const char *n[] = {"chain up", "chain down", "chain up swapped", "chain down swapped", "star from 0", "star to 0", "star from the last", "star to the last", "tournament", "tournament swapped", "tournament from above", "two chains, then joined", "step 7 chain", "outside-in"}; return n[f]; }
    static void tour(int t, int n, int &a, int &b) { for (int w = 1; w < n; w *= 2) for (int i = 0; i + w < n; i += 2 * w) if (t-- == 0) { a = i; b = i + w; return; } }
    static void pair(int f, int t, int n, int &a, int &b) {
        int h = n / 2;
        switch (f) {
        case 0: a = t; b = t + 1; break; case 1: a = n - 2 - t; b = a + 1; break; case 2: a = t + 1; b = t; break; case 3: b = n - 2 - t; a = b + 1; break;
        case 4: a = 0; b = t + 1; break; case 5: a = t + 1; b = 0; break; case 6: a = n - 1; b = t; break; case 7: a = t; b = n - 1; break;
        case 8: tour(t, n, a, b); break; case 9: tour(t, n, b, a); break; case 10: tour(t, n, a, b); a = n - 1 - a; b = n - 1 - b; break;
        case 11: if (t < h - 1) { a = h - 2 - t; b = a + 1; } else if (t < n - 2) { b = n - 2 - (t - (h - 1)); a = b + 1; } else { a = h; b = h - 1; } break;
        case 12: { int k = 7; while (n % k == 0) k += 2; a = (int)((long long)k * t % n); b = (int)((long long)k * (t + 1) % n); } break;
        default: { int i = t / 2; a = t % 2 ? n - 1 - i : i; b = t % 2 ? i + 1 : n - 1 - i; } break;
        }
    }
};
// LOOK: how many finds may be mixed in; ANY: anywhere, otherwise only after the last union made
template <class A, int N, int LOOK, bool ANY> struct DsuFam : DsuWorld<A, N, false> {
    typedef DsuWorld<A, N, false> B; using B::c; using B::cls; using B::find; using B::join;
    int fam, steps, looks;
    static void mk() {}
    void init() { B::init(); fam = -1; steps = looks = 0; }
    int nops() { return 2 * UFam::NUM + N; }
    bool enabled(int o) { if (o < 2 * UFam::NUM) return (fam < 0 || fam == o) && steps < N - 1 && (ANY || !looks); return steps && looks < LOOK; }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { if (o < 2 * UFam::NUM) snprintf(b, z, "%s(next, %s)", o % 2 ? "union_set" : "connect", UFam::name(o / 2)); else snprintf(b, z, "find(%d)", o - 2 * UFam::NUM); }
    void apply(int o) {
        typename B::C &x = c(0);
        if (o >= 2 * UFam::NUM) { int i = o - 2 * UFam::NUM, r = find(0, i); looks++; MC_CHECK("F", r >= 0 && r < N && cls[0][r] == cls[0][i], "find(%d) is %d, which is not connected to it", i, r); return; }
        fam = o; int a = 0, b = 0; UFam::pair(o / 2, steps++, N, a, b); if (cls[0][a] == cls[0][b] && o % 2) return;
        if (o % 2) { int p = find(0, a), q = find(0, b); LIB(x.union_set(p, q)); } else LIB(x.connect(a, b));
        join(0, a, b);
    }
    void canon(GraphHash &g, Hash &h) { h.mix(steps * 8 + looks); if (steps < N - 1) h.mix(fam); B::canon(g, h); }
};
// So many elements that the depth of chains matters: the stack of the process is limited to 1 MB.
template <class A, int N> struct DsuBig : World {
    typedef dstruct::DisjointSet<A> C; static constexpr bool kGlobals = false, kStrictAlloc = false;
    void *raw; int built; int up[N]; static void mk() {}
    C &c() { return *(C *)raw; }
    int top(int i) { int r = i; while (up[r] != r) r = up[r]; while (up[i] != r) { int q = up[i]; up[i] = r; i = q; } return r; }
    void init() { struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = 1 << 20; setrlimit(RLIMIT_STACK, &rl); raw = arenaAlloc(sizeof(C), BK_ROOT); LIB(new (raw) C(N)); built = -1; for (int i = 0; i < N; i++) up[i] = i; }
    int nops() { return 4 * UFam::NUM + 4; }
    bool enabled(int o) { int f = o / 4; return o >= 4 * UFam::NUM ? built >= 0 : built < 0 && f != 8 && f != 9 && f != 10; }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { if (o >= 4 * UFam::NUM) snprintf(b, z, "find(#%d of 4)", o - 4 * UFam::NUM); else snprintf(b, z, "%s of %s over %d elements with %s", o & 1 ? "half" : "all", UFam::name(o / 4), N, o & 2 ? "union_set" : "connect"); }
    void apply(int o) {
        C &x = c(); if (o >= 4 * UFam::NUM) { int i = (o - 4 * UFam::NUM) * (N - 1) / 3, r = lib([&] { return (int)x.find(i); }); MC_CHECK("F", r >= 0 && r < N && top(r) == top(i), "find(%d) is %d, which is not connected to it", i, r); return; }
        built = o; int k = o & 1 ? N / 2 : N - 1;
        for (int t = 0; t < k; t++) {
            int a = 0, b = 0; UFam::pair(o / 4, t, N, a, b); int p = top(a), q = top(b); if (p == q) continue;
            if (o & 2) { LIB(x.union_set((int)x.find(a), (int)x.find(b))); } else LIB(x.connect(a, b));
            up[p < q ? q : p] = p < q ? p : q;
        }
    }
    void check() {
        C &x = c(); const C &k = x; int sets = 0; for (int i = 0; i < N; i++) sets += up[i] == i;
        long long cn = lib([&] { return (long long)k.count(); }); MC_CHECK("F", cn == sets, "count() is %lld, expected %d sets", cn, sets);
        probe([&] { for (int i = N - 1; i >= 0; i--) { bool g = lib([&] { return x.connected(N - 1, i); }); MC_CHECK("F", g == (top(i) == top(N - 1)), "connected(%d,%d) is %d", N - 1, i, g); } });
        for (int i = N - 1; i >= 0; i--) { int r = lib([&] { return (int)x.find(i); }); MC_CHECK("F", r >= 0 && r < N && top(r) == top(i), "find(%d) is %d, which is not connected to it", i, r); }
        if (ks().liveBytes > 32u * N + 1024) fail("B", "%llu bytes held for %d elements", (unsigned long long)ks().liveBytes, N);
    }
    void finish() { LIB(c().~C()); }
    void canon(GraphHash &g, Hash &h) { h.mix(built); for (int i = 0; i < N; i++) h.mix(up[i] == i); g.root(raw); }
};
template <class W> Job dj(const char *n) { W::mk(); return Ops<W>::job(n); }
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(dj<DsuWorld<TrackAlloc, 6, false>>("d6"));
    v.push_back(dj<DsuWorld<TrackAlloc, 7, false>>("d7"));
    v.push_back(dj<DsuWorld<dstruct::Alloc, 5, false>>("d5_malloc"));
    v.push_back(dj<DsuWorld<TrackAlloc, 3, true>>("dpair3"));
    v.push_back(dj<DsuWorld<dstruct::Alloc, 4, true>>("dpair4_malloc"));
    v.push_back(dj<DsuFam<TrackAlloc, 16, 1, true>>("dfam16"));
    v.push_back(dj<DsuFam<TrackAlloc, 48, 1, false>>("dfam48"));
    v.push_back(dj<DsuBig<dstruct::Alloc, 60000>>("dbig"));
}
