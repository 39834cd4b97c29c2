// Tens of thousands of elements: few histories, in large steps, across every power of two a counter could be cut at.
#include <dstruct.hpp>
#include "mc.hpp"
#include <algorithm>
#include <type_traits>
#include <vector>
using namespace mc;
typedef TrackAlloc TA;
// an element that knows where it lives and is counted
struct Life { long live; int bad; long extra; }; // extra: objects of its own an empty container keeps (a list head, a heap's unused place)
inline Life *&life() { static Life *l = nullptr; return l; }
struct Own {
    int v, pad; const Own *self;
    Own() : v(0), pad(0) { born(); } Own(int x) : v(x), pad(0) { born(); } Own(const Own &o) : v(o.v), pad(0) { if (o.self != &o) life()->bad = 1; born(); }
    Own &operator=(const Own &o) { if (self != this || o.self != &o) life()->bad = 2; v = o.v; return *this; }
    ~Own() { if (self != this) life()->bad = 3; self = nullptr; life()->live--; }
    void born() { self = this; life()->live++; }
    operator int() const { if (self != this) life()->bad = 4; return v; }
};
enum { GPB, GPF, GOB, GOF, GCL, GCP, GMV, GNUM };
static const char *const gname[] = {"push_back", "push_front", "pop_back", "pop_front", "clear", "copied to a new object and back", "moved to a new object and back"};
template <class CC> struct GT { typedef CC C; static constexpr bool pf = false, of = false, ob = true, cl = true, index = false, slow = false, back = true, front = true; };
template <class D> struct GVec : GT<D> { static constexpr bool index = true; static void op(D &c, int o, int x) { if (o == GPB) c.push_back(x); if (o == GOB) c.pop_back(); if (o == GCL) c.clear(); } };
template <class D> struct GDeq : GT<D> { static constexpr bool pf = true, of = true, index = true, slow = true; static void op(D &c, int o, int x) { switch (o) { case GPB: c.push_back(x); break; case GPF: c.push_front(x); break; case GOB: c.pop_back(); break; case GOF: c.pop_front(); break; case GCL: c.clear(); break; } } };
template <class D> struct GDl : GT<D> { static constexpr bool pf = true, of = true; static void op(D &c, int o, int x) { switch (o) { case GPB: c.push_back(x); break; case GPF: c.push_front(x); break; case GOB: c.pop_back(); break; case GOF: c.pop_front(); break; case GCL: c.clear(); break; } } };
template <class D> struct GSl : GT<D> { static constexpr bool pf = true, of = true, ob = false; static void op(D &c, int o, int x) { switch (o) { case GPB: c.push_back(x); break; case GPF: c.push_front(x); break; case GOF: c.pop_front(); break; case GCL: c.clear(); break; } } };
template <class D> struct GStk : GT<D> { static constexpr bool front = false, back = false; static void op(D &c, int o, int x) { if (o == GPB) c.push(x); if (o == GOB) c.pop(); if (o == GCL) c.clear(); } };
template <class D> struct GQue : GT<D> { static constexpr bool of = true, ob = false, cl = false; static void op(D &c, int o, int x) { if (o == GPB) c.push(x); if (o == GOF) c.pop(); } };
template <class D> struct GStr : GT<D> { static constexpr bool index = true, ob = false; static void op(D &c, int o, int x) { if (o == GPB) c.push_back((char)x); if (o == GCL) c.clear(); } };

// the elements are val(lo) .. val(hi-1)
template <class Tr, int N, int K, int NODE, bool CHR = false, class X = void> struct BigSeq : World {
    typedef typename Tr::C C; static constexpr bool kGlobals = false, kStrictAlloc = true;
    void *raw; int lo, hi, ops, peak; Life lf;
    C &c() { return *(C *)raw; }
    static int val(int i) { return CHR ? 'A' + (i & 0xffff) % 57 : (int)((unsigned)i * 2654435761u); }
    void init() { lf = Life(); life() = &lf; raw = arenaAlloc(sizeof(C), BK_ROOT, 16); LIB(new (raw) C()); lo = hi = ops = peak = 0; lf.extra = lf.live > 2 ? 2 : lf.live; }
    static constexpr bool OWN = std::is_same<typename C::ValueType, Own>::value;
    int nops() { return GNUM; }
    // nodes cannot be numbered without end: at most NODE elements are pushed in one history
    bool enabled(int o) { int n = hi - lo; switch (o) { case GPB: return n + K <= N && ops + K <= NODE; case GPF: return Tr::pf && n + K <= N && ops + K <= NODE; case GOB: return Tr::ob && n >= K; case GOF: return Tr::of && n >= K; case GCL: return Tr::cl && n; default: return n && ops + 2 * n <= NODE; } }
    const char *opflags(int o) { return o == GCP ? "C" : o == GMV ? "V" : ""; }
    void opname(int o, char *b, size_t z) { if (o < GCL) snprintf(b, z, "%d x %s", K, gname[o]); else snprintf(b, z, "%s", gname[o]); }
    void apply(int o) {
        C &x = c();
        switch (o) {
        case GPB: LIB(for (int i = 0; i < K; i++) Tr::op(x, o, val(hi + i))); hi += K; ops += K; break;
        case GPF: LIB(for (int i = 1; i <= K; i++) Tr::op(x, o, val(lo - i))); lo -= K; ops += K; break;
        case GOB: LIB(for (int i = 0; i < K; i++) Tr::op(x, o, 0)); hi -= K; break;
        case GOF: LIB(for (int i = 0; i < K; i++) Tr::op(x, o, 0)); lo += K; break;
        case GCL: LIB(Tr::op(x, o, 0)); lo = hi = 0; break;
        case GCP: LIB({ C y(x); Tr::op(x, GPB, val(hi)); x = y; }); ops += 2 * (hi - lo); break;
        case GMV: LIB({ C y(static_cast<C &&>(x)); x = static_cast<C &&>(y); }); break;
        }
        if (hi - lo > peak) peak = hi - lo;
    }
    template <class Q> void laws(Q &q, const char *w) { // positions far apart, and the algorithms over all of a long sequence
        Act act("I"); int n = hi - lo; InLib g; auto b = q.begin(), e = q.end();
        if constexpr (Tr::index) for (int j : {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, n / 2, n - 1, n}) if (j >= 0 && j <= n) {
            auto f = b + j, r = e - (n - j); if (!(f == r)) { OutLib u; fail("I", "%s: begin+%d and end-%d differ", w, j, n - j); } if (j < n && (char)(int)*f != (char)val(lo + j)) { OutLib u; fail("I", "%s: begin+%d of %d is the wrong element", w, j, n); }
            if constexpr (!Tr::slow) if (dstruct::distance(b, f) != j || dstruct::distance(f, e) != n - j) { OutLib u; fail("I", "%s: distance to position %d of %d is wrong", w, j, n); }
        }
        int cnt = 0; bool ok = true; dstruct::algorithm::for_each(b, e, [&](auto &v) { if (cnt >= n || (int)v != val(lo + cnt)) ok = false; cnt++; }); if (!ok || cnt != n) { OutLib u; fail("I", "%s: for_each over %d elements shows %d%s", w, n, cnt, ok ? "" : ", or wrong ones"); }
        if constexpr (!CHR) { if (n) { auto it = dstruct::algorithm::find(b, e, typename C::ValueType(val(hi - 1))); if (it == e || (int)*it != val(hi - 1)) { OutLib u; fail("I", "%s: find misses the last of %d elements", w, n); } } if (!(dstruct::algorithm::find(b, e, typename C::ValueType(val(hi))) == e)) { OutLib u; fail("I", "%s: find shows an absent element", w); } }
    }
    void check() {
        C &x = c(); const C &k = x; int n = hi - lo; life() = &lf;
        if (OWN) { MC_CHECK("L", !lf.bad, "%s", lf.bad == 1 ? "a copy was taken of an object that is not alive" : lf.bad == 2 ? "an assignment involves an object that is not alive" : lf.bad == 3 ? "an object was destroyed that is not alive" : "an object was read that is not alive"); MC_CHECK("L", lf.live >= n && lf.live <= n + lf.extra, "%ld element objects are alive with %d elements contained", lf.live, n); }
        long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == n, "size() is %lld, expected %d", z, n);
        MC_CHECK("F", lib([&] { return k.empty(); }) == (n == 0), "empty() is wrong with %d elements", n);
        auto walk = [&](auto &q, const char *w) { InLib g; int i = 0; for (auto it = q.begin(); it != q.end(); ++it, ++i) { if (i >= n || (int)*it != val(lo + i)) { OutLib u; fail("FI", "%s: element %d of %d is wrong", w, i, n); } } if (i != n) { OutLib u; fail("FI", "%s ends after %d of %d elements", w, i, n); } };
        walk(k, "const iteration"); walk(x, "iteration"); laws(k, "const"); laws(x, "mutable");
        if (n) {
            if constexpr (Tr::front) { int f = lib([&] { return (int)k.front(); }); MC_CHECK("F", f == val(lo), "front() is wrong with %d elements", n); }
            if constexpr (Tr::back) { int f = lib([&] { return (int)k.back(); }); MC_CHECK("F", f == val(hi - 1), "back() is wrong with %d elements", n); }
            if constexpr (Tr::index) {
                auto at = [&](int i) { int f = lib([&] { return (int)k[i]; }); MC_CHECK("F", f == val(i < 0 ? hi + i : lo + i), "[%d] of %d elements is wrong", i, n); };
                if (Tr::slow) { for (int i : {0, 1, 127, 128, 255, 256, 32767, 32768, n / 2, n - 1}) if (i < n) { at(i); if (!CHR) at(i - n); } }
                else for (int i = 0; i < n; i++) { at(i); if (!CHR) at(i - n); }
            }
            if constexpr (CHR) { const char *p = lib([&] { return k.c_str(); }); for (int i = 0; i < n; i++) MC_CHECK("F", p[i] == (char)val(lo + i), "c_str()[%d] of %d characters is wrong", i, n); MC_CHECK("F", p[n] == 0, "c_str() of %d characters is not terminated", n); }
        }
        if (ks().liveBytes > 64ull * peak + 8192) fail("B", "%llu bytes held for a peak of %d elements", (unsigned long long)ks().liveBytes, peak);
    }
    void finish() { LIB(c().~C()); if (OWN) MC_CHECK("L", lf.live == 0 && !lf.bad, "%ld element objects are alive after the container is gone", lf.live); }
    void canon(GraphHash &g, Hash &h) { h.mix(lo); h.mix(hi); h.mix(ops > NODE / 2); g.root(raw); }
};
// stacks with an extreme value: the stack is val(0) .. val(n-1)
template <class C, int N, int K, bool MIN> struct BigX : World {
    static constexpr bool kGlobals = false, kStrictAlloc = true; void *raw; int pat, n;
    C &c() { return *(C *)raw; }
    int val(int i) { switch (pat) { case 0: return i; case 1: return -i; case 2: return (int)((unsigned)i * 40503u % 65537u); default: return i / 300; } }
    void init() { raw = arenaAlloc(sizeof(C), BK_ROOT, 16); LIB(new (raw) C()); pat = -1; n = 0; }
    int nops() { return 7; }
    bool enabled(int o) { return o < 4 ? (pat < 0 || pat == o) && n + K <= N : o == 4 ? n >= K : n > 0; }
    const char *opflags(int o) { return o == 6 ? "C" : ""; }
    void opname(int o, char *b, size_t z) { static const char *const nm[] = {"rising", "falling", "scattered", "repeating"}; if (o < 4) snprintf(b, z, "push %d %s values", K, nm[o]); else snprintf(b, z, o == 4 ? "pop %d" : o == 5 ? "clear" : "copied and assigned back", K); }
    void apply(int o) { C &x = c(); if (o < 4) { pat = o; LIB(for (int i = 0; i < K; i++) x.push(val(n + i))); n += K; } else if (o == 4) { LIB(for (int i = 0; i < K; i++) x.pop()); n -= K; } else if (o == 5) { LIB(x.clear()); n = 0; } else LIB({ C y(x); x.push(5); x = y; }); }
    void check() {
        C &x = c(); const C &k = x; MC_CHECK("F", lib([&] { return k.empty(); }) == (n == 0), "empty() is wrong with %d elements", n);
        { InLib g; int i = 0; for (auto it = k.begin(); it != k.end(); ++it, ++i) if (i >= n || *it != val(i)) { OutLib u; fail("F", "element %d of %d is wrong", i, n); } if (i != n) { OutLib u; fail("F", "iteration ends after %d of %d elements", i, n); } }
        std::vector<int> ex(n + 1); for (int i = 0; i < n; i++) ex[i + 1] = i == 0 || (MIN ? val(i) < ex[i] : val(i) > ex[i]) ? val(i) : ex[i];
        auto exp = ex.data(); probe([&] { for (int i = n; i > 0; i--) { int t = lib([&] { return (int)k.top(); }), e = lib([&] { return (int)k.getXValue(); }); MC_CHECK("F", t == val(i - 1), "top() is wrong with %d elements", i); MC_CHECK("F", e == exp[i], "the extreme value is %d, expected %d with %d elements", e, exp[i], i); LIB(x.pop()); } MC_CHECK("F", lib([&] { return k.empty(); }), "not empty after as many pops as pushes"); });
    }
    void finish() { LIB(c().~C()); }
    void canon(GraphHash &g, Hash &h) { h.mix(n); h.mix(pat); g.root(raw); }
};
// ordered containers over the values 0 .. N-1, each at most once: pushed and popped in blocks of K taken along an order of all values
template <class T, bool MAP> struct Ord { static void put(T &t, int v) { t.push(v); } static int key(const T &, int v) { return v; } };
template <class T> struct Ord<T, true> { static void put(T &t, int v) { t[v] = v * 3; } };
template <class C, int N, int K, int KIND, int NODE> struct BigOrd : World { // KIND 0 heap (least first), 1 heap (greatest first), 2 BST, 3 AVL, 4 map
    static constexpr bool kGlobals = false, kStrictAlloc = KIND != 4, HEAP = KIND < 2, MAP = KIND == 4; void *raw; int pat, lo, hi, n, ops, peak; u8 in[N]; Life lf;
    C &c() { return *(C *)raw; }
    int val(int i) { i %= N; switch (pat) { case 0: return i; case 1: return N - 1 - i; case 2: return (int)((long long)i * 7919 % N); default: return i % 2 ? N - 1 - i / 2 : i / 2; } }
    void init() { lf = Life(); life() = &lf; raw = arenaAlloc(sizeof(C), BK_ROOT, 16); LIB(new (raw) C()); lf.extra = lf.live > 2 ? 2 : lf.live; pat = -1; lo = hi = n = ops = peak = 0; memset(in, 0, sizeof in); }
    int nops() { return 8; }
    bool enabled(int o) { switch (o) { case 0: case 1: case 3: if (KIND == 2 && N > 8000) return false; // a chain of that length is beyond the recursion
 case 2: return (pat < 0 || pat == o) && n + K <= N && hi + K <= 2 * N && ops + K <= NODE && (!HEAP || hi + K <= N); case 4: return n >= K; case 5: return !HEAP && n >= K; case 6: return n && ops + 2 * n <= NODE; default: return !HEAP && n; } }
    const char *opflags(int o) { return o == 6 ? "C" : ""; }
    void opname(int o, char *b, size_t z) { static const char *const nm[] = {"rising", "falling", "scattered", "alternating"}; if (o < 4) snprintf(b, z, "push %d %s values", K, nm[o]); else snprintf(b, z, o == 4 ? HEAP ? "pop %d" : "pop %d, oldest first" : o == 5 ? "pop %d, newest first" : o == 6 ? "copied and assigned back" : "clear", K); }
    int least() { if (KIND == 1) { for (int i = N; i--; ) if (in[i]) return i; } else for (int i = 0; i < N; i++) if (in[i]) return i; return -1; }
    void apply(int o) {
        C &x = c();
        if (o < 4) { pat = o; LIB(for (int i = 0; i < K; i++) { if constexpr (MAP) x[val(hi + i)] = val(hi + i) * 3; else x.push(val(hi + i)); }); for (int i = 0; i < K; i++) in[val(hi + i)] = 1; hi += K; n += K; ops += K; }
        else if (o == 4) { if constexpr (HEAP) { LIB(for (int i = 0; i < K; i++) x.pop()); for (int d = 0, i = KIND ? N - 1 : 0; d < K; i += KIND ? -1 : 1) if (in[i]) { in[i] = 0; d++; } } else { LIB(for (int i = 0; i < K; i++) x.pop(val(lo + i))); for (int i = 0; i < K; i++) in[val(lo + i)] = 0; lo += K; } n -= K; }
        else if (o == 5) { if constexpr (!HEAP) LIB(for (int i = 1; i <= K; i++) x.pop(val(hi - i))); for (int i = 1; i <= K; i++) in[val(hi - i)] = 0; hi -= K; n -= K; }
        else if (o == 6) { LIB({ C y(x); x = y; }); ops += 2 * n; }
        else { if constexpr (!HEAP) LIB(x.clear()); lo = hi = n = 0; memset(in, 0, sizeof in); }
        if (n > peak) peak = n;
    }
    static constexpr bool OWN = [] { if constexpr (MAP) return false; else return std::is_same<typename C::ValueType, Own>::value; }();
    void check() {
        C &x = c(); const C &k = x; life() = &lf;
        if (OWN) { MC_CHECK("L", !lf.bad, "an object that is not alive was used (%d)", lf.bad); MC_CHECK("L", lf.live >= n && lf.live <= n + lf.extra, "%ld element objects are alive with %d elements contained", lf.live, n); }
        long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == n, "size() is %lld, expected %d", z, n);
        MC_CHECK("F", lib([&] { return k.empty(); }) == (n == 0), "empty() is wrong with %d elements", n);
        if constexpr (HEAP) {
            std::vector<u8> seen(N); int cnt = 0; { InLib g; for (auto it = k.begin(); it != k.end(); ++it, ++cnt) { int v = *it; if (v < 0 || v >= N || seen[v] || !in[v]) { OutLib u; fail("F", "iteration shows %d, which is not (or no longer) contained", v); } seen[v] = 1; } } MC_CHECK("F", cnt == n, "iteration shows %d of %d elements", cnt, n);
            probe([&] { for (int i = KIND ? N - 1 : 0, left = n; left; i += KIND ? -1 : 1) if (in[i]) { int t = lib([&] { return (int)k.top(); }); MC_CHECK("F", t == i, "top() is %d, expected %d with %d elements", t, i, left); LIB(x.pop()); left--; } });
        } else {
            int v = 0, cnt = 0; { InLib g; for (auto it = k.begin(); it != k.end(); ++it, ++cnt) { while (v < N && !in[v]) v++; int got; if constexpr (MAP) got = it->key; else got = *it; bool ok = v < N && got == v; if constexpr (MAP) ok = ok && it->value == v * 3; if (!ok) { OutLib u; fail("F", "iteration shows %d, expected %d (%d of %d)", got, v, cnt, n); } v++; } } MC_CHECK("F", cnt == n, "iteration shows %d of %d elements", cnt, n);
            for (int i = 0; i < N; i++) { InLib g; auto it = k.find(i); bool f = !(it == k.end()); if (f != (in[i] != 0)) { OutLib u; fail("F", "find(%d) is wrong with %d elements", i, n); } }
            if constexpr (KIND == 2 || KIND == 3) orders(x);
            if (n) probe([&] { // a loop that erases every second element and goes on from what erase returns
                Act act("E"); int i = 0, left = 0; { InLib g; int v = 0; auto e = x.end(); auto it = x.begin(); while (!(it == e)) { while (v < N && !in[v]) v++; int got; if constexpr (MAP) got = it->key; else got = *it; if (v >= N || got != v) { OutLib u; fail("E", "a loop that erases every second element visits %d, expected %d", got, v < N ? v : -1); } v++; if (i++ % 2 == 0) it = x.erase(it); else { ++it; left++; } } }
                MC_CHECK("E", i == n, "a loop that erases every second element visits %d of %d", i, n); MC_CHECK("E", lib([&] { return (int)k.size(); }) == left, "the size is wrong after erasing every second element of %d", n);
                i = 0; int v = 0; InLib g; for (auto it = k.begin(); it != k.end(); ++it) { while (v < N) { if (in[v] && i++ % 2) break; v++; } int got; if constexpr (MAP) got = it->key; else got = *it; if (v >= N || got != v) { OutLib u; fail("E", "after erasing every second element, %d is there, expected %d", got, v < N ? v : -1); } v++; left--; } if (left) { OutLib u; fail("E", "after erasing every second element, %d elements are missing", left); }
            });
            if constexpr (KIND == 3) { int h = lib([&] { return k.height(); }); double lim = 1.4405 * __builtin_log2(n + 2.0); MC_CHECK("H", h <= lim && (n == 0 || h >= (int)__builtin_log2((double)n)), "the height is %d with %d elements", h, n); }
        }
        if (ks().liveBytes > 96ull * peak + 8192) fail("B", "%llu bytes held for a peak of %d elements", (unsigned long long)ks().liveBytes, peak);
    }
    void orders(C &x) { // the three orders belong to one and the same search tree, by callback and by iterator
        if constexpr (KIND == 2 || KIND == 3) {
            Act act("T"); const C &k = x; typedef typename C::TraversalType TT; TT tt[3] = {TT::PreOrder, TT::InOrder, TT::PostOrder}; static const char *const nm[] = {"pre", "in", "post"};
            std::vector<int> got[3], want[3];
            for (int d = 0; d < 3; d++) { got[d].reserve(n + 1); InLib g; k.traversal([&](auto &dd) { OutLib o; int v; if constexpr (requires { dd.val; }) v = dd.val; else v = dd; if ((int)got[d].size() <= n) got[d].push_back(v); }, tt[d]); }
            std::vector<int> l(N, -1), r(N, -1), st; int root = -1;
            for (int v : got[0]) { if (v < 0 || v >= N || !in[v]) fail("T", "pre-order traversal shows %d, which is not contained", v); if (root < 0) root = v; else if (v < st.back()) l[st.back()] = v; else { int p = -1; while (!st.empty() && st.back() < v) { p = st.back(); st.pop_back(); } if (p < 0 || r[p] >= 0) fail("T", "pre-order traversal shows %d twice or out of order", v); r[p] = v; } st.push_back(v); }
            if (root >= 0) {
                st.assign(1, root); while (!st.empty()) { int v = st.back(); st.pop_back(); want[0].push_back(v); if (r[v] >= 0) st.push_back(r[v]); if (l[v] >= 0) st.push_back(l[v]); }
                st.assign(1, root); while (!st.empty()) { int v = st.back(); st.pop_back(); want[2].push_back(v); if (l[v] >= 0) st.push_back(l[v]); if (r[v] >= 0) st.push_back(r[v]); } std::reverse(want[2].begin(), want[2].end());
            }
            for (int i = 0; i < N; i++) if (in[i]) want[1].push_back(i);
            for (int d = 0; d < 3; d++) {
                MC_CHECK("T", (int)got[d].size() == n, "callback %s-order traversal visits %d of %d elements", nm[d], (int)got[d].size(), n); MC_CHECK("T", got[d] == want[d], "callback %s-order traversal of %d elements is not in that order", nm[d], n);
                int i = 0; InLib g; auto e = k.end(tt[d]); for (auto it = k.begin(tt[d]); it != e; ++it, ++i) if (i >= n || (int)*it != want[d][i]) { OutLib u; fail("T", "%s-order iteration shows the wrong element at %d of %d", nm[d], i, n); } if (i != n) { OutLib u; fail("T", "%s-order iteration ends after %d of %d", nm[d], i, n); }
            }
        }
    }
    void finish() { LIB(c().~C()); if (OWN) MC_CHECK("L", lf.live == 0 && !lf.bad, "%ld element objects are alive after the container is gone", lf.live); }
    void canon(GraphHash &g, Hash &h) { h.mix(pat); h.mix(lo); h.mix(hi); for (int i = 0; i < N; i++) if (in[i]) h.mix(i); h.mix(ops > NODE / 2); g.root(raw); }
};
// two arrays of N elements: fills, single writes around every power of two, copies and moves; each array is a fill value and at most 3 written positions
template <int N> struct BigArr : World {
    typedef dstruct::Array<int, N> C; static constexpr bool kGlobals = false, kStrictAlloc = true; void *raw[2]; int w; struct M { int base, k, at[3], v[3]; } m[2];
    C &c(int s) { return *(C *)raw[s]; }
    static int pos(int i) { static const int t[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536, N / 2, N - 2, N - 1}; return t[i]; } static constexpr int NP = 16;
    void init() { for (int s = 0; s < 2; s++) { raw[s] = arenaAlloc(sizeof(C), BK_ROOT, 16); memset((void *)&m[s], 0, sizeof m[s]); m[s].base = 7 + s; LIB(new (raw[s]) C(m[s].base)); } w = 0; }
    int nops() { return 2 * NP + 6; }
    bool enabled(int o) { return o >= 2 * NP || (w < (N > 1000 ? 1 : 2) && pos(o / 2) < N); } const char *opflags(int o) { o -= 2 * NP; return o == 1 || o == 2 || o == 5 ? "C" : o == 3 || o == 4 ? "V" : ""; }
    void opname(int o, char *b, size_t z) { static const char *const nm[] = {"a = filled anew", "b = a", "b = C(a)", "b = move(a)", "b = C(move(a))", "a = a"}; if (o < 2 * NP) snprintf(b, z, "a[%d] = new value", pos(o / 2) - (o % 2 ? N : 0)); else snprintf(b, z, "%s", nm[o - 2 * NP]); }
    void apply(int o) {
        C &a = c(0), &b = c(1);
        if (o < 2 * NP) { int p = pos(o / 2), v = 100 + ++w; LIB(a[o % 2 ? p - N : p] = v); int i = 0; M &q = m[0]; while (i < q.k && q.at[i] != p) i++; if (i == q.k) q.k++; q.at[i] = p; q.v[i] = v; return; }
        switch (o - 2 * NP) {
        case 0: LIB(a.~C()); LIB(new ((void *)&a) C(m[0].base == 7 ? 9 : 7)); { int nb = m[0].base == 7 ? 9 : 7; memset((void *)&m[0], 0, sizeof m[0]); m[0].base = nb; } break;
        case 1: LIB(b = a); m[1] = m[0]; break; case 2: LIB(b.~C()); LIB(new ((void *)&b) C((const C &)a)); m[1] = m[0]; break;
        case 3: LIB(b = static_cast<C &&>(a)); m[1] = m[0]; break; case 4: LIB(b.~C()); LIB(new ((void *)&b) C(static_cast<C &&>(a))); m[1] = m[0]; break; // moved-from ints may keep their values or not: refilled
        case 5: { C &y = a; LIB(a = y); } break;
        }
        if (o == 2 * NP + 3 || o == 2 * NP + 4) { LIB(a.~C()); LIB(new ((void *)&a) C(7)); memset((void *)&m[0], 0, sizeof m[0]); m[0].base = 7; }
    }
    void check() { for (int s = 0; s < 2; s++) {
        C &x = c(s); const C &k = x; const M &q = m[s]; MC_CHECK("F", (int)lib([&] { return k.size(); }) == N && !lib([&] { return k.empty(); }), "size() or empty() is wrong");
        auto want = [&](int i) { for (int j = 0; j < q.k; j++) if (q.at[j] == i) return q.v[j]; return q.base; }; InLib g; int i = 0;
        for (auto it = k.begin(); it != k.end(); ++it, ++i) if (i >= N || *it != want(i)) { OutLib u; fail("F", "element %d of %c is wrong", i, 'a' + s); } if (i != N) { OutLib u; fail("F", "iteration ends after %d of %d", i, N); }
        for (i = 0; i < N; i++) if (k[i] != want(i) || x[i] != want(i) || k[i - N] != want(i) || x[i - N] != want(i)) { OutLib u; fail("F", "[%d] or [%d] of %c is wrong", i, i - N, 'a' + s); }
        if (k.front() != want(0) || k.back() != want(N - 1)) { OutLib u; fail("F", "front() or back() of %c is wrong", 'a' + s); }
        auto b = x.begin(), e = x.end(); for (int j = 0; j < NP; j++) { int p = pos(j); if (p < N && (!(b + p == e - (N - p)) || *(b + p) != want(p) || dstruct::distance(b, b + p) != p)) { OutLib u; fail("I", "begin+%d is wrong", p); } }
    } }
    void finish() { for (int s = 0; s < 2; s++) LIB(c(s).~C()); }
    void canon(GraphHash &g, Hash &h) { h.mix(w); for (int s = 0; s < 2; s++) { h.mix(m[s].base); for (int j = 0; j < m[s].k; j++) { h.mix(m[s].at[j]); h.mix(m[s].v[j]); } g.root(raw[s]); } }
};
// sorting and building of long ranges, once each
template <class H, int KIND> struct BigSort : World {
    static constexpr bool kGlobals = false, kStrictAlloc = true; int done;
    static int size(int o) { static const int z[] = {129, 1000, 33000, 70000}; return z[o / 4 % 4]; }
    static int val(int pat, int i, int n) { switch (pat) { case 0: return i; case 1: return n - i; case 2: return (int)((long long)i * 7919 % 70001); default: return i % 5; } }
    void init() { done = 0; } int nops() { return 32; } bool enabled(int) { return !done; } const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { static const char *const nm[] = {"rising", "falling", "scattered", "repeating"}; snprintf(b, z, "%s %d %s values", o < 16 ? "sort" : "build from", size(o), nm[o % 4]); }
    void apply(int o) {
        done = 1 + o; int n = size(o); std::vector<int> ref(n); for (int i = 0; i < n; i++) ref[i] = val(o % 4, i, n);
        int *a = (int *)arenaAlloc((n + 2) * 4, BK_BUF); a[0] = a[n + 1] = 0x5eed; for (int i = 0; i < n; i++) a[1 + i] = ref[i];
        dstruct::PrimitiveIterator<int> b(a + 1), e(a + 1 + n); bool bad = false; int cnt = n;
        if (o < 16) { LIB(H::sort(b, e)); } else LIB({ H h = H::build(b, e); cnt = (int)h.size(); int i = 1; for (auto it = h.begin(); it != h.end(); ++it, ++i) if (i > n || *it != a[i]) bad = true; });
        MC_CHECK("F", cnt == n && !bad, "the heap built from %d elements does not show the range", n); MC_CHECK("F", a[0] == 0x5eed && a[n + 1] == 0x5eed, "an element next to the range was changed");
        auto before = [](int x, int y) { return KIND ? x > y : x < y; };
        for (int i = 1; i <= n; i++) { int q = o < 16 ? i - 1 : i / 2; if (q >= 1 && before(a[i], a[q])) fail("F", "position %d of %d precedes position %d", i - 1, n, q - 1); }
        std::vector<int> got(a + 1, a + 1 + n); std::sort(got.begin(), got.end()); std::sort(ref.begin(), ref.end()); MC_CHECK("F", got == ref, "the range is not a permutation of the input any more");
        arenaFree(a, (n + 2) * 4, BK_BUF);
    }
    void check() {} void finish() {} void canon(GraphHash &g, Hash &h) { h.mix(done); }
};
template <class W> Job J(const char *n) { return Ops<W>::job(n); }
void mc::registerJobs(std::vector<Job> &v) {
    const int INF = 1 << 28;
    v.push_back(J<BigSeq<GVec<dstruct::Vector<int, TA>>, 70000, 10000, INF>>("vec"));
    v.push_back(J<BigSeq<GVec<dstruct::Vector<Own, TA>>, 70000, 35000, INF>>("vec_own")); v.push_back(J<BigSeq<GDeq<dstruct::DoubleEndedQueue<Own, 32, TA>>, 40000, 20000, 120000>>("deque32_own"));
    v.push_back(J<BigSeq<GSl<dstruct::SinglyLinkedList<Own, TA>>, 24000, 12000, 60000>>("slist_own")); v.push_back(J<BigSeq<GDl<dstruct::DoublyLinkedList<Own, TA>>, 24000, 12000, 60000>>("dlist_own"));
    v.push_back(J<BigSeq<GStk<dstruct::adapter::Stack<Own, dstruct::Vector<Own, TA>>>, 70000, 35000, INF>>("stack_own")); v.push_back(J<BigSeq<GQue<dstruct::adapter::Queue<Own, dstruct::DoubleEndedQueue<Own, 32, TA>>>, 20000, 10000, 100000>>("queue_own"));
    v.push_back(J<BigOrd<dstruct::Heap<Own, dstruct::less<Own>, TA>, 24007, 12000, 0, INF>>("heap_own")); v.push_back(J<BigOrd<dstruct::tree::BinarySearchTree<Own, dstruct::less<Own>, TA>, 3000, 1000, 2, 9000>>("bst_own"));
    v.push_back(J<BigOrd<dstruct::AVLTree<Own, dstruct::less<Own>, TA>, 24007, 12000, 3, 60000>>("avl_own"));
    v.push_back(J<BigArr<200>>("array200")); v.push_back(J<BigArr<300>>("array300")); v.push_back(J<BigArr<40000>>("array40000")); v.push_back(J<BigArr<70000>>("array70000"));
    v.push_back(J<BigSeq<GDeq<dstruct::DoubleEndedQueue<int, 32, TA>>, 40000, 20000, 120000>>("deque32"));
    v.push_back(J<BigSeq<GDeq<dstruct::DoubleEndedQueue<int, 300, TA>>, 70000, 35000, 140000>>("deque300"));
    v.push_back(J<BigSeq<GSl<dstruct::SinglyLinkedList<int, TA>>, 36000, 12000, 60000>>("slist"));
    v.push_back(J<BigSeq<GDl<dstruct::DoublyLinkedList<int, TA>>, 36000, 12000, 60000>>("dlist"));
    v.push_back(J<BigSeq<GStk<dstruct::adapter::Stack<int, dstruct::Vector<int, TA>>>, 70000, 35000, INF>>("stack"));
    v.push_back(J<BigSeq<GQue<dstruct::adapter::Queue<int, dstruct::DoubleEndedQueue<int, 32, TA>>>, 40000, 10000, 100000>>("queue"));
    v.push_back(J<BigSeq<GStr<dstruct::BasicString<char, TA>>, 70000, 10000, INF, true>>("string"));
    v.push_back(J<BigX<dstruct::MinStack<int, TA>, 70000, 35000, true>>("xstack_min"));
    v.push_back(J<BigX<dstruct::MaxStack<int, TA>, 70000, 35000, false>>("xstack_max"));
    v.push_back(J<BigSort<dstruct::Heap<int, dstruct::less<int>, TA>, 0>>("sort_min")); v.push_back(J<BigSort<dstruct::Heap<int, dstruct::greater<int>, TA>, 1>>("sort_max"));
    v.push_back(J<BigOrd<dstruct::Heap<int, dstruct::less<int>, TA>, 36007, 12000, 0, INF>>("heap_min"));
    v.push_back(J<BigOrd<dstruct::Heap<int, dstruct::greater<int>, TA>, 36007, 12000, 1, INF>>("heap_max"));
    v.push_back(J<BigOrd<dstruct::tree::BinarySearchTree<int, dstruct::less<int>, TA>, 36007, 12000, 2, 60000>>("bst"));
    v.push_back(J<BigOrd<dstruct::tree::BinarySearchTree<int, dstruct::less<int>, TA>, 3000, 1000, 2, 9000>>("bst_chain"));
    v.push_back(J<BigOrd<dstruct::AVLTree<int, dstruct::less<int>, TA>, 36007, 12000, 3, 60000>>("avl"));
    v.push_back(J<BigOrd<dstruct::Map<int, int>, 36007, 12000, 4, 60000>>("map"));
}
