// Element types of every kind the other worlds leave out: one byte, two bytes, three bytes without alignment, floating point, 64-bit extremes,
// pointers, aggregates, strings.  Small alphabets, every history.
#include <dstruct.hpp>
#include "mc.hpp"
#include <climits>
#include <string>
#include <vector>
using namespace mc;
typedef TrackAlloc TA;
typedef signed char S8; typedef unsigned char U8; typedef short S16; typedef long long S64; typedef unsigned long long U64; typedef const char *PC;
struct P3 { u8 b[3]; friend bool operator<(const P3 &a, const P3 &b) { return a.b[2] < b.b[2]; } friend bool operator>(const P3 &a, const P3 &b) { return b < a; } };
struct P333 { u8 b[333]; friend bool operator<(const P333 &a, const P333 &b) { return a.b[332] < b.b[332]; } friend bool operator>(const P333 &a, const P333 &b) { return b < a; } };
struct P12 { int k; float x; char c, pad[3]; friend bool operator<(const P12 &a, const P12 &b) { return a.x < b.x; } friend bool operator>(const P12 &a, const P12 &b) { return b < a; } };
enum class En : short { A = -300, B = 5, C = 6, D = 32767 };
constexpr int A = 4; // values of each type, rising
template <class T> struct Ty;
template <> struct Ty<S8> { static S8 mk(int i) { static const S8 t[A] = {-128, -1, 0, 127}; return t[i]; } static bool eq(S8 a, S8 b) { return a == b; } };
template <> struct Ty<U8> { static U8 mk(int i) { static const U8 t[A] = {0, 127, 128, 255}; return t[i]; } static bool eq(U8 a, U8 b) { return a == b; } };
template <> struct Ty<bool> { static bool mk(int i) { return i & 1; } static bool eq(bool a, bool b) { return a == b; } };
template <> struct Ty<S16> { static S16 mk(int i) { static const S16 t[A] = {-32768, -1, 255, 32767}; return t[i]; } static bool eq(S16 a, S16 b) { return a == b; } };
template <> struct Ty<int> { static int mk(int i) { static const int t[A] = {INT_MIN, -2, 0, INT_MAX}; return t[i]; } static bool eq(int a, int b) { return a == b; } };
template <> struct Ty<unsigned> { static unsigned mk(int i) { static const unsigned t[A] = {0, 1, 0x80000000u, ~0u}; return t[i]; } static bool eq(unsigned a, unsigned b) { return a == b; } };
template <> struct Ty<S64> { static S64 mk(int i) { static const S64 t[A] = {LLONG_MIN, -(1ll << 32), 1ll << 32, LLONG_MAX}; return t[i]; } static bool eq(S64 a, S64 b) { return a == b; } };
template <> struct Ty<U64> { static U64 mk(int i) { static const U64 t[A] = {0, 1ull << 31, 1ull << 63, ~0ull}; return t[i]; } static bool eq(U64 a, U64 b) { return a == b; } };
template <> struct Ty<float> { static float mk(int i) { static const float t[A] = {-3e38f, -0.25f, 0.25f, 0.75f}; return t[i]; } static bool eq(float a, float b) { return a == b; } };
template <> struct Ty<double> { static double mk(int i) { static const double t[A] = {-1e300, -0.5, 0.125, 0.875}; return t[i]; } static bool eq(double a, double b) { return a == b; } };
template <> struct Ty<PC> { static PC mk(int i) { static const char t[A] = {}; return t + i; } static bool eq(PC a, PC b) { return a == b; } };
template <> struct Ty<En> { static En mk(int i) { static const En t[A] = {En::A, En::B, En::C, En::D}; return t[i]; } static bool eq(En a, En b) { return a == b; } };
template <> struct Ty<P3> { static P3 mk(int i) { P3 p; p.b[0] = 200 - i; p.b[1] = 7; p.b[2] = 50 * i; return p; } static bool eq(const P3 &a, const P3 &b) { return !memcmp(&a, &b, 3); } };
template <> struct Ty<P333> { static P333 mk(int i) { P333 p; for (int k = 0; k < 333; k++) p.b[k] = k * 7 + i; p.b[332] = 60 * i; return p; } static bool eq(const P333 &a, const P333 &b) { return !memcmp(&a, &b, 333); } };
template <> struct Ty<P12> { static P12 mk(int i) { P12 p; memset(&p, 0, sizeof p); p.k = -i; p.x = i * 0.25f; p.c = (char)(120 + i * 20); return p; } static bool eq(const P12 &a, const P12 &b) { return a.k == b.k && a.x == b.x && a.c == b.c; } };
template <class T> static int idx(const T &v) { for (int i = 0; i < A; i++) if (Ty<T>::eq(v, Ty<T>::mk(i))) return i; return -1; } // -1: none of the values
template <class T> static int same(const T &v, int i) { return Ty<T>::eq(v, Ty<T>::mk(i)); }

enum { KV, KD, KL, KS, KSK, KQ };
template <int K, class C> struct Caps { static constexpr bool pb = true, pf = K == KD || K == KL || K == KS, ob = K != KS && K != KQ, of = K == KD || K == KL || K == KS || K == KQ, cl = K != KQ, ix = K == KV || K == KD, wr = K == KV, rz = K == KV; };
// one sequence of at most N elements out of A values
template <class T, class C, int K, int N, bool STRICT = true> struct TSeq : World {
    typedef Caps<K, C> Cp; static constexpr bool kGlobals = false, kStrictAlloc = STRICT;
    enum { PB = 0, PF = A, WR = 2 * A, RZ = 3 * A, OB = 4 * A, OF, CL, CP, MV, NOPS };
    void *raw; SV<int, N + 2> m; C &c() { return *(C *)raw; }
    void init() { raw = arenaAlloc(sizeof(C), BK_ROOT, 16); LIB(new (raw) C()); m.clear(); }
    int nops() { return NOPS; }
    bool enabled(int o) { if ((K == KD || K == KQ) && o < OB && o % A % 3) return false; if (o < PF) return m.n < N; if (o < WR) return Cp::pf && m.n < N; if (o < RZ) return Cp::wr && m.n; if (o < OB) return Cp::rz; switch (o) { case OB: return Cp::ob && m.n; case OF: return Cp::of && m.n; case CL: return Cp::cl; default: return true; } }
    const char *opflags(int o) { return o == CP ? "C" : o == MV ? "V" : ""; }
    void opname(int o, char *b, size_t z) { static const char *const nm[] = {"push_back", "push_front", "write the last with", "resize to one more with"}, *const nn[] = {"pop_back", "pop_front", "clear", "copied and assigned back", "moved and moved back"}; if (o < OB) snprintf(b, z, "%s value %d", nm[o / A], o % A); else snprintf(b, z, "%s", nn[o - OB]); }
    void apply(int o) {
        C &x = c(); int k = o % A; std::vector<T> tmp(1, Ty<T>::mk(o < OB ? k : 0)); const T v = o < OB ? (T)tmp[0] : Ty<T>::mk(0);
        if (o < PF) { if constexpr (K == KSK || K == KQ) LIB(x.push(v)); else LIB(x.push_back(v)); m.push_back(k); }
        else if (o < WR) { if constexpr (Cp::pf) LIB(x.push_front(v)); m.insert(0, k); }
        else if (o < RZ) { if constexpr (Cp::wr) LIB(x[-1] = v); m[m.n - 1] = k; }
        else if (o < OB) { int n = m.n < N ? m.n + 1 : 1; if constexpr (Cp::rz) LIB(x.resize(n, v)); while (m.n > n) m.pop_back(); while (m.n < n) m.push_back(k); }
        else switch (o) {
        case OB: if constexpr (K == KSK) LIB(x.pop()); else if constexpr (Cp::ob) LIB(x.pop_back()); m.pop_back(); break;
        case OF: if constexpr (K == KQ) LIB(x.pop()); else if constexpr (Cp::of) LIB(x.pop_front()); m.erase(0); break;
        case CL: if constexpr (Cp::cl) LIB(x.clear()); m.clear(); break;
        case CP: LIB({ C y(x); if constexpr (K == KSK || K == KQ) x.push(v); else x.push_back(v); x = y; }); break;
        case MV: LIB({ C y(static_cast<C &&>(x)); x = static_cast<C &&>(y); }); break;
        }
    }
    void check() {
        C &x = c(); const C &k = x; int n = m.n; long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == n, "size() is %lld, expected %d", z, n); MC_CHECK("F", lib([&] { return k.empty(); }) == (n == 0), "empty() is wrong with %d elements", n);
        auto walk = [&](auto &q, const char *w) { int i = 0; InLib g; for (auto it = q.begin(); it != q.end(); ++it, ++i) { OutLib u; MC_CHECK("FI", i < n, "%s goes on after %d elements", w, n); MC_CHECK("F", same<T>(*it, m[i]), "%s: element %d is value %d, expected %d", w, i, idx<T>(*it), m[i]); } OutLib u; MC_CHECK("FI", i == n, "%s ends after %d of %d elements", w, i, n); };
        walk(k, "const iteration"); walk(x, "iteration"); if (!n) return;
        auto one = [&](const T &v, int i, const char *w) { MC_CHECK("F", same<T>(v, m[i]), "%s is value %d, expected %d", w, idx<T>(v), m[i]); };
        if constexpr (K == KSK) { InLib g; T v = k.top(); OutLib u; one(v, n - 1, "top()"); }
        else { { InLib g; T v = k.front(); OutLib u; one(v, 0, "front()"); } { InLib g; T v = k.back(); OutLib u; one(v, n - 1, "back()"); } }
        if constexpr (Cp::ix) for (int i = 0; i < n; i++) { { InLib g; T v = k[i]; OutLib u; one(v, i, "[i]"); } { InLib g; T v = k[i - n]; OutLib u; one(v, i, "[i - n]"); } }
    }
    void finish() { LIB(c().~C()); }
    void canon(GraphHash &g, Hash &h) { for (int v : m) h.mix(v + 1); g.root(raw); }
};
// ordered containers
enum { OH, OHX, OX, OXX, OB, OA, OM };
template <class T, class C, int K, bool STRICT = true, class V = int> struct TOrd : World {
    static constexpr bool kGlobals = false, kStrictAlloc = STRICT, HEAP = K <= OHX, STK = K == OX || K == OXX, SET = K >= OB, MAP = K == OM; static constexpr int N = SET ? A : 5;
    enum { PU = 0, PO = A, WR = 2 * A, CL = 2 * A + A, CP, MV, NOPS };
    void *raw; SV<int, N + 2> m; int val[A]; C &c() { return *(C *)raw; }
    static bool before(int a, int b) { return K == OHX || K == OXX ? a > b : a < b; }
    void init() { raw = arenaAlloc(sizeof(C), BK_ROOT, 16); LIB(new (raw) C()); m.clear(); for (int i = 0; i < A; i++) val[i] = 0; }
    int nops() { return NOPS; }
    bool has(int k) { for (int v : m) if (v == k) return true; return false; }
    bool enabled(int o) { if (o < PO) return m.n < N && !(SET && has(o)); if (o < WR) return SET || (o == PO && m.n); if (o < CL) return MAP; if (o == CL) return !HEAP; return true; }
    const char *opflags(int o) { return o == CP ? "C" : o == MV ? "V" : ""; }
    void opname(int o, char *b, size_t z) { static const char *const nn[] = {"clear", "copied and assigned back", "moved and moved back"}; if (o < PO) snprintf(b, z, "push value %d", o); else if (o < WR) snprintf(b, z, SET ? "pop value %d" : "pop", o - PO); else if (o < CL) snprintf(b, z, "[value %d] = next", o - WR); else snprintf(b, z, "%s", nn[o - CL]); }
    void put(int k) { int i = m.n; if (SET) { i = 0; while (i < m.n && m[i] < k) i++; } m.insert(i, k); }
    void drop(int k) { for (int i = 0; i < m.n; i++) if (m[i] == k) { m.erase(i); return; } }
    int best() { int b = m[0]; for (int v : m) if (before(v, b)) b = v; return b; }
    void apply(int o) {
        C &x = c(); const T v = Ty<T>::mk(o < CL ? o % A : 0); int k = o % A;
        if (o < PO) { if constexpr (MAP) { const typename C::KeyValueType kv(v, Ty<V>::mk(0)); LIB(x.push(kv)); val[k] = 0; } else LIB(x.push(v)); put(k); }
        else if (o < WR) { if constexpr (SET) { LIB(x.pop(v)); drop(k); } else { LIB(x.pop()); if (STK) m.pop_back(); else drop(best()); } }
        else if (o < CL) { if constexpr (MAP) { if (!has(k)) { put(k); val[k] = 0; } val[k] = (val[k] + 1) % A; const V w = Ty<V>::mk(val[k]); LIB(x[v] = w); } }
        else if (o == CL) { if constexpr (!HEAP) LIB(x.clear()); m.clear(); }
        else if (o == CP) { LIB({ C y(x); x = y; }); }
        else { LIB({ C y(static_cast<C &&>(x)); x = static_cast<C &&>(y); }); }
    }
    void check() {
        C &x = c(); const C &k = x; int n = m.n; MC_CHECK("F", lib([&] { return k.empty(); }) == (n == 0), "empty() is wrong with %d elements", n);
        if constexpr (!STK) { long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == n, "size() is %lld, expected %d", z, n); }
        int cnt[A] = {}, i = 0; { InLib g; for (auto it = k.begin(); it != k.end(); ++it, ++i) { OutLib u; MC_CHECK("F", i < n, "iteration goes on after %d elements", n); int w;
            if constexpr (MAP) { w = idx<T>(it->key); MC_CHECK("F", w == m[i], "element %d has key %d, expected %d", i, w, m[i]); MC_CHECK("F", same<V>(it->value, val[w]), "key %d has value %d, expected %d", w, idx<V>(it->value), val[w]); }
            else { w = idx<T>(*it); if (!HEAP) MC_CHECK("F", w == m[i], "element %d is value %d, expected %d", i, w, m[i]); MC_CHECK("F", w >= 0, "element %d is none of the values pushed", i); } cnt[w]++; } }
        MC_CHECK("F", i == n, "iteration ends after %d of %d elements", i, n); for (int v : m) cnt[v]--; for (int v = 0; v < A; v++) MC_CHECK("F", cnt[v] == 0, "value %d is shown %+d times too often", v, cnt[v]);
        if constexpr (STK) if (n) { InLib g; T t = k.top(), e = k.getXValue(); OutLib u; MC_CHECK("F", same<T>(t, m[n - 1]), "top() is value %d, expected %d", idx<T>(t), m[n - 1]); MC_CHECK("F", same<T>(e, best()), "the extreme value is %d, expected %d", idx<T>(e), best()); }
        if constexpr (HEAP) if (n) probe([&] { while (m.n) { InLib g; T t = k.top(); OutLib u; MC_CHECK("F", same<T>(t, best()), "top() is value %d, expected %d", idx<T>(t), best()); LIB(x.pop()); drop(best()); } MC_CHECK("F", lib([&] { return k.empty(); }), "not empty after as many pops as pushes"); });
        if constexpr (SET) for (int v = 0; v < A; v++) { const T q = Ty<T>::mk(v); bool f; { InLib g; f = !(k.find(q) == k.end()); } MC_CHECK("F", f == has(v), "find(value %d) is wrong", v); }
    }
    void finish() { LIB(c().~C()); }
    void canon(GraphHash &g, Hash &h) { for (int v : m) h.mix(v + 1 + 16 * (MAP ? val[v] : 0)); g.root(raw); }
};
template <class T, int SORT> struct TSort : World { // every sequence of at most 5 values is sorted, and built into a heap
    static constexpr bool kGlobals = false, kStrictAlloc = true; SV<int, 8> m; void init() { m.clear(); } int nops() { return A; } bool enabled(int) { return m.n < 5; } const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { snprintf(b, z, "append value %d", o); } void apply(int o) { m.push_back(o); }
    void check() {
        typedef typename std::conditional<SORT == 0, dstruct::less<T>, dstruct::greater<T>>::type Cmp; typedef dstruct::Heap<T, Cmp, TA> H; T a[8]; for (int mode = 0; mode < 2; mode++) {
            for (int i = 0; i < m.n; i++) a[i] = Ty<T>::mk(m[i]); dstruct::PrimitiveIterator<T> b(a), e(a + m.n); if (mode == 0) { LIB(H::sort(b, e)); } else LIB({ H h = H::build(b, e); });
            int cnt[A] = {}; for (int i = 0; i < m.n; i++) { int w = idx<T>(a[i]); MC_CHECK("F", w >= 0, "element %d is none of the values given", i); cnt[w]++; int p = mode == 0 ? i - 1 : (i + 1) / 2 - 1; if (p >= 0) MC_CHECK("F", SORT == 0 ? idx<T>(a[p]) <= w : idx<T>(a[p]) >= w, "value %d at %d is before value %d at %d", idx<T>(a[p]), p, w, i); }
            for (int v : m) cnt[v]--; for (int v = 0; v < A; v++) MC_CHECK("F", cnt[v] == 0, "the range is not a permutation of the input");
        }
    }
    void finish() {} void canon(GraphHash &g, Hash &h) { for (int v : m) h.mix(v + 1); }
};
template <class T, int N> struct TArr : World {
    typedef dstruct::Array<T, N> C; static constexpr bool kGlobals = false, kStrictAlloc = true; int m[N]; void *raw; C &c() { return *(C *)raw; }
    void init() { raw = arenaAlloc(sizeof(C), BK_ROOT, 16); const T v = Ty<T>::mk(0); LIB(new (raw) C(v)); for (int i = 0; i < N; i++) m[i] = 0; }
    int nops() { return N * A + A + 2; } bool enabled(int) { return true; } const char *opflags(int o) { return o == N * A + A ? "C" : o > N * A + A ? "V" : ""; }
    void opname(int o, char *b, size_t z) { if (o < N * A) snprintf(b, z, "[%d] = value %d", o / A - (o / A % 2 ? N : 0), o % A); else if (o < N * A + A) snprintf(b, z, "filled with value %d", o % A); else snprintf(b, z, "copied or moved and back"); }
    void apply(int o) { C &x = c(); const T v = Ty<T>::mk(o % A); if (o < N * A) { int i = o / A; LIB(x[i % 2 ? i - N : i] = v); m[i] = o % A; } else if (o < N * A + A) { LIB({ C y(v); x = y; }); for (int i = 0; i < N; i++) m[i] = o % A; } else if (o == N * A + A) { LIB({ C y(x); x = C(v); x = y; }); } else { LIB({ C y(static_cast<C &&>(x)); x = static_cast<C &&>(y); }); } }
    void check() { C &x = c(); const C &k = x; InLib g; int i = 0; for (auto it = k.begin(); it != k.end(); ++it, ++i) { OutLib u; MC_CHECK("F", i < N && same<T>(*it, m[i]), "element %d is value %d", i, idx<T>(*it)); } OutLib u; MC_CHECK("F", i == N, "iteration ends after %d of %d", i, N); for (i = 0; i < N; i++) MC_CHECK("F", same<T>(k[i], m[i]) && same<T>(k[i - N], m[i]) && same<T>(x[i], m[i]), "[%d] is wrong", i); MC_CHECK("F", same<T>(k.front(), m[0]) && same<T>(k.back(), m[N - 1]), "front() or back() is wrong"); }
    void finish() { LIB(c().~C()); } void canon(GraphHash &g, Hash &h) { for (int v : m) h.mix(v); g.root(raw); }
};
struct Turn { int d = 0; bool operator()(int a, int b) const { return d ? a > b : a < b; } };
template <int MODE> struct TRange : World { // a search tree built from every sequence of at most 5 of 5 values, then one push or pop
    static constexpr int DIR = MODE > 0; typedef typename std::conditional<MODE == 0, dstruct::less<int>, typename std::conditional<MODE == 1, dstruct::greater<int>, Turn>::type>::type Cmp; typedef dstruct::tree::BinarySearchTree<int, Cmp, TA> C; static constexpr int V = 5;
    static constexpr bool kGlobals = false, kStrictAlloc = true; SV<int, 8> m; void *raw; void init() { m.clear(); raw = arenaAlloc(sizeof(C), BK_ROOT, 16); } int nops() { return V; } bool enabled(int) { return m.n < 5; } const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { snprintf(b, z, "append %d to the range", o); } void apply(int o) { m.push_back(o); }
    void holds(C &x, u32 set, const char *when) {
        const C &k = x; int n = __builtin_popcount(set); MC_CHECK("F", (int)lib([&] { return k.size(); }) == n && lib([&] { return k.empty(); }) == (n == 0), "size() or empty() is wrong %s", when);
        InLib g; int i = 0; for (auto it = k.begin(); it != k.end(); ++it) { while (i < V && !(set >> (DIR ? V - 1 - i : i) & 1)) i++; if (i >= V || *it != (DIR ? V - 1 - i : i)) { OutLib u; fail("F", "iteration is wrong %s", when); } i++; n--; }
        OutLib u; MC_CHECK("F", n == 0, "iteration ends early %s", when); for (int v = 0; v < V; v++) { bool f = lib([&] { return !(k.find(v) == k.end()); }); MC_CHECK("F", f == (set >> v & 1), "find(%d) is wrong %s", v, when); }
    }
    void check() {
        int *a = (int *)arenaAlloc(32, BK_BUF); u32 set = 0; for (int i = 0; i < m.n; i++) { a[i] = m[i]; set |= 1u << m[i]; }
        for (int o = -1; o < 2 * V; o++) {
            LIB({ dstruct::PrimitiveIterator<int> b(a), e(a + m.n); Cmp cmp; if constexpr (MODE == 2) cmp.d = 1; new (raw) C(b, e, cmp); }); C &x = *(C *)raw; for (int i = 0; i < m.n; i++) MC_CHECK("F", a[i] == m[i], "the range was changed");
            holds(x, set, "after construction from a range"); if (o >= V) { LIB(x.pop(o - V)); holds(x, set & ~(1u << (o - V)), "after pop"); } else if (o >= 0) { LIB(x.push(o)); holds(x, set | 1u << o, "after push"); }
            LIB(x.~C());
        }
        arenaFree(a, 32, BK_BUF);
    }
    void finish() {} void canon(GraphHash &g, Hash &h) { for (int v : m) h.mix(v + 1); }
};
template <class W> Job J(const std::string &n) { return Ops<W>::job(strdup(n.c_str())); }
template <class T> void seqs(std::vector<Job> &v, const std::string &t) {
    v.push_back(J<TSeq<T, dstruct::Vector<T, TA>, KV, 4>>("vec_" + t)); v.push_back(J<TSeq<T, dstruct::DoubleEndedQueue<T, 2, TA>, KD, 3>>("deque_" + t));
    v.push_back(J<TSeq<T, dstruct::SinglyLinkedList<T, TA>, KS, 4>>("slist_" + t)); v.push_back(J<TSeq<T, dstruct::DoublyLinkedList<T, TA>, KL, 4>>("dlist_" + t));
    v.push_back(J<TSeq<T, dstruct::adapter::Stack<T, dstruct::Vector<T, TA>>, KSK, 4>>("stack_" + t)); v.push_back(J<TSeq<T, dstruct::adapter::Queue<T, dstruct::DoubleEndedQueue<T, 3, TA>>, KQ, 3>>("queue_" + t));
    v.push_back(J<TArr<T, 3>>("array_" + t));
}
template <class T, class V> void ords(std::vector<Job> &v, const std::string &t) {
    using dstruct::less; using dstruct::greater; typedef dstruct::KeyValue<const T, V> KV_;
    v.push_back(J<TOrd<T, dstruct::Heap<T, less<T>, TA>, OH>>("heap_" + t)); v.push_back(J<TOrd<T, dstruct::Heap<T, greater<T>, TA>, OHX>>("heapx_" + t));
    v.push_back(J<TOrd<T, dstruct::MinStack<T, TA>, OX>>("xstack_min_" + t)); v.push_back(J<TOrd<T, dstruct::MaxStack<T, TA>, OXX>>("xstack_max_" + t));
    v.push_back(J<TOrd<T, dstruct::tree::BinarySearchTree<T, less<T>, TA>, OB>>("bst_" + t)); v.push_back(J<TOrd<T, dstruct::AVLTree<T, less<T>, TA>, OA>>("avl_" + t));
    v.push_back(J<TOrd<T, dstruct::Map<T, V, less<T>, dstruct::AVLTree<KV_, dstruct::KVCMPKey<KV_, less<T>>, TA>>, OM, true, V>>("map_" + t));
    v.push_back(J<TSort<T, 0>>("sort_" + t)); v.push_back(J<TSort<T, 1>>("sortx_" + t));
}
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    seqs<U8>(v, "u8"); seqs<S16>(v, "s16"); seqs<double>(v, "double"); seqs<P3>(v, "p3");
#endif
#if PART == 0 || PART == 2
    seqs<bool>(v, "bool"); seqs<S64>(v, "s64"); seqs<P12>(v, "p12"); seqs<PC>(v, "ptr"); seqs<P333>(v, "p333"); seqs<En>(v, "enum");
#endif
#if PART == 0 || PART == 3
    ords<U8, double>(v, "u8"); ords<double, U8>(v, "double"); ords<P3, P12>(v, "p3"); ords<S64, S16>(v, "s64"); ords<P333, P333>(v, "p333");
#endif
#if PART == 0 || PART == 4
    v.push_back(J<TRange<0>>("bst_range")); v.push_back(J<TRange<1>>("bst_range_greater")); v.push_back(J<TRange<2>>("bst_range_turn"));
    ords<S8, P3>(v, "s8"); ords<U64, S64>(v, "u64"); ords<P12, PC>(v, "p12"); ords<int, bool>(v, "int"); ords<float, En>(v, "float"); ords<unsigned, unsigned>(v, "unsigned");
#endif
}
