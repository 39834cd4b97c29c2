// Comparators and small utilities: a machine with three registers, every operation of the library as a
// transition, and the algebraic laws judged over the registers of every reachable state.
#include <climits>
#include <dstruct.hpp>
#include "ord.hpp"
using namespace mc;
// A domain: type T, N sample values at(i) (pairwise different, ascending), and whether neg/greater exist.
template <class T> struct NumDom;
template <> struct NumDom<int> { static constexpr int N = 7, lo = 1; static int at(int i) { static const int v[] = {INT_MIN, INT_MIN + 1, -7, 0, 1, INT_MAX - 1, INT_MAX}; return v[i]; } };
template <> struct NumDom<long long> { static constexpr int N = 9, lo = 1; static long long at(int i) { static const long long v[] = {LLONG_MIN, LLONG_MIN + 1, -(1ll << 33), -1, 0, 1, 1ll << 32, (1ll << 32) + 1, LLONG_MAX}; return v[i]; } };
template <> struct NumDom<signed char> { static constexpr int N = 6, lo = 1; static signed char at(int i) { static const signed char v[] = {-128, -127, -1, 0, 5, 127}; return v[i]; } };
template <> struct NumDom<unsigned> { static constexpr int N = 6, lo = 0; static unsigned at(int i) { static const unsigned v[] = {0u, 1u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}; return v[i]; } };
template <> struct NumDom<double> { static constexpr int N = 8, lo = 0; static double at(int i) { static const double v[] = {-1e300, -2.5, -0.5, 0.0, 0.25, 0.75, 3.0, 1e300}; return v[i]; } };
template <class T> struct NumReg : NumDom<T> {
    typedef T Type; static constexpr bool abs = true, mx = true, ptr = false, tracked = false; using NumDom<T>::at; using NumDom<T>::N;
    static T mk(int i) { return at(i); }
    static int ix(const T &v) { for (int i = 0; i < N; i++) if (at(i) == v) return i; return -1; }
};
// pointers into one array, and null (the least)
template <class T> struct PtrReg {
    typedef T *Type; static constexpr int N = 6, lo = 0; static constexpr bool abs = false, mx = false, ptr = true, tracked = false;
    static T *base() { static typename std::remove_const<T>::type b[64]; return b; }
    static T *at(int i) { static const int off[] = {0, 0, 1, 2, 31, 63}; return i == 0 ? nullptr : base() + off[i]; }
    static T *mk(int i) { return at(i); }
    static int ix(T *const &v) { for (int i = 0; i < N; i++) if (at(i) == v) return i; return -1; }
};
struct TkReg { // tracked objects: rank i + 1
    typedef Tk24 Type; static constexpr int N = 4, lo = 0; static constexpr bool abs = false, mx = true, ptr = false, tracked = true;
    static Tk24 mk(int i) { return Val<Tk24>::make(i + 1); }
    static int ix(const Tk24 &v) { int r = (int)Val<Tk24>::id(v); return r >= 1 && r <= N ? r - 1 : -1; }
};
enum { G_SET, G_SWAP, G_MOVE, G_MAX, G_ABS };
template <class D> struct AlgoWorld : World {
    typedef typename D::Type T; static constexpr bool kGlobals = false, kStrictAlloc = true; static constexpr int R = 3;
    struct Op { int code, a, b, c; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mkTab() {
        auto *v = new std::vector<Op>;
        for (int a = 0; a < R; a++) for (int i = 0; i < D::N; i++) v->push_back({G_SET, a, i, 0});
        for (int a = 0; a < R; a++) for (int b = 0; b < R; b++) { v->push_back({G_SWAP, a, b, 0}); if (a != b) v->push_back({G_MOVE, a, b, 0}); if (D::mx) for (int c = 0; c < R; c++) v->push_back({G_MAX, a, b, c}); if (D::abs) v->push_back({G_ABS, a, b, 0}); }
        tab() = v;
    }
    T *reg; int m[R];
    void init() { reg = (T *)arenaAlloc(sizeof(T) * R, BK_ROOT); for (int i = 0; i < R; i++) { new ((void *)(reg + i)) T(D::mk(0)); m[i] = 0; } for (int i = 0; i < RIDS; i++) Rank::of(i) = i; }
    int nops() { return (int)tab()->size(); }
    bool enabled(int o) { const Op &p = (*tab())[o]; return p.code != G_ABS || m[p.b] >= D::lo; }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t n) { const Op &p = (*tab())[o]; switch (p.code) { case G_SET: snprintf(b, n, "r%d = sample %d", p.a, p.b); break; case G_SWAP: snprintf(b, n, "swap(r%d, r%d)", p.a, p.b); break; case G_MOVE: snprintf(b, n, "r%d = move(r%d)", p.a, p.b); break; case G_MAX: snprintf(b, n, "r%d = max(r%d, r%d)", p.a, p.b, p.c); break; default: snprintf(b, n, "r%d = abs(r%d)", p.a, p.b); } }
    void apply(int o) {
        const Op p = (*tab())[o];
        switch (p.code) {
        case G_SET: reg[p.a] = D::mk(p.b); m[p.a] = p.b; break;
        case G_SWAP: { LIB(dstruct::swap(reg[p.a], reg[p.b])); int t = m[p.a]; m[p.a] = m[p.b]; m[p.b] = t; } break;
        case G_MOVE: { LIB(reg[p.a] = dstruct::move(reg[p.b])); m[p.a] = m[p.b];
            if constexpr (D::tracked) { MC_CHECK("F", *(u32 *)(reg + p.b) == MOVED, "move copies instead of moving"); reg[p.b] = D::mk(0); m[p.b] = 0; } } break;
        case G_MAX: if constexpr (D::mx) { const T &x = reg[p.b], &y = reg[p.c]; LIB(reg[p.a] = dstruct::max(x, y)); m[p.a] = m[p.b] > m[p.c] ? m[p.b] : m[p.c]; } break;
        case G_ABS: if constexpr (D::abs) { const T &x = reg[p.b]; T e = x; if (m[p.b] < 0) return; if (e < T(0)) e = (T)(T(0) - e); T g = lib([&] { return dstruct::abs(x); }); MC_CHECK("F", g == e && !(g < T(0)), "abs of sample %d is wrong", m[p.b]); int i = D::ix(e); if (i >= 0) { reg[p.a] = g; m[p.a] = i; } } break;
        }
        for (int i = 0; i < R; i++) if constexpr (D::tracked) { u32 id = Val<T>::id(reg[i]); MC_CHECK("F", (int)id == m[i] + 1, "register %d holds the wrong object", i); } else MC_CHECK("F", reg[i] == D::at(m[i]), "register %d holds a wrong value, expected sample %d", i, m[i]);
    }
    template <class Q> bool lt(const Q &q, int i, int k) { return lib([&] { return q(reg[i], reg[k]); }); }
    void check() {
        const dstruct::less<T> ls{}; const dstruct::greater<T> gr{};
        for (int i = 0; i < R; i++) {
            MC_CHECK("F", !lt(ls, i, i) && !lt(gr, i, i), "a value precedes itself");
            { T other = D::mk(m[i]); MC_CHECK("F", !lib([&] { return ls(reg[i], other); }) && !lib([&] { return ls(other, reg[i]); }) && !lib([&] { return gr(reg[i], other); }), "one of two equal values precedes the other"); }
            for (int k = 0; k < R; k++) {
                bool l = lt(ls, i, k), g = lt(gr, i, k);
                MC_CHECK("F", l == (m[i] < m[k]), "less(sample %d, sample %d) is %d", m[i], m[k], l);
                MC_CHECK("F", g == (m[i] > m[k]), "greater(sample %d, sample %d) is %d", m[i], m[k], g);
                MC_CHECK("F", lt(gr, k, i) == l && lt(ls, k, i) == g, "less and greater do not mirror each other on samples %d and %d", m[i], m[k]);
                MC_CHECK("F", !(l && lt(ls, k, i)), "less is not asymmetric");
                for (int q = 0; q < R; q++) {
                    if (lt(ls, i, k) && lt(ls, k, q)) MC_CHECK("F", lt(ls, i, q), "less is not transitive");
                    if (lt(gr, i, k) && lt(gr, k, q)) MC_CHECK("F", lt(gr, i, q), "greater is not transitive");
                    auto eq = [&](int a, int b) { return !lt(ls, a, b) && !lt(ls, b, a); };
                    if (eq(i, k) && eq(k, q)) MC_CHECK("F", eq(i, q), "incomparability under less is not transitive");
                }
            }
        }
    }
    void finish() { for (int i = 0; i < R; i++) reg[i].~T(); }
    void canon(GraphHash &, Hash &h) { for (int i = 0; i < R; i++) h.mix(m[i]); }
};
template <class D> Job aj(const char *n) { AlgoWorld<D>::mkTab(); return Ops<AlgoWorld<D>>::job(n); }
void mc::registerJobs(std::vector<Job> &v) {
    PtrReg<int>::base(); PtrReg<const int>::base(); PtrReg<double>::base(); Rank::tmp(); trace();
    v.push_back(aj<NumReg<int>>("int"));
    v.push_back(aj<NumReg<long long>>("longlong"));
    v.push_back(aj<NumReg<signed char>>("schar"));
    v.push_back(aj<NumReg<unsigned>>("unsigned"));
    v.push_back(aj<NumReg<double>>("double"));
    v.push_back(aj<PtrReg<int>>("ptr"));
    v.push_back(aj<PtrReg<const int>>("cptr"));
    v.push_back(aj<PtrReg<double>>("dptr"));
    v.push_back(aj<TkReg>("object"));
}
