// What operations cost: amortised element copies and storage requests at the ends of the sequences. A state is the container
// together with the debt so far (cost minus credit, never below zero), so every interleaving is judged, not an average.
#include <dstruct.hpp>
#include "mc.hpp"
using namespace mc;
typedef TrackAlloc TA;
enum { CPB, CPF, COB, COF, CCL };
template <class TT, class CC> struct CT { typedef TT T; typedef CC C; static constexpr bool pf = false, of = false, pb = true, ob = true, cl = true; };
template <class T> struct VecC : CT<T, dstruct::Vector<T, TA>> { template <class C> static void op(C &c, int o, const T &x) { if (o == CPB) c.push_back(x); if (o == COB) c.pop_back(); if (o == CCL) c.clear(); } };
template <class T, int B> struct DeqC : CT<T, dstruct::DoubleEndedQueue<T, B, TA>> { static constexpr bool pf = true, of = true; template <class C> static void op(C &c, int o, const T &x) { switch (o) { case CPB: c.push_back(x); break; case CPF: c.push_front(x); break; case COB: c.pop_back(); break; case COF: c.pop_front(); break; default: c.clear(); } } };
template <class T> struct DlC : CT<T, dstruct::DoublyLinkedList<T, TA>> { static constexpr bool pf = true, of = true; template <class C> static void op(C &c, int o, const T &x) { switch (o) { case CPB: c.push_back(x); break; case CPF: c.push_front(x); break; case COB: c.pop_back(); break; case COF: c.pop_front(); break; default: c.clear(); } } };
template <class T> struct SlC : CT<T, dstruct::SinglyLinkedList<T, TA>> { static constexpr bool pf = true, of = true, ob = false; template <class C> static void op(C &c, int o, const T &x) { switch (o) { case CPB: c.push_back(x); break; case CPF: c.push_front(x); break; case COF: c.pop_front(); break; default: c.clear(); } } };
template <class T, class D> struct StC : CT<T, dstruct::adapter::Stack<T, D>> { template <class C> static void op(C &c, int o, const T &x) { if (o == CPB) c.push(x); if (o == COB) c.pop(); if (o == CCL) c.clear(); } };
template <class T, class D> struct QuC : CT<T, dstruct::adapter::Queue<T, D>> { static constexpr bool ob = false, of = true, cl = false; template <class C> static void op(C &c, int o, const T &x) { if (o == CPB) c.push(x); if (o == COF) c.pop(); } };
template <class T, class S> struct XsC : CT<T, S> { template <class C> static void op(C &c, int o, const T &x) { if (o == CPB) c.push(x); if (o == COB) c.pop(); if (o == CCL) c.clear(); } };
struct StrC : CT<char, dstruct::BasicString<char, TA>> { static constexpr bool ob = false; template <class C> static void op(C &c, int o, char x) { if (o == CPB) c.push_back(x); if (o == CCL) c.clear(); } };

// RUN: besides single operations, runs of RUN of them while few single ones were done (large sizes)
template <class Tr, int N, int CREDIT = 30, int RUN = 0, int WIG = 0> struct CostW : World {
    typedef typename Tr::C C; typedef typename Tr::T T;
    static constexpr bool kGlobals = false, kStrictAlloc = true;
    static constexpr int MAXDEBT = 256 + (Tr::of ? 40 : 12) * N;
    void *raw; int n, debt, wig;
    C &c() { return *(C *)raw; }
    void init() { raw = arenaAlloc(sizeof(C), BK_ROOT, 16); LIB(new (raw) C()); n = debt = wig = 0; Rank1(); }
    static void Rank1() { for (int i = 0; i < 4; i++) ranks().rank[i] = 0; }
    int nops() { return RUN ? 10 : 5; }
    bool enabled(int o) {
        int k = o >= 5 ? RUN : 1; o %= 5;
        if (RUN && k == 1 && wig >= WIG) return false;
        if (RUN && k > 1 && wig) return false;
        switch (o) { case CPB: return n + k <= N; case CPF: return Tr::pf && n + k <= N; case COB: return Tr::ob && n >= k; case COF: return Tr::of && n >= k; default: return Tr::cl && k == 1; }
    }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { static const char *const nm[] = {"push_back", "push_front", "pop_back", "pop_front", "clear"}; if (o >= 5) snprintf(b, z, "%d x %s", RUN, nm[o % 5]); else snprintf(b, z, "%s", nm[o]); }
    static T val() { if constexpr (std::is_same<T, char>::value) return 'x'; else return Val<T>::make(1); }
    void one(int o) {
        KState &k = ks(); k.events = 0; int nb = k.nblk;
        { T x = val(); k.events = 0; LIB(Tr::op(c(), o, x)); }
        u64 cost = k.events; for (int i = nb; i < k.nblk; i++) if (k.blk[i].kind == BK_ALLOC) cost += 4 + k.blk[i].size / 8;
        if (o == CPB || o == CPF) n++; else if (o == CCL) { n = 0; } else n--;
        long long d = (long long)debt + (long long)cost - CREDIT; if (d < 0) d = 0;
        if (getenv("MCDEBT")) { static long long mx = 0; if (d > mx) { mx = d; fprintf(stderr, "debt %lld n %d cost %llu\n", d, n, (unsigned long long)cost); } }
        debt = (int)d;
        if (debt > MAXDEBT) fail("K", "the operations so far cost %d more than %d per operation and %d for the storage (the last one cost %llu with %d elements)", debt - MAXDEBT, CREDIT, MAXDEBT, (unsigned long long)cost, n);
    }
    void apply(int o) { if (RUN && o < 5) wig++; for (int k = o >= 5 ? RUN : 1; k--;) one(o % 5); }
    void check() {}
    void finish() { LIB(c().~C()); }
    void canon(GraphHash &g, Hash &h) { h.mix(n); h.mix(debt); h.mix(wig); if (pv().canon[1] == CANON_STALE) canonId(1, 1); g.root(raw); }
};
template <class W> Job J(const char *n) { return Ops<W>::job(n); }
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(J<CostW<VecC<Tk>, 128>>("vec"));
    v.push_back(J<CostW<StC<Tk, dstruct::Vector<Tk, TA>>, 80>>("stack"));
    v.push_back(J<CostW<XsC<Tk, dstruct::MinStack<Tk, TA>>, 60, 60>>("minstack"));
    v.push_back(J<CostW<StrC, 160>>("string"));
    v.push_back(J<CostW<DeqC<Tk, 1>, 20, 100>>("deque1"));
    v.push_back(J<CostW<DeqC<Tk, 2>, 28, 100>>("deque2"));
    v.push_back(J<CostW<DeqC<Tk, 8>, 20, 80>>("deque8"));
    v.push_back(J<CostW<QuC<Tk, dstruct::DoubleEndedQueue<Tk, 2, TA>>, 80, 100>>("queue2"));
    v.push_back(J<CostW<DlC<Tk>, 24>>("dlist"));
    v.push_back(J<CostW<SlC<Tk>, 24>>("slist"));
    v.push_back(J<CostW<QuC<Tk, dstruct::DoublyLinkedList<Tk, TA>>, 24>>("queue_list"));
    v.push_back(J<CostW<VecC<Tk>, 2048, 30, 64, 8>>("vec_run"));
    v.push_back(J<CostW<StrC, 2048, 30, 64, 6>>("string_run"));
    v.push_back(J<CostW<DeqC<Tk, 2>, 96, 100, 16, 3>>("deque2_run"));
    v.push_back(J<CostW<QuC<Tk, dstruct::DoubleEndedQueue<Tk, 4, TA>>, 512, 60, 32, 8>>("queue4_run"));
}
