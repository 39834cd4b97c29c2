// Separate objects: whatever is done to one container or pool, the others show what they showed before.
#include <tuple>
#include <dstruct.hpp>
#include <memory/StaticMemAllocator.hpp>
#include "mix.hpp"
using namespace mc;
typedef TrackAlloc TA;
struct NoPool { static int free_mem_size() { return 0; } static int max_free_mblock_size() { return 0; } static void memory_merge() {} static void dump() {} };
struct PS { typedef NoPool SMA; static constexpr bool FRAG = false, STRICT = true, SEP = true, CROSS = true; static void prepare() {} static void fragment() {} static constexpr int bound = 0; static const char *name(int i) { static const char *n[] = {"first", "second", "third", "fourth"}; return n[i]; } };
struct PM : PS { static constexpr bool STRICT = false; };
typedef SeqComp<dstruct::Vector<Tk, TA>, Tk, 4, 1, 0> Vec; typedef SeqComp<dstruct::Vector<int>, int, 4, 1, 0> VecI;
typedef SeqComp<dstruct::DoubleEndedQueue<Tk, 2, TA>, Tk, 5, 2, 4> Dq; typedef SeqComp<dstruct::DoubleEndedQueue<Tk, 1, TA>, Tk, 4, 2, 4> Dq1; typedef SeqComp<dstruct::DoubleEndedQueue<int, 2>, int, 5, 2, 4> DqI;
typedef SeqComp<dstruct::SLinkedList<Tk, TA>, Tk, 3, 2, 1> Sl; typedef SeqComp<dstruct::DLinkedList<Tk, TA>, Tk, 3, 2, 4> Dl; typedef SeqComp<dstruct::SLinkedList<int>, int, 3, 2, 1> SlI; typedef SeqComp<dstruct::DLinkedList<int>, int, 3, 2, 4> DlI;
typedef SeqComp<dstruct::Stack<Tk, TA>, Tk, 3, 1, 2> Stk; typedef SeqComp<dstruct::adapter::Queue<Tk, dstruct::DoubleEndedQueue<Tk, 2, TA>>, Tk, 4, 1, 2, false> Que;
typedef HeapComp<dstruct::MinHeap<Tk, TA>, Tk, 4, true> Mn; typedef HeapComp<dstruct::MaxHeap<Tk, TA>, Tk, 4, false> Mx; typedef HeapComp<dstruct::Heap<int, RankLess<int>>, int, 4, true> HI;
typedef XStackComp<dstruct::MinStack<Tk, TA>, Tk, 3, true> Mi; typedef XStackComp<dstruct::MaxStack<Tk, TA>, Tk, 3, false> Ma;
typedef TreeComp<dstruct::BSTree<Tk, TA>, Tk, 4> Bst; typedef TreeComp<dstruct::AVLTree<Tk, dstruct::less<Tk>, TA>, Tk, 5> Avl; typedef TreeComp<dstruct::Map<Tk, Tk>, Tk, 4, true> Mp; typedef TreeComp<dstruct::Map<int, int, RankLess<int>>, int, 4, true> MpI;
typedef StrComp<dstruct::String, 4> Str; typedef DsuComp<dstruct::DisjointSet<TA>, 5> Uf; typedef DsuComp<dstruct::DisjointSet<TA>, 4> Uf4; typedef ArrComp<dstruct::Array<dstruct::Vector<Tk, TA>, 2>, dstruct::Vector<Tk, TA>, Tk, 2, 3> Arr;

typedef RankState<Tk> RS; template <int R> using HpS = Stateful<HeapComp<dstruct::Heap<Tk, RS, TA>, Tk, 4, R == 0>, R>; template <int R> using XsS = Stateful<XStackComp<dstruct::stack::XValueStack<Tk, RS, dstruct::adapter::Stack<Tk, dstruct::Vector<Tk, TA>>>, Tk, 3, R == 0>, R>;
template <int R> using BstS = TreeComp<dstruct::tree::BinarySearchTree<Tk, RS, TA>, Tk, 4, false, R>; template <int R> using AvlS = TreeComp<dstruct::AVLTree<Tk, RS, TA>, Tk, 5, false, R>;
// Three static pools of different configurations.
struct Pools : World {
    typedef dstruct::StaticMemAllocator<64, 16> P0; typedef dstruct::StaticMemAllocator<64, 32> P1; typedef dstruct::StaticMemAllocator<48, 16> P2;
    static constexpr bool kGlobals = true, kStrictAlloc = true; static constexpr int NP = 3, NZ = 3, MAXH = 4;
    static constexpr int SZ[3] = {64, 64, 48}, Z[3] = {8, 24, 40};
    struct H { char *p; int z; u8 pat; }; SV<H, MAXH + 1> h[NP];
    template <class Fn> static auto on(int i, Fn fn) { return i == 0 ? fn((P0 *)0) : i == 1 ? fn((P1 *)0) : fn((P2 *)0); }
    static void *alloc(int i, int z) { return on(i, [&](auto *q) { return lib([&] { return std::remove_pointer<decltype(q)>::type::allocate(z); }); }); }
    static bool release(int i, void *p, int z) { return on(i, [&](auto *q) { return lib([&] { return std::remove_pointer<decltype(q)>::type::deallocate(p, z); }); }); }
    static void merge(int i) { on(i, [&](auto *q) { LIB(std::remove_pointer<decltype(q)>::type::memory_merge()); return 0; }); }
    static int freeOf(int i) { return on(i, [&](auto *q) { return lib([&] { return std::remove_pointer<decltype(q)>::type::free_mem_size(); }); }); }
    static int maxOf(int i) { return on(i, [&](auto *q) { return lib([&] { return std::remove_pointer<decltype(q)>::type::max_free_mblock_size(); }); }); }
    void init() { for (auto &x : h) x.clear(); }
    static constexpr int PER = NZ + MAXH + 1;
    int nops() { return NP * PER; }
    bool enabled(int o) { int i = o / PER, k = o % PER; if (k < NZ) return h[i].n < MAXH; k -= NZ; return k >= MAXH || k < h[i].n; }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t n) { int i = o / PER, k = o % PER; if (k < NZ) snprintf(b, n, "pool %d: allocate(%d)", i, Z[k]); else if (k < NZ + MAXH) snprintf(b, n, "pool %d: release block %d", i, k - NZ); else snprintf(b, n, "pool %d: merge", i); }
    void others(int i, const int *f, const int *mx) {
        for (int q = 0; q < NP; q++) if (q != i) { int a = freeOf(q), b = maxOf(q); MC_CHECK("Y", a == f[q], "an operation on pool %d changed the free size of pool %d from %d to %d", i, q, f[q], a); MC_CHECK("Y", b == mx[q], "an operation on pool %d changed the largest block of pool %d from %d to %d", i, q, mx[q], b);
            for (const H &x : h[q]) for (int k = 0; k < x.z; k++) MC_CHECK("Y", (u8)x.p[k] == x.pat, "an operation on pool %d overwrote a block of pool %d", i, q); }
    }
    void apply(int o) {
        int i = o / PER, k = o % PER, f[NP], mx[NP]; for (int q = 0; q < NP; q++) { f[q] = freeOf(q); mx[q] = maxOf(q); }
        if (k < NZ) { char *p = (char *)alloc(i, Z[k]); if (p) { for (int q = 0; q < NP; q++) if (q != i) for (const H &x : h[q]) MC_CHECK("Y", p + Z[k] <= x.p || p >= x.p + x.z, "pool %d hands out memory held from pool %d", i, q); u8 pat = 0x31 + i * 16 + h[i].n; memset(p, pat, Z[k]); int at = 0; while (at < h[i].n && h[i][at].p < p) at++; h[i].insert(at, H{p, Z[k], pat}); } }
        else if (k < NZ + MAXH) { H x = h[i][k - NZ]; memset(x.p, 0xDD, x.z); h[i].erase(k - NZ); release(i, x.p, x.z); }
        else merge(i);
        others(i, f, mx);
        for (int q = 0; q < NP; q++) for (int a = 0; a < h[q].n; a++) { u8 pat = 0x31 + q * 16 + a; H &x = h[q][a]; memset(x.p, pat, x.z); x.pat = pat; }
    }
    void check() {}
    void finish() { for (int i = 0; i < NP; i++) while (h[i].n) { H x = h[i][h[i].n - 1]; h[i].pop_back(); int f[NP], mx[NP]; for (int q = 0; q < NP; q++) { f[q] = freeOf(q); mx[q] = maxOf(q); } release(i, x.p, x.z); merge(i); others(i, f, mx); } }
    void canon(GraphHash &g, Hash &hh) { for (int i = 0; i < NP; i++) { hh.mix(h[i].n); for (const H &x : h[i]) { hh.mix(x.z); hh.mix((u64)x.p); } } g.bytes((void *)gBegin(), gSize()); }
};
constexpr int Pools::SZ[3], Pools::Z[3];
#ifndef PART
#define PART 0
#endif
template <class P, class... Cs> static void sep(std::vector<Job> &v, const char *n) { v.push_back(mixJob<MixWorld<P, Cs...>>(n)); }
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    sep<PS, Vec, Vec>(v, "vec_vec"); sep<PM, VecI, Vec>(v, "veci_vec"); sep<PS, Dq, Dq>(v, "deque_deque"); sep<PM, DqI, Dq1>(v, "dequei_deque1"); sep<PS, Sl, Sl>(v, "slist_slist"); sep<PS, Dl, Dl>(v, "dlist_dlist"); sep<PM, SlI, DlI>(v, "slist_dlist_int"); sep<PS, Sl, Dl>(v, "slist_dlist");
    sep<PS, Stk, Que>(v, "stack_queue"); sep<PS, Que, Que>(v, "queue_queue"); sep<PS, Stk, Stk>(v, "stack_stack"); sep<PM, Str, Str>(v, "string_string"); sep<PS, Arr, Vec>(v, "array_vec");
    v.push_back(Ops<Pools>::job("pools"));
#endif
#if PART == 0 || PART == 2
    sep<PS, Mn, Mn>(v, "heap_heap"); sep<PS, Mn, Mx>(v, "min_max_heap"); sep<PM, HI, Mn>(v, "heapi_heap"); sep<PS, Mi, Ma>(v, "min_max_stack"); sep<PS, Mi, Mi>(v, "xstack_xstack"); sep<PS, Bst, Bst>(v, "bst_bst"); sep<PS, Avl, Avl>(v, "avl_avl"); sep<PS, Bst, Avl>(v, "bst_avl");
    sep<PM, Mp, Mp>(v, "map_map"); sep<PM, MpI, Mp>(v, "mapi_map"); sep<PM, Mp, Avl>(v, "map_avl"); sep<PS, HpS<0>, HpS<1>>(v, "heap_two_orders"); sep<PS, XsS<0>, XsS<1>>(v, "xstack_two_orders"); sep<PS, BstS<0>, BstS<1>>(v, "bst_two_orders"); sep<PS, AvlS<1>, AvlS<0>>(v, "avl_two_orders");
    sep<PS, Uf, Uf4>(v, "dsu_dsu"); sep<PS, Vec, Dq, Sl>(v, "vec_deque_slist"); sep<PS, Dl, Mn, Mi>(v, "dlist_heap_minstack"); sep<PM, Mp, Str, Vec>(v, "map_string_vec");
#endif
}
