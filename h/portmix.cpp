// Default-allocator containers when static memory is the default: every allocation goes through the port,
// while other users of the pool keep cutting its free memory into small pieces.
#define ENABLE_SMA
#include <tuple>
#include <dstruct.hpp>
#include "mix.hpp"
using namespace mc;
struct PD {
    typedef dstruct::port::DefaultSMA SMA; static constexpr int bound = 4096, TOTAL = 1024 * 1024, TAIL = 4096; static constexpr bool FRAG = true;
    static const char *name(int i) { static const char *n[] = {"first", "second", "third"}; return n[i]; }
    static void prepare() {
        char *p = (char *)lib([&] { return dstruct::port::allocate(TOTAL - TAIL); }); MC_CHECK("P", p, "the port returns no memory from a fresh pool");
        machp()->skipLo = ((u64)p + 512) & ~63ull; machp()->skipHi = ((u64)p + TOTAL - TAIL - 512) & ~63ull;
        fragment();
    }
    static void fragment() { void *q[TAIL / 48]; int n = 0; InLib g; while (n < TAIL / 48) { q[n] = SMA::allocate(48); if (!q[n]) break; n++; } for (int i = 0; i < n; i += 2) SMA::deallocate(q[i], 48); for (int i = 1; i < n; i += 2) SMA::deallocate(q[i], 48); }
};
typedef SeqComp<dstruct::Vector<Tk>, Tk, 5, 1, 0> Vec; typedef SeqComp<dstruct::Deque<Tk, 2>, Tk, 4, 2, 4> Deq; typedef SeqComp<dstruct::Deque<int>, int, 2, 2, 4> Deq32;
typedef SeqComp<dstruct::SLinkedList<Tk>, Tk, 3, 2, 1> Sl; typedef SeqComp<dstruct::DLinkedList<Tk>, Tk, 3, 2, 4> Dl;
typedef SeqComp<dstruct::Stack<Tk>, Tk, 3, 1, 2> Stk; typedef SeqComp<dstruct::Queue<Tk>, Tk, 3, 1, 2, false> Que;
typedef HeapComp<dstruct::MinHeap<Tk>, Tk, 4, true> Hp; typedef HeapComp<dstruct::PriorityQueue<int, RankGreater<int>>, int, 3, false> Pq;
typedef XStackComp<dstruct::MinStack<Tk>, Tk, 3, true> Mi; typedef TreeComp<dstruct::BSTree<Tk>, Tk, 3> Bst; typedef StrComp<dstruct::String, 4> Str;
typedef TreeComp<dstruct::AVLTree<Tk, dstruct::less<Tk>, dstruct::Alloc>, Tk, 4> Avl; typedef TreeComp<dstruct::Map<Tk, Tk>, Tk, 3, true> Mp;
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(mixJob<MixWorld<PD, Vec, Str>>("port_vec_str"));
    v.push_back(mixJob<MixWorld<PD, Deq, Sl>>("port_deq_sl"));
    v.push_back(mixJob<MixWorld<PD, Dl, Mi>>("port_dl_minst"));
    v.push_back(mixJob<MixWorld<PD, Stk, Que>>("port_stack_queue"));
#endif
#if PART == 0 || PART == 2
    v.push_back(mixJob<MixWorld<PD, Mp, Hp>>("port_map_heap"));
    v.push_back(mixJob<MixWorld<PD, Avl, Pq>>("port_avl_pq"));
    v.push_back(mixJob<MixWorld<PD, Bst, Deq32>>("port_bst_deq32"));
#endif
}
