// Every container alone, grown and shrunk in steps to some hundreds of elements, with copies and moves at every size.
#include <tuple>
#include <dstruct.hpp>
#include "mix.hpp"
using namespace mc;
typedef TrackAlloc TA;
struct NoPool { static int free_mem_size() { return 0; } static int max_free_mblock_size() { return 0; } static void memory_merge() {} static void dump() {} };
template <int ST, bool SA = true> struct RN { static constexpr bool STRICT = SA; typedef NoPool SMA; static constexpr bool FRAG = false; static void prepare() {} static void fragment() {} static constexpr int bound = 0, STEP = ST; static const char *name(int) { return "it"; } };
typedef SeqComp<dstruct::Vector<Tk, TA>, Tk, 320, 1, 0> Vec; typedef SeqComp<dstruct::Vector<int>, int, 320, 1, 0> VecI;
typedef SeqComp<dstruct::DoubleEndedQueue<Tk, 2, TA>, Tk, 320, 2, 4> D2; typedef SeqComp<dstruct::Deque<int>, int, 400, 2, 4> D32; typedef SeqComp<dstruct::DoubleEndedQueue<Tk, 8, TA>, Tk, 300, 2, 4> D8;
typedef SeqComp<dstruct::SLinkedList<Tk, TA>, Tk, 300, 2, 1> Sl; typedef SeqComp<dstruct::DLinkedList<Tk, TA>, Tk, 300, 2, 4> Dl;
typedef SeqComp<dstruct::Stack<Tk, TA>, Tk, 300, 1, 2> Stk; typedef SeqComp<dstruct::Queue<Tk, TA>, Tk, 320, 1, 2, false> Que; typedef SeqComp<dstruct::adapter::Queue<Tk, dstruct::DLinkedList<Tk, TA>>, Tk, 300, 1, 2, false> QueL; typedef SeqComp<dstruct::adapter::Stack<Tk, dstruct::DLinkedList<Tk, TA>>, Tk, 300, 1, 2> StkL;
typedef HeapComp<dstruct::MinHeap<Tk, TA>, Tk, 300, true> Mn; typedef HeapComp<dstruct::MaxHeap<Tk, TA>, Tk, 300, false> Mx; typedef HeapComp<dstruct::PriorityQueue<int, RankGreater<int>>, int, 300, false> Pq;
typedef XStackComp<dstruct::MinStack<Tk, TA>, Tk, 300, true> Mi; typedef XStackComp<dstruct::MaxStack<Tk, TA>, Tk, 300, false> Ma;
typedef TreeComp<dstruct::BSTree<Tk, TA>, Tk, 288> Bst; typedef TreeComp<dstruct::AVLTree<Tk, dstruct::less<Tk>, TA>, Tk, 288> Avl; typedef TreeComp<dstruct::Map<Tk, Tk>, Tk, 288, true> Mp;
typedef StrComp<dstruct::String, 40> Str; typedef DsuComp<dstruct::DisjointSet<TA>, 48> Uf;
template <class C, int ST, bool SA = true> static void run(std::vector<Job> &v, const char *n) { v.push_back(mixJob<MixWorld<RN<ST, SA>, C>>(n)); }
void mc::registerJobs(std::vector<Job> &v) {
    run<Vec, 40>(v, "vec_tk"); run<VecI, 40, false>(v, "vec_int_malloc"); run<D2, 20>(v, "deque2_tk"); run<D8, 30>(v, "deque8_tk"); run<D32, 40, false>(v, "deque32_int_malloc");
    run<Sl, 30>(v, "slist_tk"); run<Dl, 30>(v, "dlist_tk"); run<Stk, 30>(v, "stack_tk"); run<Que, 32>(v, "queue_tk"); run<QueL, 30>(v, "queue_list"); run<StkL, 30>(v, "stack_list");
    run<Mn, 30>(v, "heap_min"); run<Mx, 30>(v, "heap_max"); run<Pq, 30, false>(v, "heap_pq_int"); run<Mi, 30>(v, "xstack_min"); run<Ma, 30>(v, "xstack_max");
    run<Bst, 24>(v, "bst"); run<Avl, 24>(v, "avl"); run<Mp, 24, false>(v, "map"); run<Str, 4, false>(v, "string"); run<Uf, 6>(v, "dsu");
}
