// Containers of the static-memory namespace, sharing its pool.
#include <tuple>
#include <dstruct.hpp>
#include "mix.hpp"
using namespace mc;
namespace sm = dstruct::smemory;
struct PS { typedef sm::SMA SMA; static constexpr bool FRAG = false; static void prepare() {} static void fragment() {} static constexpr int bound = 6000; static const char *name(int i) { static const char *n[] = {"first", "second", "third", "fourth"}; return n[i]; } };
typedef SeqComp<sm::Vector<Tk>, Tk, 5, 1, 0> Vec; typedef SeqComp<sm::Vector<int>, int, 3, 1, 0> VecI;
typedef SeqComp<sm::Deque<Tk, 2>, Tk, 4, 2, 4> Deq; typedef SeqComp<sm::SLinkedList<Tk>, Tk, 3, 2, 1> Sl; typedef SeqComp<sm::DLinkedList<Tk>, Tk, 3, 2, 4> Dl;
typedef SeqComp<sm::Stack<Tk>, Tk, 3, 1, 2> Stk; typedef SeqComp<sm::Queue<Tk>, Tk, 3, 1, 2, false> Que;
typedef HeapComp<sm::MinHeap<Tk>, Tk, 4, true> Hp; typedef HeapComp<sm::PriorityQueue<int, RankGreater<int>>, int, 3, false> Pq;
typedef XStackComp<sm::MinStack<Tk>, Tk, 3, true> Mi; typedef XStackComp<sm::MaxStack<Tk>, Tk, 3, false> Ma;
typedef HeapComp<sm::MaxHeap<Tk>, Tk, 4, false> Xp; typedef DsuComp<sm::UFSet, 6> Uf; typedef ArrComp<sm::Array<sm::Vector<Tk>, 3>, sm::Vector<Tk>, Tk, 3, 4> Arr; typedef SeqComp<sm::Deque<int>, int, 3, 2, 4> D32;
typedef TreeComp<sm::BSTree<Tk>, Tk, 4> Bst; typedef StrComp<sm::String, 3> Str;
// one container at a time, grown and shrunk in steps to a large part of the pool
template <int ST> struct RN : PS { static constexpr int STEP = ST, bound = 10240; };
typedef SeqComp<sm::Vector<int>, int, 160, 1, 0> rVec; typedef SeqComp<sm::Deque<int>, int, 384, 2, 4> rDeq; typedef SeqComp<sm::Queue<int>, int, 384, 1, 2, false> rQue; typedef SeqComp<sm::Stack<int>, int, 160, 1, 2> rStk;
typedef SeqComp<sm::SLinkedList<Tk>, Tk, 96, 2, 1> rSl; typedef SeqComp<sm::DLinkedList<Tk>, Tk, 96, 2, 4> rDl; typedef HeapComp<sm::MinHeap<Tk>, Tk, 128, true> rMin; typedef HeapComp<sm::MaxHeap<Tk>, Tk, 128, false> rMax; typedef HeapComp<sm::PriorityQueue<int, RankGreater<int>>, int, 160, false> rPq;
typedef XStackComp<sm::MinStack<Tk>, Tk, 96, true> rMi; typedef XStackComp<sm::MaxStack<Tk>, Tk, 96, false> rMa; typedef TreeComp<sm::BSTree<Tk>, Tk, 48> rBst; typedef StrComp<sm::String, 16> rStr; typedef DsuComp<sm::UFSet, 48> rUf;
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(mixJob<MixWorld<PS, Vec, Deq>>("vec_deq"));
    v.push_back(mixJob<MixWorld<PS, Sl, Dl>>("sl_dl"));
    v.push_back(mixJob<MixWorld<PS, Vec, Dl, Str>>("vec_dl_str"));
#endif
#if PART == 0 || PART == 2
    v.push_back(mixJob<MixWorld<PS, Bst, Hp>>("bst_heap"));
    v.push_back(mixJob<MixWorld<PS, Mi, Ma>>("minst_maxst"));
    v.push_back(mixJob<MixWorld<PS, Stk, Que, Pq>>("stack_queue_pq"));
#endif
#if PART == 0 || PART == 3
    v.push_back(mixJob<MixWorld<PS, Xp, Uf>>("maxheap_uf"));
    v.push_back(mixJob<MixWorld<PS, Arr, D32>>("arr_deq32"));
    v.push_back(mixJob<MixWorld<PS, Xp, Hp, Pq>>("heaps"));
    v.push_back(mixJob<MixWorld<RN<20>, rVec>>("r_vec")); v.push_back(mixJob<MixWorld<RN<48>, rDeq>>("r_deq")); v.push_back(mixJob<MixWorld<RN<48>, rQue>>("r_queue")); v.push_back(mixJob<MixWorld<RN<20>, rStk>>("r_stack"));
    v.push_back(mixJob<MixWorld<RN<16>, rSl>>("r_sl")); v.push_back(mixJob<MixWorld<RN<16>, rDl>>("r_dl")); v.push_back(mixJob<MixWorld<RN<16>, rMin>>("r_minheap")); v.push_back(mixJob<MixWorld<RN<16>, rMax>>("r_maxheap")); v.push_back(mixJob<MixWorld<RN<20>, rPq>>("r_pq"));
    v.push_back(mixJob<MixWorld<RN<16>, rMi>>("r_minstack")); v.push_back(mixJob<MixWorld<RN<16>, rMa>>("r_maxstack")); v.push_back(mixJob<MixWorld<RN<12>, rBst>>("r_bst")); v.push_back(mixJob<MixWorld<RN<4>, rStr>>("r_string")); v.push_back(mixJob<MixWorld<RN<6>, rUf>>("r_ufset"));
#endif
}
