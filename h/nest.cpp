// Containers of containers: the elements own storage of their own, contain pointers to themselves or hold elements in turn.
#include <tuple>
#include <dstruct.hpp>
#include "mix.hpp"
using namespace mc;
typedef TrackAlloc TA;
namespace mc {
// an inner container stands for the identity its two elements carry; an empty one for a default constructed element
template <class V, class E> struct NestVal {
    static V make(u32 id) { V v; for (int i = 0; i < 2; i++) { Arg<E> a(id); LIB(v.push_back(a.v)); } return v; }
    static u32 id(const V &v) { InLib g; if (v.size() == 0) return DEFID; u32 r = 0; int n = 0; for (auto it = v.begin(); it != v.end(); it++, n++) { u32 q = Val<E>::id(*it); if (n == 0) r = q; else if (q != r) return 0xfffff1; if (n > 2) return 0xfffff2; } return n == 2 && v.size() == 2 ? r : 0xfffff3; }
    static constexpr bool tracked = true;
};
typedef dstruct::Vector<Tk, TA> NV; typedef dstruct::DLinkedList<Tk, TA> ND; typedef dstruct::SLinkedList<int, TA> NS; typedef dstruct::DoubleEndedQueue<Tk, 2, TA> NQ; typedef dstruct::BasicString<char, TA> NT; typedef dstruct::Vector<NV, TA> NVV; typedef dstruct::Array<Tk, 2> NA;
template <> struct Val<NV> : NestVal<NV, Tk> {}; template <> struct Val<ND> : NestVal<ND, Tk> {}; template <> struct Val<NS> : NestVal<NS, int> {}; template <> struct Val<NQ> : NestVal<NQ, Tk> {}; template <> struct Val<NVV> : NestVal<NVV, NV> {};
template <> struct Val<NT> { // 20 bytes in a String: five times the token word
    static NT make(u32 id) { NT s; u32 w = TAG | id; for (int i = 0; i < 20; i++) { char c = ((char *)&w)[i % 4]; LIB(s.push_back(c)); } return s; }
    static u32 id(const NT &s) { if (s.size() == 0) return DEFID; if (s.size() != 20) return 0xfffff3; u32 w[5]; for (int i = 0; i < 20; i++) ((char *)w)[i] = s[i]; for (int i = 1; i < 5; i++) if (w[i] != w[0]) return 0xfffff1; return (w[0] & 0xff000000u) == TAG ? w[0] & 0xffffff : 0xfffff2; }
    static constexpr bool tracked = false;
};
template <> struct Val<NA> { static NA make(u32 id) { Arg<Tk> a(id); return NA(a.v); } static u32 id(const NA &x) { u32 a = Val<Tk>::id(x[0]), b = Val<Tk>::id(x[1]); return a == b ? a : 0xfffff1; } static constexpr bool tracked = true; };
}
struct NoPool { static int free_mem_size() { return 0; } static int max_free_mblock_size() { return 0; } static void memory_merge() {} static void dump() {} };
template <bool SA> struct PN { static constexpr bool STRICT = SA; typedef NoPool SMA; static constexpr bool FRAG = false; static void prepare() {} static void fragment() {} static constexpr int bound = 0; static constexpr bool CROSS = true; static const char *name(int i) { return i ? "b" : "a"; } };
template <class C, bool SA = true> static void nest(std::vector<Job> &v, const char *n) { v.push_back(mixJob<MixWorld<PN<SA>, C>>(n)); }
template <class C, bool SA = true> static void nest2(std::vector<Job> &v, const char *n) { v.push_back(mixJob<MixWorld<PN<SA>, C, C>>(n)); }
#ifndef PART
#define PART 0
#endif
template <class T> using VecOf = SeqComp<dstruct::Vector<T, TA>, T, 20, 1, 0>; template <class T> using DeqOf = SeqComp<dstruct::DoubleEndedQueue<T, 2, TA>, T, 7, 2, 4>; template <class T> using SlOf = SeqComp<dstruct::SLinkedList<T, TA>, T, 6, 2, 1>; template <class T> using DlOf = SeqComp<dstruct::DLinkedList<T, TA>, T, 6, 2, 4>;
template <class T> using StkOf = SeqComp<dstruct::Stack<T, TA>, T, 8, 1, 2>; template <class T> using QueOf = SeqComp<dstruct::adapter::Queue<T, dstruct::DoubleEndedQueue<T, 2, TA>>, T, 6, 1, 2, false>;
template <class T> using HeapOf = HeapComp<dstruct::Heap<T, RankLess<T>, TA>, T, 7, true>; template <class T> using XsOf = XStackComp<dstruct::stack::XValueStack<T, RankLess<T>, dstruct::adapter::Stack<T, dstruct::Vector<T, TA>>>, T, 5, true>;
template <class T> using BstOf = TreeComp<dstruct::tree::BinarySearchTree<T, RankLess<T>, TA>, T, 6>; template <class T> using AvlOf = TreeComp<dstruct::AVLTree<T, RankLess<T>, TA>, T, 10>; template <class T> using MapOf = TreeComp<dstruct::Map<T, T, RankLess<T>>, T, 8, true>;
template <class T> using V4 = SeqComp<dstruct::Vector<T, TA>, T, 4, 1, 0>; template <class T> using D3 = SeqComp<dstruct::DoubleEndedQueue<T, 2, TA>, T, 3, 2, 4>; template <class T> using S3 = SeqComp<dstruct::SLinkedList<T, TA>, T, 3, 2, 1>; template <class T> using L3 = SeqComp<dstruct::DLinkedList<T, TA>, T, 3, 2, 4>;
template <class T> using H3 = HeapComp<dstruct::Heap<T, RankLess<T>, TA>, T, 3, true>; template <class T> using X3 = XStackComp<dstruct::stack::XValueStack<T, RankLess<T>, dstruct::adapter::Stack<T, dstruct::Vector<T, TA>>>, T, 3, true>; template <class T> using B3 = TreeComp<dstruct::tree::BinarySearchTree<T, RankLess<T>, TA>, T, 3>; template <class T> using A3 = TreeComp<dstruct::AVLTree<T, RankLess<T>, TA>, T, 4>; template <class T> using M3 = TreeComp<dstruct::Map<T, T, RankLess<T>>, T, 3, true>;
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    nest<VecOf<NV>>(v, "vec_vec"); nest<VecOf<ND>>(v, "vec_dlist"); nest<VecOf<NS>>(v, "vec_slist"); nest<VecOf<NQ>>(v, "vec_deque"); nest<VecOf<NT>>(v, "vec_string"); nest<VecOf<NVV>>(v, "vec_vecvec"); nest<VecOf<NA>>(v, "vec_array");
    nest<DeqOf<NV>>(v, "deque_vec"); nest<DeqOf<ND>>(v, "deque_dlist"); nest<DeqOf<NQ>>(v, "deque_deque"); nest<DeqOf<NT>>(v, "deque_string");
    nest<SlOf<NV>>(v, "slist_vec"); nest<SlOf<ND>>(v, "slist_dlist"); nest<SlOf<NT>>(v, "slist_string"); nest<DlOf<NV>>(v, "dlist_vec"); nest<DlOf<ND>>(v, "dlist_dlist"); nest<DlOf<NQ>>(v, "dlist_deque");
    nest2<V4<NV>>(v, "pair_vec_vec"); nest2<V4<ND>>(v, "pair_vec_dlist"); nest2<V4<NT>>(v, "pair_vec_string"); nest2<D3<NV>>(v, "pair_deque_vec"); nest2<S3<NV>>(v, "pair_slist_vec"); nest2<L3<NQ>>(v, "pair_dlist_deque");
#endif
#if PART == 0 || PART == 2
    nest<StkOf<NV>>(v, "stack_vec"); nest<StkOf<NT>>(v, "stack_string"); nest<QueOf<NV>>(v, "queue_vec"); nest<QueOf<NT>>(v, "queue_string");
    nest<HeapOf<NV>>(v, "heap_vec"); nest<HeapOf<NT>>(v, "heap_string"); nest<XsOf<NV>>(v, "xstack_vec"); nest<XsOf<NT>>(v, "xstack_string");
    nest<BstOf<NV>>(v, "bst_vec"); nest<BstOf<NT>>(v, "bst_string"); nest<AvlOf<NV>>(v, "avl_vec"); nest<AvlOf<NT>>(v, "avl_string"); nest<MapOf<NV>, false>(v, "map_vec"); nest<MapOf<NT>, false>(v, "map_string"); nest<MapOf<NQ>, false>(v, "map_deque");
    nest2<H3<NV>>(v, "pair_heap_vec"); nest2<X3<NT>>(v, "pair_xstack_string"); nest2<B3<NV>>(v, "pair_bst_vec"); nest2<A3<NT>>(v, "pair_avl_string"); nest2<M3<NV>, false>(v, "pair_map_vec");
#endif
}
