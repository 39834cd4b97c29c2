#include <dstruct.hpp>
#include "oset.hpp"
using namespace mc;
typedef TrackAlloc TA;
template <class TT, class CMP, int KIND, class A = TA> struct BstTr { typedef TT T; typedef char V; typedef dstruct::tree::BinarySearchTree<TT, CMP, A> C; static constexpr int kind = K_BST, cmp = KIND; static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value; };
template <class TT, class CMP, int KIND, class A = TA> struct AvlTr { typedef TT T; typedef char V; typedef dstruct::AVLTree<TT, CMP, A> C; static constexpr int kind = K_AVL, cmp = KIND; static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value; };
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(osetJob<OSetWorld<BstTr<Tk, RankLess<Tk>, 0>, 8, false, false>>("bst_tk"));
    v.push_back(osetJob<OSetWorld<BstTr<int, RankGreater<int>, 1, dstruct::Alloc>, 6, false, false>>("bst_int_greater_malloc"));
    v.push_back(osetJob<OSetWorld<BstTr<Tk48, RankKey<Tk48>, 3>, 5, false, false>>("bst_tk48_key"));
    v.push_back(osetJob<OSetWorld<BstTr<Tk, RankLess<Tk>, 0, TightAlloc<1>>, 4, false, false>>("bst_tight1_tk"));
    v.push_back(osetJob<OSetWorld<BstTr<Tk, RankLess<Tk>, 0>, 6, false, true>>("bst_alias"));
    v.push_back(osetJob<OSetWorld<BstTr<Tk, RankLess<Tk>, 0>, 24, false, false, 0, 1>>("bst_deep"));
    v.push_back(osetJob<OSetWorld<BstTr<int, RankGreater<int>, 1>, 12, false, false, 0, 2>>("bst_deep_refill"));
#endif
#if PART == 0 || PART == 2
    v.push_back(osetJob<OSetWorld<BstTr<Tk, RankState<Tk>, 2>, 3, true, false>>("bst_pair_state"));
    v.push_back(osetJob<OSetWorld<BstTr<int, RankLess<int>, 0, dstruct::Alloc>, 3, true, false>>("bst_pair_int_malloc"));
    v.push_back(osetJob<OSetWorld<BstTr<Tk, RankLess<Tk>, 0>, 14, true, false, 0, 1>>("bst_pair_deep"));
#endif
#if PART == 0 || PART == 3
    v.push_back(osetJob<OSetWorld<AvlTr<Tk, RankLess<Tk>, 0>, 12, false, false>>("avl_tk"));
    v.push_back(osetJob<OSetWorld<AvlTr<int, RankGreater<int>, 1, dstruct::Alloc>, 10, false, false, 3>>("avl_int_greater_malloc"));
    v.push_back(osetJob<OSetWorld<AvlTr<Tk48, RankKey<Tk48>, 3>, 6, false, false>>("avl_tk48_key"));
    v.push_back(osetJob<OSetWorld<AvlTr<Tk, RankLess<Tk>, 0, TightAlloc<2>>, 5, false, false>>("avl_tight2_tk"));
    v.push_back(osetJob<OSetWorld<AvlTr<Tk, dstruct::less<Tk>, 0>, 8, false, true>>("avl_alias"));
    v.push_back(osetJob<OSetWorld<AvlTr<Tk, RankLess<Tk>, 0>, 34, false, false, 0, 1>>("avl_deep"));
    v.push_back(osetJob<OSetWorld<AvlTr<int, RankGreater<int>, 1>, 16, false, false, 0, 2>>("avl_deep_refill"));
#endif
#if PART == 0 || PART == 4
    v.push_back(osetJob<OSetWorld<AvlTr<Tk, RankState<Tk>, 2>, 3, true, false>>("avl_pair_state"));
    v.push_back(osetJob<OSetWorld<AvlTr<int, RankLess<int>, 0, dstruct::Alloc>, 3, true, false>>("avl_pair_int_malloc"));
    v.push_back(osetJob<OSetWorld<AvlTr<Tk, RankLess<Tk>, 0>, 16, true, false, 0, 1>>("avl_pair_deep"));
#endif
}
