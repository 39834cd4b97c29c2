#include <dstruct.hpp>
#include "seq.hpp"
using namespace mc;
typedef TrackAlloc TA;
template <class TT, class DS, bool STR, bool REF = false> struct StTr : SeqTraitsBase {
    typedef TT T; typedef dstruct::adapter::Stack<TT, DS> C;
    static constexpr bool strict = STR;
    static constexpr bool hasPushBack = false, hasPopBack = false, hasFront = false, hasBack = false, hasTop = true, refresh = false;
    static constexpr bool refStable = REF; static constexpr int ovh = 24, blockElems = 32;
};
template <class TT, class DS, bool STR, bool IDX = false, bool REF = true> struct QuTr : SeqTraitsBase {
    typedef TT T; typedef dstruct::adapter::Queue<TT, DS> C;
    static constexpr bool strict = STR;
    static constexpr bool hasPushBack = false, hasPopBack = false, hasClear = false, popIsFront = true, hasIndexMut = IDX, refresh = false;
    static constexpr bool refStable = REF; static constexpr int ovh = 24, blockElems = 32;
};
#ifndef PART
#define PART 0
#endif
using namespace dstruct;
template <class T> using VecT = dstruct::Vector<T, TA>;
template <class T, int B> using DqT = dstruct::DoubleEndedQueue<T, B, TA>;
template <class T> using DlT = dstruct::DoublyLinkedList<T, TA>;
template <class T> using SlT = dstruct::SinglyLinkedList<T, TA>;
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(seqJob<SeqWorld<StTr<Tk, VecT<Tk>, true>, 24, false, false>>("st_vec_tk"));
    v.push_back(seqJob<SeqWorld<StTr<Tk, DqT<Tk, 2>, true>, 12, false, false>>("st_deq_tk"));
    v.push_back(seqJob<SeqWorld<StTr<int, DlT<int>, true>, 12, false, false>>("st_dl_int"));
    v.push_back(seqJob<SeqWorld<StTr<Tk, VecT<Tk>, true>, 6, false, true>>("st_vec_alias"));
    v.push_back(seqJob<SeqWorld<StTr<Tk, DqT<Tk, 2>, true>, 6, false, true>>("st_deq_alias"));
    v.push_back(seqJob<SeqWorld<StTr<Tk, VecT<Tk>, true>, 4, true, false>>("st_pair_vec_tk"));
    v.push_back(seqJob<SeqWorld<StTr<int, DqT<int, 2>, true>, 3, true, false>>("st_pair_deq_int"));
    v.push_back(seqJob<SeqWorld<Deep<StTr<Tk, VecT<Tk>, true>>, 80, false, false>>("st_deep_vec_tk"));
    v.push_back(seqJob<SeqWorld<Deep<StTr<Tk, DqT<Tk, 3>, true>>, 60, false, false>>("st_deep_deq_tk"));
    v.push_back(seqJob<SeqWorld<Deep<StTr<Tk, VecT<Tk>, true>>, 12, true, false>>("st_pair_deep_vec_tk"));
#endif
#if PART == 0 || PART == 2
    v.push_back(seqJob<SeqWorld<QuTr<Tk, DqT<Tk, 2>, true, true>, 8, false, false>>("q_deq2_tk"));
    v.push_back(seqJob<SeqWorld<QuTr<int, DqT<int, 3>, true, true>, 12, false, false>>("q_deq3_int"));
    v.push_back(seqJob<SeqWorld<QuTr<Tk24, DoubleEndedQueue<Tk24, 32, dstruct::Alloc>, false, true>, 36, false, false>>("q_deq32_tk24_malloc"));
    v.push_back(seqJob<SeqWorld<QuTr<Tk, DlT<Tk>, true>, 16, false, false>>("q_dl_tk"));
    v.push_back(seqJob<SeqWorld<QuTr<Tk, SlT<Tk>, true>, 16, false, false>>("q_sl_tk"));
    v.push_back(seqJob<SeqWorld<QuTr<Tk, DqT<Tk, 2>, true, true>, 5, false, true>>("q_deq_alias"));
    v.push_back(seqJob<SeqWorld<QuTr<Tk, DqT<Tk, 2>, true, true>, 3, true, false>>("q_pair_deq_tk"));
    v.push_back(seqJob<SeqWorld<QuTr<int, SlT<int>, true>, 4, true, false>>("q_pair_sl_int"));
    v.push_back(seqJob<SeqWorld<Deep<QuTr<Tk, DqT<Tk, 2>, true, true>>, 40, false, false>>("q_deep_deq2_tk"));
    v.push_back(seqJob<SeqWorld<Deep<QuTr<int, DqT<int, 5>, true, true>>, 90, false, false>>("q_deep_deq5_int"));
    v.push_back(seqJob<SeqWorld<Deep<QuTr<Tk, DlT<Tk>, true>>, 60, false, false>>("q_deep_dl_tk"));
    v.push_back(seqJob<SeqWorld<Deep<QuTr<Tk, DqT<Tk, 2>, true, true>>, 7, true, false>>("q_pair_deep_deq_tk"));
    v.push_back(seqJob<SeqWorld<QuTr<Tk, DqT<Tk, 1>, true, true>, 2, false, false>>("q_slide_deq1_tk"));
#endif
}
