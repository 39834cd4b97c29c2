#include <dstruct.hpp>
#include "seq.hpp"
using namespace mc;

template <class TT, class A = TrackAlloc> struct SlTr : SeqTraitsBase {
    typedef TT T; typedef dstruct::SLinkedList<TT, A> C;
    static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value;
    static constexpr bool hasPushFront = true, hasPopFront = true, pushIsFront = true, popIsFront = true;
    static constexpr bool hasPopBack = false, hasSlowPopBack = true, hasItWrite = true, hasNCtor = true;
    static constexpr bool refStable = true, moveStable = true, itStable = true; static constexpr int ovh = 24;
};
template <class TT, class A = TrackAlloc> struct DlTr : SeqTraitsBase {
    typedef TT T; typedef dstruct::DLinkedList<TT, A> C;
    static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value;
    static constexpr bool hasPushFront = true, hasPopFront = true, pushIsFront = true, popIsFront = true;
    static constexpr bool hasItWrite = true, hasNCtor = true, bidiIt = true;
    static constexpr bool refStable = true, moveStable = true, itStable = true; static constexpr int ovh = 24;
};
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(seqJob<SeqWorld<SlTr<Tk>, 24, false, false>>("s_tk"));
    v.push_back(seqJob<SeqWorld<SlTr<int>, 10, false, false>>("s_int"));
    v.push_back(seqJob<SeqWorld<SlTr<Tk48, dstruct::Alloc>, 6, false, false>>("s_tk48_malloc"));
    v.push_back(seqJob<SeqWorld<SlTr<Tk, TightAlloc<1>>, 4, false, false>>("s_tight1_tk"));
    v.push_back(seqJob<SeqWorld<SlTr<Tk>, 6, false, true>>("s_alias_tk"));
    v.push_back(seqJob<SeqWorld<SlTr<Tk>, 4, true, false>>("s_pair_tk"));
    v.push_back(seqJob<SeqWorld<SlTr<int, dstruct::Alloc>, 4, true, false>>("s_pair_int_malloc"));
    v.push_back(seqJob<SeqWorld<Deep<SlTr<Tk>>, 100, false, false>>("s_deep_tk"));
    v.push_back(seqJob<SeqWorld<Deep<SlTr<Tk>>, 24, true, false>>("s_pair_deep_tk"));
    v.push_back(seqJob<SeqWorld<Deep<SlTr<Tk>>, 24, false, true>>("s_alias_deep_tk"));
#endif
#if PART == 0 || PART == 2
    v.push_back(seqJob<SeqWorld<DlTr<Tk>, 24, false, false>>("d_tk"));
    v.push_back(seqJob<SeqWorld<DlTr<int>, 10, false, false>>("d_int"));
    v.push_back(seqJob<SeqWorld<DlTr<Tk48, dstruct::Alloc>, 6, false, false>>("d_tk48_malloc"));
    v.push_back(seqJob<SeqWorld<DlTr<Tk, TightAlloc<2>>, 4, false, false>>("d_tight2_tk"));
    v.push_back(seqJob<SeqWorld<DlTr<Tk>, 6, false, true>>("d_alias_tk"));
    v.push_back(seqJob<SeqWorld<DlTr<Tk>, 4, true, false>>("d_pair_tk"));
    v.push_back(seqJob<SeqWorld<DlTr<int, dstruct::Alloc>, 4, true, false>>("d_pair_int_malloc"));
    v.push_back(seqJob<SeqWorld<Deep<DlTr<Tk>>, 100, false, false>>("d_deep_tk"));
    v.push_back(seqJob<SeqWorld<Deep<DlTr<Tk>>, 24, true, false>>("d_pair_deep_tk"));
    v.push_back(seqJob<SeqWorld<Deep<DlTr<Tk>>, 24, false, true>>("d_alias_deep_tk"));
#endif
}
