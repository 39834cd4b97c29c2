#include <dstruct.hpp>
#include "seq.hpp"
using namespace mc;

template <class TT, int AS, class A = TrackAlloc> struct DqTr : SeqTraitsBase {
    typedef TT T; typedef dstruct::Deque<TT, AS, A> C;
    static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value;
    static constexpr bool hasPushFront = true, hasPopFront = true, popIsFront = true;
    static constexpr bool hasIndex = true, randomIt = true, hasCapacity = true;
    static constexpr bool refStable = true, moveStable = true; static constexpr int blockElems = AS;
};
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(seqJob<SeqWorld<DqTr<Tk, 2>, 10, false, false>>("tk_b2"));
    v.push_back(seqJob<SeqWorld<DqTr<int, 1>, 9, false, false>>("int_b1"));
    v.push_back(seqJob<SeqWorld<DqTr<Tk, 3>, 12, false, false>>("tk_b3"));
    v.push_back(seqJob<SeqWorld<DqTr<int, 4, dstruct::Alloc>, 14, false, false>>("int_b4_malloc"));
    v.push_back(seqJob<SeqWorld<DqTr<Tk, 2>, 5, false, true>>("alias_tk_b2"));
    v.push_back(seqJob<SeqWorld<DqTr<int, 1>, 3, false, false>>("slide_int_b1"));
    v.push_back(seqJob<SeqWorld<DqTr<Tk, 2>, 4, false, false>>("slide_tk_b2"));
    v.push_back(seqJob<SeqWorld<Deep<DqTr<int, 4>>, 30, false, false>>("deep_int_b4"));
    v.push_back(seqJob<SeqWorld<Deep<DqTr<Tk, 1>>, 22, false, false>>("deep_tk_b1"));
    v.push_back(seqJob<SeqWorld<Deep<DqTr<Tk, 2>>, 14, true, false>>("pair_deep_tk_b2"));
    v.push_back(seqJob<SeqWorld<Deep<DqTr<int, 5>>, 30, true, false>>("pair_deep_int_b5"));
#endif
#if PART == 0 || PART == 2
    v.push_back(seqJob<SeqWorld<DqTr<Tk24, 32, dstruct::Alloc>, 40, false, false>>("tk24_b32_malloc"));
    v.push_back(seqJob<SeqWorld<DqTr<Tk, 2, TightAlloc<1>>, 5, false, false>>("tight1_tk_b2"));
    v.push_back(seqJob<SeqWorld<DqTr<int, 1, TightAlloc<2>>, 5, false, false>>("tight2_int_b1"));
    v.push_back(seqJob<SeqWorld<DqTr<int, 1, TrackAlloc>, 3, true, false>>("pair_int_b1"));
    v.push_back(seqJob<SeqWorld<DqTr<Tk, 2, TrackAlloc>, 3, true, false>>("pair_tk_b2"));
    v.push_back(seqJob<SeqWorld<DqTr<int, 3, TrackAlloc>, 4, true, false>>("pair_int_b3"));
#endif
}
