#include <dstruct.hpp>
#include "seq.hpp"
using namespace mc;

template <class TT, class A = TrackAlloc> struct VecTr : SeqTraitsBase {
    typedef TT T; typedef dstruct::Vector<TT, A> C;
    static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value;
    static constexpr bool hasIndex = true, hasWrite = true, hasItWrite = true, hasCapacity = true;
    static constexpr bool hasResize = true, hasResizeV = true, hasNCtor = true, randomIt = true, hasDistance = true;
    static constexpr int nctorMin = 1, ovh = 4;
    static constexpr bool moveStable = false;
};
template <class TT, class A = TrackAlloc> struct VecEqTr : VecTr<TT, A> { static constexpr bool refresh = false; };

void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(seqJob<SeqWorld<VecTr<Tk>, 24, false, false>>("tk"));
    v.push_back(seqJob<SeqWorld<VecEqTr<int>, 7, false, false>>("int_eq"));
    v.push_back(seqJob<SeqWorld<VecTr<Tk24, dstruct::Alloc>, 12, false, false>>("tk24_malloc"));
    v.push_back(seqJob<SeqWorld<VecTr<Tk48>, 8, false, false>>("tk48"));
    v.push_back(seqJob<SeqWorld<VecTr<Tk>, 8, false, true>>("alias_tk"));
    v.push_back(seqJob<SeqWorld<VecTr<int>, 8, false, true>>("alias_int"));
    v.push_back(seqJob<SeqWorld<VecTr<Tk>, 5, true, false>>("pair_tk"));
    v.push_back(seqJob<SeqWorld<VecTr<int, dstruct::Alloc>, 7, true, false>>("pair_int_malloc"));
    v.push_back(seqJob<SeqWorld<Deep<VecTr<Tk>>, 140, false, false>>("deep_tk"));
    v.push_back(seqJob<SeqWorld<Deep<VecTr<int>>, 300, false, false>>("deep_int"));
    v.push_back(seqJob<SeqWorld<Deep<VecTr<Tk>>, 34, true, false>>("pair_deep_tk"));
    v.push_back(seqJob<SeqWorld<Deep<VecTr<Tk>>, 40, false, true>>("alias_deep_tk"));
}
