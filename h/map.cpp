#include <dstruct.hpp>
#include "oset.hpp"
using namespace mc;
typedef TrackAlloc TA;
template <class KT, class VT, class CMP, int KIND, class A = TA> struct MapTr {
    typedef KT T; typedef VT V;
    typedef dstruct::KeyValue<const KT, VT> KV;
    typedef dstruct::Map<KT, VT, CMP, dstruct::AVLTree<KV, dstruct::KVCMPKey<KV, CMP>, A>> C;
    static constexpr int kind = K_MAP, cmp = KIND; static constexpr bool strict = !std::is_same<A, dstruct::Alloc>::value, layout = IsTight<A>::value;
};
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(osetJob<OSetWorld<MapTr<Tk, Tk, RankLess<Tk>, 0>, 8, false, false>>("map_tk"));
    v.push_back(osetJob<OSetWorld<MapTr<int, int, RankGreater<int>, 1, dstruct::Alloc>, 7, false, false>>("map_int_greater_malloc"));
    v.push_back(osetJob<OSetWorld<MapTr<Tk48, int, RankKey<Tk48>, 3>, 6, false, false>>("map_tk48_key"));
    v.push_back(osetJob<OSetWorld<MapTr<Tk, Tk24, dstruct::less<Tk>, 0>, 6, false, true>>("map_alias"));
    v.push_back(osetJob<OSetWorld<MapTr<Tk, Tk, RankLess<Tk>, 0>, 26, false, false, 0, 1>>("map_deep"));
    v.push_back(osetJob<OSetWorld<MapTr<int, Tk24, RankGreater<int>, 1>, 12, false, false, 0, 2>>("map_deep_refill"));
#endif
#if PART == 0 || PART == 2
    v.push_back(osetJob<OSetWorld<MapTr<Tk, Tk, RankLess<Tk>, 0>, 3, true, false>>("map_pair_tk"));
    v.push_back(osetJob<OSetWorld<MapTr<int, int, RankGreater<int>, 1, dstruct::Alloc>, 3, true, false>>("map_pair_int_malloc"));
    v.push_back(osetJob<OSetWorld<MapTr<Tk, Tk, RankLess<Tk>, 0>, 12, true, false, 0, 1>>("map_pair_deep"));
#endif
}
