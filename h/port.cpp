// The port with static memory as the default allocator.
#define ENABLE_SMA
#include <dstruct.hpp>
#include "pool.hpp"
using namespace mc;
template <int SZ, int HELD, int... Q> struct PP {
    typedef dstruct::port::DefaultSMA SMA;
    static constexpr bool port = true; static constexpr int SIZE = SZ, maxHeld = HELD, TOTAL = 1024 * 1024;
    static std::vector<int> sizes() { return {Q...}; }
    static void *allocate(int b) { return dstruct::port::allocate(b); }
    static bool deallocate(void *p, int b) { dstruct::port::deallocate(p, b); return true; }
};
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(poolJob<PoolWorld<PP<48, 6, 8, 16, 24, 48>>>("tail48"));
    v.push_back(poolJob<PoolWorld<PP<256, 6, 64, 100, 136, 192>>>("tail256"));
    v.push_back(poolJob<PoolWorld<PP<2048, 5, 512, 520, 1032, 1500>>>("tail2048"));
    v.push_back(poolJob<PoolFam<PP<512, 66, 64>>>("ftail512"));
}
