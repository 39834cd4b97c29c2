#include <dstruct.hpp>
#include "pool.hpp"
using namespace mc;
template <int SZ, int MB, int HELD, int... Q> struct PT {
    typedef dstruct::StaticMemAllocator<SZ, MB> SMA;
    static constexpr bool port = false; static constexpr int SIZE = SZ, maxHeld = HELD, TOTAL = SZ;
    static std::vector<int> sizes() { return {Q...}; }
    static void *allocate(int b) { return SMA::allocate(b); }
    static bool deallocate(void *p, int b) { return SMA::deallocate(p, b); }
};
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(poolJob<PoolWorld<PT<40, 8, 5, 8, 16, 24, 3>>>("p40_8"));
    v.push_back(poolJob<PoolWorld<PT<48, 16, 6, 8, 16, 24, 32>>>("p48_16"));
    v.push_back(poolJob<PoolWorld<PT<56, 24, 7, 8, 16, 24, 32>>>("p56_24"));
    v.push_back(poolJob<PoolWorld<PT<64, 16, 8, 8, 16, 17, 32>>>("p64_16"));
    v.push_back(poolJob<PoolWorld<PT<64, 64, 8, 8, 16, 24>>>("p64_64"));
    v.push_back(poolJob<PoolWorld<PT<96, 32, 6, 24, 40>>>("p96_32"));
    v.push_back(poolJob<PoolWorld<PT<80, 16, 4, 8, 24, 40>>>("p80_16"));
    v.push_back(poolJob<PoolWorld<PT<96, 48, 4, 16, 24, 40>>>("p96_48"));
    v.push_back(poolJob<PoolWorld<PT<640, 128, 4, 128, 129, 300>>>("p640_128"));
    v.push_back(poolJob<PoolWorld<PT<96, 32, 6, 8, 24, 40>>>("p96_32_xl"));
    v.push_back(poolJob<PoolWorld<PT<1024, 128, 7, 1, 128, 129, 500>>>("p1024_128_xl"));
    v.push_back(poolJob<PoolWorld<PT<160000, 128, 4, 8, 33000, 70000>>>("p160000_128"));
    v.push_back(poolJob<PoolFam<PT<160, 32, 24>>>("f160_32"));
    v.push_back(poolJob<PoolFam<PT<256, 64, 36>>>("f256_64"));
    v.push_back(poolJob<PoolFam<PT<1024, 128, 64>>>("f1024_128"));
}
