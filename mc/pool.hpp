// World for the static memory allocator: every history of allocate / deallocate / merge on a small pool.
#pragma once
#include <climits>
#include "ord.hpp"
namespace mc {
enum { A_ALLOC, A_FREE, A_MERGE };
// Tr: SMA (class with allocate/deallocate/memory_merge/free_mem_size/max_free_mblock_size/dump), SIZE, sizes()
template <class Tr> struct PoolWorld : World {
    typedef typename Tr::SMA SMA;
    static constexpr bool kGlobals = true, kStrictAlloc = false, PORT = Tr::port;
    static constexpr int U = 8, M = Tr::SIZE / U, MAXB = Tr::maxHeld;
    struct Op { int code, a; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mk() {
        auto *v = new std::vector<Op>;
        for (int z : Tr::sizes()) v->push_back({A_ALLOC, z});
        for (int i = 0; i < MAXB; i++) v->push_back({A_FREE, i});
        if (!PORT) v->push_back({A_MERGE, 0});
        tab() = v;
    }
    struct Held { int off, bytes; };           // off in bytes from the pool base
    SV<Held, MAXB + M + 2> h;                       // sorted by offset
    char *base, *bigAddr; int big;                        // port: the block that occupies the rest of the pool
    static int up(int b) { return (b + U - 1) / U * U; }
    bool occ(int unit) const { for (const Held &x : h) if (unit * U >= x.off && unit * U < x.off + up(x.bytes)) return true; return false; }
    int freeBytes() const { int f = Tr::SIZE; for (const Held &x : h) f -= up(x.bytes); return f; }
    int maxRun() const { int r = 0, at = 0; for (const Held &x : h) { if (x.off / U * U - at > r) r = x.off / U * U - at; int e = up(x.off + up(x.bytes)); if (e > at) at = e; } return M * U - at > r ? M * U - at : r; } // held blocks are sorted
    static u8 pat(int off) { return (u8)(0x41 + (off * 37) % 113); }
    void *alloc(int b) { return lib([&] { return Tr::allocate(b); }); }
    // the pool bounds are only known through what it hands out: one block as big as the pool
    void init() {
        h.clear(); base = bigAddr = nullptr; big = 0;
        if constexpr (PORT) {
            big = Tr::TOTAL - Tr::SIZE;
            char *p = bigAddr = (char *)alloc(big); for (int i = 0; p && i < 256; i++) p[i] = p[big - 1 - i] = 0x6b; MC_CHECK("NP", p, "a fresh pool does not give %d bytes", big);
            probe([&] { char *q = (char *)alloc(Tr::SIZE); base = q; MC_CHECK("NP", q, "a fresh pool of %d bytes does not give its last %d bytes", Tr::TOTAL, Tr::SIZE); MC_CHECK("Q", q >= p + big || q + Tr::SIZE <= p, "two blocks of a fresh pool overlap"); ctl().counters[20] = (u64)q; });
            base = (char *)ctl().counters[20]; ctl().counters[20] = 0;
            machp()->skipLo = ((u64)p + 512) & ~63ull; machp()->skipHi = ((u64)p + big - 512) & ~63ull;
        } else {
            probe([&] { char *q = (char *)alloc(Tr::SIZE); MC_CHECK("NG", q, "a fresh pool does not give %d bytes as one block", Tr::SIZE); ctl().counters[20] = (u64)q; });
            base = (char *)ctl().counters[20]; ctl().counters[20] = 0;
        }
        MC_CHECK("Q", (u64)base % U == 0, "the pool is not aligned to %d bytes", U);
    }
    int nops() { return (int)tab()->size(); }
    bool enabled(int o) {
        const Op &p = (*tab())[o];
        if (p.code == A_ALLOC) return h.n < MAXB && (!PORT || up(p.a) <= maxRun()); // the port crashes by design when memory is exhausted
        if (p.code == A_FREE) return p.a < h.n;
        return true;
    }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t n) { const Op &p = (*tab())[o]; if (p.code == A_ALLOC) snprintf(b, n, "allocate(%d)", p.a); else if (p.code == A_FREE) snprintf(b, n, "release held block %d (by address)", p.a); else snprintf(b, n, "merge"); }
    void fill(const Held &x) { for (int i = 0; i < up(x.bytes); i++) base[x.off + i] = (char)pat(x.off + i); }
    void intact(const char *when) { for (const Held &x : h) for (int i = 0; i < x.bytes; i++) if ((u8)base[x.off + i] != pat(x.off + i)) fail("FQ", "a held block of %d bytes at offset %d was overwritten at +%d %s", x.bytes, x.off, i, when);
        if (PORT) for (int i = 0; i < 256; i++) if (bigAddr[i] != 0x6b || bigAddr[big - 1 - i] != 0x6b) fail("FQ", "the block of %d bytes was overwritten %s", big, when); }
    // a block was returned: it must be a fresh place in the pool
    void place(void *p, int bytes, const char *who) {
        long long off = (char *)p - base;
        MC_CHECK("Q", off >= 0 && off + bytes <= Tr::SIZE, "%s(%d) returns a block outside the pool (offset %lld)", who, bytes, off);
        MC_CHECK("Q", (u64)p % U == 0, "%s(%d) returns a block that is not aligned to %d", who, bytes, U);
        for (const Held &x : h) MC_CHECK("Q", off + bytes <= x.off || off >= x.off + x.bytes, "%s(%d) returns a block overlapping a held one (offset %lld)", who, bytes, off);
        int k = 0; while (k < h.n && h[k].off < off) k++;
        h.insert(k, Held{(int)off, bytes}); fill(h[k]);
    }
    static int nextSize(int z, int mark) { // every unit on small pools, the sizes around the mark on larger ones
        if (z == 1) return U; if (M <= 16 || z > mark - 2 * U && z <= mark + 2 * U) return z + U;
        int n = z + up(Tr::SIZE / 8); return z < mark && n > mark - U ? up(mark) - U > z ? up(mark) - U : z + U : n; }
    void acct(const char *when) { if (!wanted("N")) return; int f = lib([&] { return SMA::free_mem_size(); }); MC_SOFT("N", f == freeBytes(), "free_mem_size() is %d, expected %d %s", f, freeBytes(), when); }
    void apply(int o) {
        const Op p = (*tab())[o];
        if (p.code == A_ALLOC) {
            void *q = alloc(p.a);
            if (q) place(q, p.a, "allocate"); else MC_CHECK("P", !PORT, "the port returns no memory for %d bytes with %d contiguous bytes free", p.a, maxRun());
            acct("after allocate"); intact("by allocate");
        } else if (p.code == A_FREE) {
            Held x = h[p.a]; rawset(base + x.off, 0xDD, up(x.bytes)); h.erase(p.a);
            bool ok = lib([&] { return Tr::deallocate(base + x.off, x.bytes); }); MC_SOFT("N", ok, "releasing a held block of %d bytes is rejected", x.bytes);
            acct("after a release"); intact("by a release");
        } else { LIB(SMA::memory_merge()); acct("after merge"); intact("by merge"); }
    }
    void check() {
        acct("when asked"); intact("between operations");
        LIB(SMA::dump()); acct("after dump");
        if constexpr (!PORT) {
            // releases that are rejected change nothing
            for (int k = 0; k < 3; k++) { bool ok = lib([&] { return k == 0 ? SMA::deallocate(nullptr, 8) : SMA::deallocate(h.n ? base + h[0].off : base, k == 1 ? 0 : -8); }); MC_SOFT("N", !ok, "an invalid release is accepted"); acct("after a rejected release"); }
            intact("by a rejected release");
            for (int z : {0, -1, -64, Tr::SIZE + 1, INT_MAX, INT_MAX - 7, INT_MIN}) { void *q = alloc(z); MC_CHECK("NQ", q == nullptr, "allocate(%d) returns a block", z); acct("after a refused request"); }
            intact("by a refused request");
            int mx = lib([&] { return SMA::max_free_mblock_size(); });
            MC_SOFT("N", mx >= 0 && mx <= maxRun(), "max_free_mblock_size() is %d, the longest free run is %d", mx, maxRun());
            for (int z = 1; z <= Tr::SIZE; z = nextSize(z, mx)) probe([&] { void *q = alloc(z); MC_SOFT("N", (q != nullptr) == (z <= mx) || (q && z < mx), z <= mx ? "a request of %d bytes fails although max_free_mblock_size() is %d" : "a request of %d bytes succeeds although max_free_mblock_size() is %d", z, mx); if (q) { place(q, z, "allocate"); acct("after allocate"); intact("by allocate"); } else acct("after a refused request"); });
            probe([&] { // merged: every run can be had at once
                LIB(SMA::memory_merge()); acct("after merge"); intact("by merge"); LIB(SMA::dump());
                int run = maxRun(); int m2 = lib([&] { return SMA::max_free_mblock_size(); });
                MC_CHECK("NG", m2 == run, "after a merge max_free_mblock_size() is %d, the longest free run is %d", m2, run);
                for (int z = U; z <= run; z = nextSize(z, run)) probe([&] { void *q = alloc(z); MC_CHECK("G", q, "after a merge %d contiguous bytes are free but a request of %d fails", run, z); place(q, z, "allocate"); acct("after allocate"); intact("by allocate"); });
                // and all maximal runs together, largest first
                for (int z; (z = maxRun()) >= U; ) { void *q = alloc(z); MC_CHECK("G", q, "after a merge, taking the free runs one by one fails at a run of %d", z); place(q, z, "allocate"); acct("after allocate"); }
                intact("by taking every free run"); MC_SOFT("N", lib([&] { return SMA::max_free_mblock_size(); }) == 0 && alloc(1) == nullptr, "a full pool reports or gives free memory");
                LIB(SMA::memory_merge()); acct("after merging a full pool"); intact("by merging a full pool");
            });
        } else {
            int run = maxRun();
            for (int z = 1; z <= run; z = nextSize(z, run)) probe([&] { void *q = alloc(z); MC_CHECK("P", q, "the port returns no memory for %d bytes with %d contiguous bytes free", z, run); place(q, z, "port::allocate"); acct("after allocate"); intact("by allocate"); });
        }
    }
    void finish() {
        while (h.n) { Held x = h[h.n - 1]; h.pop_back(); bool ok = lib([&] { return Tr::deallocate(base + x.off, x.bytes); }); MC_SOFT("N", ok, "releasing is rejected"); acct("while releasing everything"); }
        if constexpr (PORT) { void *q = alloc(Tr::SIZE); MC_CHECK("P", q == base, "after releasing everything the port cannot give %d bytes", Tr::SIZE); }
        else { LIB(SMA::memory_merge()); acct("after the final merge"); int mx = lib([&] { return SMA::max_free_mblock_size(); }); MC_CHECK("GN", mx == Tr::SIZE, "with everything released and merged the largest free block is %d of %d", mx, Tr::SIZE); void *q = alloc(Tr::SIZE); MC_CHECK("G", q == base, "with everything released and merged the pool cannot be allocated as one block"); }
    }
    void canon(GraphHash &g, Hash &hh) {
        for (const Held &x : h) hh.mix((u64)x.off << 32 | x.bytes);
        if constexpr (PORT) { // the block that fills most of the pool is left out
            u64 b0 = (u64)bigAddr & ~7ull, b1 = ((u64)bigAddr + big) & ~7ull;
            g.bytes((void *)gBegin(), b0 - gBegin()); g.bytes((void *)b1, gBegin() + gSize() - b1);
        } else g.bytes((void *)gBegin(), gSize());
    }
};
// Larger pools: fill by a family of size sequences, release in a family of orders, with one merge and one more request anywhere in between.
template <class Tr> struct PoolFam : PoolWorld<Tr> {
    typedef PoolWorld<Tr> B; using B::h; static constexpr int MX = Tr::SIZE / 8;
    static const std::vector<std::vector<int>> &fills() { static const std::vector<std::vector<int>> *t = new std::vector<std::vector<int>>{{8}, {16}, {8, 24}, {8, 16, 24, 32}, {40, 8}, {16, 8, 8}}; static const std::vector<std::vector<int>> *w = new std::vector<std::vector<int>>{{64, 72}, {128}, {136, 8}, {120, 112, 104, 96}, {80, 88, 8}, {56, 200}}; return Tr::SIZE >= 1000 ? *w : *t; }
    static void mk() { fills(); for (int n = 1; n <= MX; n++) Fam::touch(n); }
    int fill, rel, merges, again, order[MX], norder, released; bool full; // order: offsets in order of allocation
    void init() { B::init(); fill = rel = -1; merges = again = norder = released = 0; full = false; }
    int nfill() { return (int)fills().size(); }
    int nops() { return nfill() + Fam::NUM + 1 + 5; }
    static int again_(int o) { return o <= 3 ? 8 * o * o : o == 4 ? Tr::SIZE / 4 + 3 : Tr::SIZE / 2; }
    bool enabled(int o) {
        if (o < nfill()) return !full && (fill < 0 || fill == o); o -= nfill();
        if (B::PORT && o >= Fam::NUM && (o == Fam::NUM || B::up(again_(o - Fam::NUM)) > this->maxRun())) return false;
        if (o < Fam::NUM) return full && released < norder && (rel < 0 || rel == o); o -= Fam::NUM;
        bool stage = released == norder || released == 1 || released == norder / 4 || released == norder / 2 || released == norder * 3 / 4; // when merging and allocating again are tried
        if (o == 0) return full && !merges && stage; return full && rel >= 0 && !again && stage;
    }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t n) { if (o < nfill()) { snprintf(b, n, "allocate(next of pattern %d)", o); return; } o -= nfill(); if (o < Fam::NUM) { snprintf(b, n, "release(next, %s)", Fam::name(o)); return; } o -= Fam::NUM; if (o == 0) snprintf(b, n, "merge"); else snprintf(b, n, "allocate(%d)", again_(o)); }
    void apply(int o) {
        typedef typename B::SMA SMA;
        if (o < nfill()) {
            fill = o; const std::vector<int> &q = fills()[o]; int z = q[norder % q.size()]; void *p = B::PORT && B::up(z) > this->maxRun() ? nullptr : this->alloc(z);
            if (p) { this->place(p, z, "allocate"); order[norder++] = (int)((char *)p - this->base); } else full = true;
            if (norder >= MX) full = true;
            this->acct("after allocate"); this->intact("by allocate"); return;
        }
        o -= nfill();
        if (o < Fam::NUM) {
            rel = o; int off = order[Fam::value(o, released++, norder)], k = 0; while (k < h.n && h[k].off != off) k++; if (k == h.n) fail("?", "lost track of a block");
            auto x = h[k]; rawset(this->base + x.off, 0xDD, B::up(x.bytes)); h.erase(k);
            bool ok = lib([&] { return Tr::deallocate(this->base + x.off, x.bytes); }); MC_SOFT("N", ok, "releasing a held block of %d bytes is rejected", x.bytes);
            this->acct("after a release"); this->intact("by a release"); return;
        }
        o -= Fam::NUM;
        if (o == 0) { merges++; if constexpr (!B::PORT) LIB(SMA::memory_merge()); this->acct("after merge"); this->intact("by merge"); return; }
        again++; int z = again_(o); void *p = this->alloc(z); if (p) this->place(p, z, "allocate"); else MC_CHECK("P", !B::PORT, "the port returns no memory for %d bytes with %d contiguous bytes free", z, this->maxRun()); this->acct("after allocate"); this->intact("by allocate");
    }
    void canon(GraphHash &g, Hash &hh) { hh.mix(merges * 4 + again); hh.mix(full); hh.mix(released < norder ? rel : -1); if (released < norder) for (int i = 0; i < norder; i++) hh.mix(order[i]); if (!full) hh.mix(fill); hh.mix(released); B::canon(g, hh); }
};
template <class W> Job poolJob(const char *n) { W::mk(); return Ops<W>::job(n); }
} // namespace mc
