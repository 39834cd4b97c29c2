// Explicit-state model checking kernel for DStruct.
//
// The transition system is the real library code: a state is the memory of the
// container objects (plus everything reachable from them and all static data), a
// transition is one public operation. The kernel explores breadth first, stores a
// canonical hash per state, re-executes the stored history of every state from the
// initial state before expanding it (and insists on arriving at the same state),
// and judges every state against a reference model kept by the harness ("world").
#pragma once
#include <cassert>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#include <sanitizer/asan_interface.h>
#else
#define MC_ASAN 0
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif
#define MC_RAW __attribute__((no_sanitize_address, noinline))

extern "C" char __data_start[], _end[];

namespace mc {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ------------------------------------------------------------------ layout
// One fixed region outside .data/.bss, so that restoring the static data of the
// library never touches the explorer itself.
constexpr u64 CTL   = 0x410000000000ull;              // shared with the parent
constexpr u64 CTLSZ = 1 << 20;
constexpr u64 KST   = 0x410010000000ull;              // snapshotted kernel state
constexpr u64 KSTSZ = 8 << 20;
constexpr u64 WRL   = 0x410020000000ull;              // the world (trivially copyable)
constexpr u64 WRLSZ = 1 << 20;
constexpr u64 ARENA = 0x410040000000ull;              // heap of the library
constexpr u64 ARENASZ = 64ull << 20;
constexpr u64 ESH   = 0x410050000000ull;              // element shadow of ARENA, 1 per 4 bytes
constexpr u64 ESHSZ = ARENASZ / 4;
constexpr u64 GSH   = 0x410060000000ull;              // element shadow of static data
constexpr u64 GSHSZ = 4 << 20;

enum BlockKind : u8 { BK_ROOT, BK_ALLOC, BK_MALLOC, BK_BUF };

struct Block { u64 addr; u32 size; u8 alive; u8 kind; u8 pad[2]; };

constexpr int MAXBLK = 65536;
struct KState {                 // copied by snapshots
    u64 top;                    // arena bump pointer
    int nblk;
    int liveBlk;                // BK_ALLOC / BK_MALLOC blocks still held
    u64 liveBytes, peakBytes;
    u64 events;                 // element events since the last op began
    u64 constructed, destroyed;
    u32 nextId;
    int liveElems;              // live elements in the arena or in static data
    Block blk[MAXBLK];
};
inline KState &ks() { return *reinterpret_cast<KState *>(KST); }

constexpr int MAXHIST = 4096;
struct Ctl {                    // shared memory, never restored
    // progress, readable by the parent after a crash
    int histLen;
    int hist[MAXHIST];
    int phase;                  // 0 init 1 replay 2 apply 3 check 4 finish 5 hash
    u64 progress;
    // failure found in process
    char act[8];                // what the harness is doing: these kinds are added to any failure meanwhile
    char failKinds[40];
    char failMsg[1500];
    // result
    int done;                   // 1 finished exploring, 2 violation recorded
    u64 states, transitions, replayed, finished, checks, probes;
    u64 dirtyStatics;                          // snapshots in which the library had changed static data
    int maxDepth, fullDepth; // every history of up to fullDepth operations was judged
    int exhaustive;
    int capped;
    double secs;
    char cap[64];
    int nsamples;
    char samples[6][1500];
    u64 harness;                // states dropped because of a limit of the harness
    u64 unmatched;              // failures outside the mask that were skipped
    char unmatchedKinds[64][24];
    u64 counters[64];           // world-defined coverage counters
    char counterNames[64][40];
    int ncounters;
};
inline Ctl &ctl() { return *reinterpret_cast<Ctl *>(CTL); }

struct Priv {                   // private explorer state, kept on the heap
    sigjmp_buf jb;
    bool armed = false;
    int inLib = 0;
    bool strictAlloc = false;   // malloc by the library is an allocator bypass
    u64 hiTop = ARENA;          // highest arena top since process start
    u64 lastProgress = 0; int stuck = 0; int hangLimit = 8;
    u32 *canon = nullptr; std::vector<u32> canonSet;
    bool verbose = false;
    char *stackHi = nullptr;
    bool curLeakOk = false;
    u64 cmps = 0;               // comparisons of elements so far
    const char *mask = "";      // the failure kinds that are judged
};
inline Priv *&privp() { // one pointer, constant after start-up, so restoring it is harmless
    static Priv *p = nullptr;
    return p;
}
inline Priv &pv() { return *privp(); }

// ------------------------------------------------------------------ failure
// kinds: F functional, I iterator/algorithm law, S crash/hang/assert, X memory error,
// L lifetime, M storage discipline, R reference stability, B storage bound, H balance
[[noreturn]] inline void fail(const char *kinds, const char *fmt, ...) {
    Ctl &c = ctl();
    pv().inLib = 0;
    snprintf(c.failKinds, sizeof c.failKinds, "%s%s", kinds, c.act);
    va_list ap; va_start(ap, fmt); vsnprintf(c.failMsg, sizeof c.failMsg, fmt, ap); va_end(ap);
    if (!pv().armed) { fprintf(stderr, "failure outside exploration [%s]: %s\n", kinds, c.failMsg); _exit(43); }
    siglongjmp(pv().jb, 1);
}
struct Act { char old[8]; explicit Act(const char *k) { memcpy(old, ctl().act, 8); snprintf(ctl().act, 8, "%s", k); } ~Act() { memcpy(ctl().act, old, 8); } };
// whether a failure of these kinds would be judged; one that is not judged must not hide what comes after it
inline bool wanted(const char *kinds) {
    char k[64]; snprintf(k, sizeof k, "%s%s", kinds, ctl().act);
    for (const char *p = pv().mask; *p;) { bool all = *p != ','; for (; *p && *p != ','; p++) if (!strchr(k, *p)) all = false; if (all) return true; if (*p) p++; }
    return false;
}
#define MC_SOFT(kinds, cond, ...) do { if (mc::wanted(kinds) && !(cond)) mc::fail(kinds, __VA_ARGS__); } while (0)
#define MC_CHECK(kinds, cond, ...) do { if (!(cond)) mc::fail(kinds, __VA_ARGS__); } while (0)

struct InLib { int old; InLib() : old(pv().inLib) { pv().inLib = 1; } ~InLib() { pv().inLib = old; } };
struct OutLib { int old; OutLib() : old(pv().inLib) { pv().inLib = 0; } ~OutLib() { pv().inLib = old; } };
#define LIB(...) do { mc::InLib _inlib; __VA_ARGS__; } while (0)
template <class Fn> static inline auto lib(Fn fn) -> decltype(fn()) { InLib g; return fn(); }

constexpr u64 MAXEVENTS = 400000;
inline void event() {
    if (++ks().events > MAXEVENTS) fail("S", "runaway: more than %llu element operations in one step", (unsigned long long)MAXEVENTS);
}

// ------------------------------------------------------------------ arena
constexpr u64 REDZONE = 32;
MC_RAW inline void rawset(void *d, int v, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); }
MC_RAW inline void rawcpy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }

inline bool inArena(u64 a) { return a >= ARENA && a < ARENA + ARENASZ; }

inline void *arenaAlloc(u64 n, BlockKind kind, u64 align = 16, u64 REDZONE = mc::REDZONE) {
    KState &k = ks();
    u64 a = (k.top + REDZONE + align - 1) & ~(align - 1);
    if (a + n + REDZONE > ARENA + ARENASZ || k.nblk >= MAXBLK) fail("S", "runaway: the operation keeps allocating storage (%llu bytes live)", (unsigned long long)k.liveBytes);
    k.top = a + n;
    k.blk[k.nblk].addr = a; k.blk[k.nblk].size = (u32)n; k.blk[k.nblk].alive = 1; k.blk[k.nblk].kind = kind;
    k.nblk++;
    if (kind == BK_ALLOC || kind == BK_MALLOC) {
        k.liveBlk++; k.liveBytes += n;
        if (k.liveBytes > k.peakBytes) k.peakBytes = k.liveBytes;
        if (k.liveBytes > (16u << 20)) fail("S", "runaway: %llu bytes of storage held", (unsigned long long)k.liveBytes);
    }
    if (k.top > pv().hiTop) pv().hiTop = k.top;
    ASAN_UNPOISON_MEMORY_REGION((void *)a, n);
    memset((void *)a, 0xBE, n);
    return (void *)a;
}
inline Block *findBlock(u64 a) { // block with addr <= a <= addr+size
    KState &k = ks();
    int lo = 0, hi = k.nblk - 1, r = -1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (k.blk[m].addr <= a) { r = m; lo = m + 1; } else hi = m - 1; }
    if (r < 0) return nullptr;
    Block *b = &k.blk[r];
    return a <= b->addr + b->size ? b : nullptr;
}

// ------------------------------------------------------------------ element shadow
enum : u8 { E_NONE = 0, E_ALIVE = 1, E_DEAD = 2 };
inline u8 *shadowOf(const void *p) {
    u64 a = (u64)p;
    if (inArena(a)) return (u8 *)(ESH + (a - ARENA) / 4);
    u64 g = (u64)__data_start;
    if (a >= g && a < (u64)_end && (a - g) / 4 < GSHSZ) return (u8 *)(GSH + (a - g) / 4);
    return nullptr; // stack temporaries: the compiler runs their destructors
}
inline void scanLive(u64 addr, u64 size, const char *what) {
    u8 *s = shadowOf((void *)addr);
    if (!s) return;
    for (u64 i = 0; i < (size + 3) / 4; i++)
        if (s[i] == E_ALIVE) fail("L", "%s while an element in it (offset %llu) was never destroyed", what, (unsigned long long)(i * 4));
}

inline void arenaFree(void *p, long long bytes, BlockKind kind) { // bytes < 0: not known
    if (!p) return;
    u64 a = (u64)p;
    Block *b = inArena(a) ? findBlock(a) : nullptr;
    if (!b || b->addr != a) fail("M", "release of an address that is not a block obtained from the allocator");
    if (!b->alive) fail("M", "a block is released twice");
    if (b->kind != kind) fail("M", "a block is released to a different allocator than it was obtained from");
    if (bytes >= 0 && (u64)bytes != b->size) fail("M", "a block of %u bytes is released as %lld bytes", b->size, bytes);
    scanLive(a, b->size, "storage released");
    b->alive = 0;
    KState &k = ks();
    k.liveBlk--; k.liveBytes -= b->size;
    rawset((void *)a, 0xDD, b->size);
    ASAN_POISON_MEMORY_REGION((void *)a, (b->size + 7) & ~7ull);
}

// The allocator handed to containers under test.
struct TrackAlloc {
    static void *allocate(int bytes) {
        OutLib g;
        if (bytes < 0) fail("M", "allocation of %d bytes requested", bytes);
        return arenaAlloc(bytes, BK_ALLOC);
    }
    static void deallocate(void *p, int bytes) { OutLib g; arenaFree(p, bytes, BK_ALLOC); }
};

// An allocator that, like a packed pool, puts blocks next to each other and reuses released ones of the
// same size: R 1 the highest, R 2 the lowest. Worlds that use it hash the block layout too.
template <int R> struct TightAlloc {
    static void *allocate(int bytes) {
        OutLib g;
        if (bytes < 0) fail("M", "allocation of %d bytes requested", bytes);
        u32 n = (bytes + 7) & ~7; KState &k = ks();
        for (int q = 0; q < k.nblk; q++) {
            Block &b = k.blk[R == 1 ? k.nblk - 1 - q : q];
            if (b.alive || b.kind != BK_ALLOC || b.size != n) continue;
            b.alive = 1; k.liveBlk++; k.liveBytes += n; if (k.liveBytes > k.peakBytes) k.peakBytes = k.liveBytes;
            ASAN_UNPOISON_MEMORY_REGION((void *)b.addr, n); rawset((void *)b.addr, 0xBE, n); rawset(shadowOf((void *)b.addr), 0, n / 4);
            return (void *)b.addr;
        }
        return arenaAlloc(n, BK_ALLOC, 8, 0);
    }
    static void deallocate(void *p, int bytes) { OutLib g; arenaFree(p, (bytes + 7) & ~7, BK_ALLOC); }
};
template <class A> struct IsTight { static constexpr bool value = false; };
template <int R> struct IsTight<TightAlloc<R>> { static constexpr bool value = true; };

// ------------------------------------------------------------------ elements
// 0xA5iiiiii: token number i. Tokens are opaque to the library; their order is the rank
// table of the world, so exploration is over all orderings, not over particular numbers.
constexpr u32 TAG = 0xA5000000u;
constexpr u32 DEADW = 0x5DEADBADu;
constexpr u32 MOVED = 0x5D0BED00u;
constexpr u32 DEFID = 0;            // id of a default constructed element
constexpr int MAXID = 4096;
struct RankTab { int rank[MAXID]; };
constexpr u64 RANKS = KST + (4 << 20);
inline RankTab &ranks() { return *reinterpret_cast<RankTab *>(RANKS); }

template <int SZ = 4, int AL = 4>
struct alignas(AL) El {
    static constexpr int NW = SZ / 4;
    u32 w;
    struct Empty {}; struct Tail { u32 t[NW > 1 ? NW - 1 : 1]; };
    [[no_unique_address]] typename std::conditional<(NW > 1), Tail, Empty>::type tail;
    void fill() { if constexpr (NW > 1) for (int i = 0; i < NW - 1; i++) tail.t[i] = w; }
    void born(u32 v) {
        event();
        if (u8 *s = shadowOf(this)) {
            if (*s == E_ALIVE) fail("L", "an element is constructed over a live element");
            *s = E_ALIVE; ks().liveElems++;
        }
        ks().constructed++;
        w = v; fill();
    }
    u32 rd(const char *what = "read") const {
        event();
        if (u8 *s = shadowOf(this)) if (*s != E_ALIVE)
            fail("L", *s == E_DEAD ? "an element is %s after it was destroyed" : "storage that holds no element is %s", what);
        if (w == DEADW) fail("L", "an element is %s after it was destroyed", what);
        if (w != MOVED && (w & 0xff000000u) != TAG) fail("LF", "an element holds garbage (0x%08x) when it is %s", w, what);
        if constexpr (NW > 1) for (int i = 0; i < NW - 1; i++) if (tail.t[i] != w) fail("F", "an element is torn (word %d)", i + 1);
        return w;
    }
    El() { born(TAG | DEFID); }
    explicit El(u32 id, int) { born(TAG | id); }
    El(const El &o) { born(o.rd("copied")); }
    El(El &&o) { u32 v = o.rd("moved from"); born(v); o.w = MOVED; o.fill(); }
    El &operator=(const El &o) { rd("assigned"); u32 v = o.rd("copied"); w = v; fill(); return *this; }
    El &operator=(El &&o) { rd("assigned"); u32 v = o.rd("moved from"); if (this != &o) { o.w = MOVED; o.fill(); } w = v; fill(); return *this; }
    ~El() {
        event();
        if (u8 *s = shadowOf(this)) {
            if (*s != E_ALIVE) fail("L", *s == E_DEAD ? "an element is destroyed twice" : "storage that never held an element is destroyed as one");
            *s = E_DEAD; ks().liveElems--;
        } else if (w == DEADW) fail("L", "an element is destroyed twice");
        ks().destroyed++;
        w = DEADW; fill();
        asm volatile("" ::: "memory");
    }
    u32 id() const { u32 v = rd(); if (v == MOVED) return 0xffffff; return v & 0xffffff; }
    int rank() const {
        u32 i = id();
        if (i == 0xffffff) fail("F", "a moved-from element is compared");
        return i < MAXID ? ranks().rank[i] : (int)i;
    }
    // misuse of these by the library compiles; whether it is right is judged by the outcome
    friend bool operator==(const El &a, const El &b) { pv().cmps++; return a.rank() == b.rank(); }
    friend bool operator!=(const El &a, const El &b) { pv().cmps++; return a.rank() != b.rank(); }
    friend bool operator<(const El &a, const El &b) { pv().cmps++; return a.rank() < b.rank(); }
    friend bool operator>(const El &a, const El &b) { pv().cmps++; return a.rank() > b.rank(); }
    friend bool operator<=(const El &a, const El &b) { pv().cmps++; return a.rank() <= b.rank(); }
    friend bool operator>=(const El &a, const El &b) { pv().cmps++; return a.rank() >= b.rank(); }
};
typedef El<4, 4> Tk;
typedef El<24, 8> Tk24;
typedef El<48, 16> Tk48;

// uniform access to the identity carried by an element type
template <class T> struct Val;
template <int S, int A> struct Val<El<S, A>> {
    typedef El<S, A> T;
    static T make(u32 id) { return T(id, 0); }
    static u32 id(const T &v) { return v.id(); }
    static constexpr bool tracked = true;
};
template <> struct Val<int> {
    static int make(u32 id) { return (int)(TAG | id); }
    static u32 id(const int &v) { u32 w = (u32)v; if ((w & 0xff000000u) != TAG) return 0x1000000u | (w & 0xffffff); return w & 0xffffff; }
    static constexpr bool tracked = false;
};
template <> struct Val<u64> {
    static u64 make(u32 id) { return (u64)(TAG | id) | ((u64)(TAG | id) << 32); }
    static u32 id(const u64 &v) { u32 w = (u32)v; if ((w & 0xff000000u) != TAG || (v >> 32) != w) return 0x1000000u | (w & 0xffffff); return w & 0xffffff; }
    static constexpr bool tracked = false;
};
template <> struct Val<long double> { // 16-byte aligned scalar
    static long double make(u32 id) { return (long double)id + 0.5L; }
    static u32 id(const long double &v) { if (!(v >= 0 && v < 16777216)) return 0x1000001u; u32 i = (u32)v; return v == (long double)i + 0.5L ? i : (0x1000000u | i); }
    static constexpr bool tracked = false;
};

// A temporary the library receives as an argument. It lives on the harness stack.
template <class T> struct Arg { T v; explicit Arg(u32 id) : v(Val<T>::make(id)) {} };

// ------------------------------------------------------------------ fixed vectors for models
template <class T, int N> struct SV {
    int n; T a[N];
    void clear() { n = 0; }
    void push_back(T v) { if (n >= N) fail("?", "model overflow"); a[n++] = v; }
    void pop_back() { n--; }
    void insert(int i, T v) { if (n >= N) fail("?", "model overflow"); for (int k = n; k > i; k--) a[k] = a[k - 1]; a[i] = v; n++; }
    void erase(int i) { for (int k = i; k + 1 < n; k++) a[k] = a[k + 1]; n--; }
    T &operator[](int i) { return a[i]; }
    const T &operator[](int i) const { return a[i]; }
    int find(const T &v) const { for (int i = 0; i < n; i++) if (a[i] == v) return i; return -1; }
    const T *begin() const { return a; }
    const T *end() const { return a + n; }
    bool operator==(const SV &o) const { if (n != o.n) return false; for (int i = 0; i < n; i++) if (!(a[i] == o.a[i])) return false; return true; }
};

// ------------------------------------------------------------------ hashing
struct Hash {
    u64 a = 0x9E3779B97F4A7C15ull, b = 0xC2B2AE3D27D4EB4Full;
    void mix(u64 v) {
        a ^= v; a *= 0xff51afd7ed558ccdull; a ^= a >> 32;
        b += v * 0x9E3779B97F4A7C15ull; b ^= b >> 29; b *= 0xbf58476d1ce4e5b9ull;
    }
};
struct H128 { u64 a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct H128Hash { size_t operator()(const H128 &h) const { return h.a ^ (h.b * 31); } };

inline void canonId(u32 id, u32 cls) { // the canonical name of a live token
    if (id >= 65536) return;
    pv().canon[id] = cls; pv().canonSet.push_back(id);
}
constexpr u32 CANON_STALE = 0xffffffffu;
inline void canonReset() { for (u32 i : pv().canonSet) pv().canon[i] = CANON_STALE; pv().canonSet.clear(); pv().canon[0] = 0x00d0d0d0; }

struct GraphHash {
    Hash &h;
    std::vector<int> order;                 // block index by discovery
    std::vector<int> num;                   // block -> discovery number
    explicit GraphHash(Hash &hh) : h(hh), num(ks().nblk, -1) {}
    int visit(int bi) { if (num[bi] < 0) { num[bi] = (int)order.size(); order.push_back(bi); } return num[bi]; }
    void word32(u32 v) {
        if ((v & 0xff000000u) == TAG) { u32 id = v & 0xffffff; h.mix(0xA5A50000ull << 16 | (id < 65536 ? pv().canon[id] : CANON_STALE)); }
        else h.mix(v);
    }
    MC_RAW void word(u64 v) {
        if (inArena(v)) {
            Block *b = findBlock(v);
            if (!b || !b->alive) { h.mix(0xdead0001); return; }
            int n = visit((int)(b - ks().blk));
            h.mix(0x1111000000000000ull | ((u64)n << 24) | (v - b->addr));
            return;
        }
        u64 sp = (u64)__builtin_frame_address(0);
        if (v > sp - (8u << 20) && v < sp + (8u << 20)) { h.mix(0xdead0002); return; }
        word32((u32)v); word32((u32)(v >> 32));
    }
    MC_RAW void bytes(const void *p, u64 n) {
        const u8 *c = (const u8 *)p;
        while (n >= 8) { word(*(const u64 *)c); c += 8; n -= 8; }
        u64 v = 0; for (u64 i = 0; i < n; i++) v |= (u64)c[i] << (8 * i);
        if (n) word32((u32)v), word32((u32)(v >> 32));
    }
    void root(const void *p) { Block *b = findBlock((u64)p); visit((int)(b - ks().blk)); }
    bool layout = false;                    // addresses matter: the allocator reuses blocks
    void run() {
        for (size_t i = 0; i < order.size(); i++) { Block &b = ks().blk[order[i]]; h.mix(0x2222000000000000ull | b.size); bytes((void *)b.addr, b.size); }
        h.mix(ks().liveBlk); h.mix(ks().liveBytes);
        if (layout) for (int i = 0; i < ks().nblk; i++) { Block &b = ks().blk[i]; if (b.kind == BK_ALLOC) { h.mix(0x3333000000000000ull | ((u64)b.size << 24) | (b.alive ? num[i] + 2 : 0)); } }
    }
};

// ------------------------------------------------------------------ snapshots
struct Snap {
    std::vector<u8> k, w, ar, sh, es, g, gs, rk, g2, gs2;
};
inline u64 gBegin() { return (u64)__data_start; }
inline u64 gSize() { return (u64)_end - (u64)__data_start; }
template <class V> MC_RAW void grab(V &v, u64 a, u64 n) { v.resize(n); rawcpy(v.data(), (void *)a, n); }
template <class V> MC_RAW void put(const V &v, u64 a) { rawcpy((void *)a, v.data(), v.size()); }
#define MC_SHADOW(a) (((a) >> 3) + 0x7fff8000ull)

struct Machine {
    u64 worldSize = 0;
    bool useGlobals = true, useGsh = false;    // useGlobals: static data is part of the state as such; else only its deviations from the start are
    Snap g0;                                   // pristine static data
    u64 skipLo = 0, skipHi = 0;                // static data left out of snapshots (nothing may write there)
    struct Part { u64 a, n; };
    void parts(Part (&p)[2]) {
        if (skipHi <= skipLo) { p[0] = {gBegin(), gSize()}; p[1] = {gBegin(), 0}; }
        else { p[0] = {gBegin(), skipLo - gBegin()}; p[1] = {skipHi, gBegin() + gSize() - skipHi}; }
    }
    void saveG(Snap &s) { Part p[2]; parts(p); grab(s.g, p[0].a, p[0].n); grab(s.g2, p[1].a, p[1].n); if (useGsh) { grab(s.gs, GSH, (p[0].n + 3) / 4); grab(s.gs2, GSH + (p[1].a - gBegin()) / 4, (p[1].n + 3) / 4); } }
    void loadG(const Snap &s) { Part p[2]; parts(p); put(s.g, p[0].a); put(s.g2, p[1].a); if (useGsh) { put(s.gs, GSH); put(s.gs2, GSH + (p[1].a - gBegin()) / 4); } }
    // raw comparison, the regions contain sanitizer redzones
    MC_RAW static bool sameRaw(u64 a, u64 b, u64 n) { u64 i = 0; for (; i + 8 <= n; i += 8) if (*(const u64 *)(a + i) != *(const u64 *)(b + i)) return false; for (; i < n; i++) if (*(const u8 *)(a + i) != *(const u8 *)(b + i)) return false; return true; }
    MC_RAW static bool zeroRaw(u64 a, u64 n) { u64 i = 0; for (; i + 8 <= n; i += 8) if (*(const u64 *)(a + i)) return false; for (; i < n; i++) if (*(const u8 *)(a + i)) return false; return true; }
    u64 gshLen() { return (gSize() + 3) / 4; }
    bool pristine() { return sameRaw(gBegin(), (u64)g0.g.data(), gSize()) && zeroRaw(GSH, gshLen()); }
    void reset() { rawcpy((void *)gBegin(), g0.g.data(), gSize()); rawset((void *)GSH, 0, gshLen()); }
    MC_RAW void hashDirty(Hash &h) { // static data that the library changed
        if (pristine()) return;
        u64 n = gSize(), b = gBegin(), q = (u64)g0.g.data();
        for (u64 i = 0; i + 8 <= n; i += 8) if (*(const u64 *)(b + i) != *(const u64 *)(q + i)) { u64 v = *(const u64 *)(b + i); h.mix(i); h.mix(inArena(v) ? 1 : v); }
    }
    void captureGlobals() { grab(g0.g, gBegin(), gSize()); }
    u64 ksz() { return offsetof(KState, blk) + sizeof(Block) * ks().nblk; }
    u64 arLen() { return ((ks().top - ARENA) + 63) & ~63ull; }
    void save(Snap &s) {
        grab(s.k, KST, ksz());
        grab(s.rk, RANKS, sizeof(int) * 512);
        grab(s.w, WRL, worldSize);
        u64 n = arLen();
        grab(s.ar, ARENA, n);
#if MC_ASAN
        grab(s.sh, MC_SHADOW(ARENA), n / 8);
#endif
        grab(s.es, ESH, n / 4);
        if (useGlobals) saveG(s);
        else if (pristine()) { s.g.clear(); s.gs.clear(); }
        else { grab(s.g, gBegin(), gSize()); grab(s.gs, GSH, gshLen()); ctl().dirtyStatics++; }
    }
    void load(const Snap &s) {
        u64 curTop = ks().top;
        put(s.k, KST); put(s.rk, RANKS); put(s.w, WRL);
        put(s.ar, ARENA); put(s.es, ESH);
        u64 n = s.ar.size();
        wipe(ARENA + n, curTop);
#if MC_ASAN
        put(s.sh, MC_SHADOW(ARENA));
#endif
        if (useGlobals) loadG(s);
        else if (s.g.empty()) { if (!pristine()) reset(); }
        else { put(s.g, gBegin()); put(s.gs, GSH); }
    }
    void wipe(u64 from, u64 to) { // poison and forget everything in [from,to)
        if (to <= from) return;
        u64 e = (to + 64 + 63) & ~63ull;
        if (e > ARENA + ARENASZ) e = ARENA + ARENASZ;
        ASAN_POISON_MEMORY_REGION((void *)from, e - from);
        rawset((void *)(ESH + (from - ARENA) / 4), 0, (e - from) / 4);
    }
    void fresh() {
        KState &k = ks();
        wipe(ARENA, pv().hiTop);
        pv().hiTop = ARENA;
        memset(&k, 0, offsetof(KState, blk));
        k.top = ARENA + 64; k.nextId = 1;
        rawset((void *)WRL, 0, worldSize);
        rawset((void *)RANKS, 0, sizeof(RankTab));
        if (useGlobals) { Part p[2]; parts(p); for (auto &q : p) { rawcpy((void *)q.a, g0.g.data() + (q.a - gBegin()), q.n); if (useGsh) rawset((void *)(GSH + (q.a - gBegin()) / 4), 0, (q.n + 3) / 4); } }
        else if (!pristine()) reset();
    }
};
inline Machine *&machp() { static Machine *m = nullptr; return m; }

// Run fn on the current state and then put the state back exactly as it was.
template <class Fn> inline void probe(Fn fn) {
    Snap *s = new Snap; machp()->save(*s); fn(); machp()->load(*s); delete s; ctl().probes++;
}

// ------------------------------------------------------------------ worlds
struct World {
    // all state of a derived world must be trivially copyable, and there is no vtable here:
    // dispatch goes through Ops<W>
};
struct Job {
    const char *name;
    u64 worldSize;
    void (*init)();
    int (*nops)();
    bool (*enabled)(int);
    void (*apply)(int);
    void (*check)();
    void (*finish)();
    void (*canon)(GraphHash &, Hash &);
    void (*opname)(int, char *, size_t);
    const char *(*opflags)(int);
    u64 maxStates; double maxSec; int maxDepth;
    bool globals, gsh, strictAlloc;
};
template <class W> struct Ops {
    static W &w() { return *reinterpret_cast<W *>(WRL); }
    static Job job(const char *name) {
        static_assert(sizeof(W) <= WRLSZ, "world too big");
        Job j;
        memset((void *)&j, 0, sizeof j);
        j.name = name; j.worldSize = (sizeof(W) + 7) & ~7ull;
        j.init = [] { w().init(); };
        j.nops = [] { return w().nops(); };
        j.enabled = [](int o) { return w().enabled(o); };
        j.apply = [](int o) { w().apply(o); };
        j.check = [] { w().check(); };
        j.finish = [] { w().finish(); };
        j.canon = [](GraphHash &g, Hash &h) { w().canon(g, h); };
        j.opname = [](int o, char *b, size_t n) { w().opname(o, b, n); };
        j.opflags = [](int o) { return w().opflags(o); };
        j.maxStates = 1000000; j.maxSec = 60; j.maxDepth = 100000;
        j.globals = W::kGlobals; j.gsh = W::kGlobals; j.strictAlloc = W::kStrictAlloc;
        return j;
    }
};
inline void count(int i, const char *name, u64 by = 1) {
    Ctl &c = ctl(); c.counters[i] += by;
    if (i >= c.ncounters) c.ncounters = i + 1;
    if (!c.counterNames[i][0]) snprintf(c.counterNames[i], 40, "%s", name);
}

// after all roots of a world were destroyed
inline void endOfLife() {
    KState &k = ks();
    for (int i = 0; i < k.nblk; i++) {
        Block &b = k.blk[i];
        if (b.kind == BK_BUF || b.kind == BK_ROOT) { scanLive(b.addr, b.size, "the container is gone,"); continue; }
        if (b.alive) {
            u8 *s = shadowOf((void *)b.addr); bool le = false;
            for (u64 q = 0; q < (b.size + 3) / 4; q++) if (s[q] == E_ALIVE) le = true;
            fail(le ? "ML" : "M", "after every container was destroyed a block of %u bytes is still held%s", b.size, le ? " with live elements in it" : "");
        }
    }
}

// Uninitialised stack bytes (padding that the library copies) must not make runs differ.
MC_RAW inline void scrubStack() { volatile char b[24576]; rawset((void *)b, 0, sizeof b); asm volatile("" ::: "memory"); }

// ------------------------------------------------------------------ explorer
struct Node { int parent; int op; int depth; };

struct Explorer {
    Job j; std::string mask; double tStart = 0;
    std::vector<Node> nodes; std::vector<H128> hashes;
    std::unordered_map<H128, int, H128Hash> seen;
    std::vector<std::vector<int>> skips;
    static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

    H128 hash() {
        ctl().phase = 5;
        Hash h; GraphHash g(h);
        canonReset();
        j.canon(g, h);
        g.run();
        if (!j.globals) machp()->hashDirty(h);
        canonReset();
        return H128{h.a, h.b};
    }
    std::vector<int> path(int n) { std::vector<int> p; while (nodes[n].parent >= 0) { p.push_back(nodes[n].op); n = nodes[n].parent; } return std::vector<int>(p.rbegin(), p.rend()); }
    void begin(const std::vector<int> &p) { Ctl &c = ctl(); c.histLen = 0; for (int o : p) { if (c.histLen < MAXHIST) c.hist[c.histLen++] = o; } }
    void replay(const std::vector<int> &p) {
        ctl().phase = 1; ctl().act[0] = 0;
        machp()->fresh();
        ks().events = 0;
        j.init();
        for (int o : p) { ks().events = 0; scrubStack(); j.apply(o); ctl().progress++; }
    }
    std::string names(const std::vector<int> &p) {
        std::string s; char b[200];
        for (size_t i = 0; i < p.size(); i++) { j.opname(p[i], b, sizeof b); if (i) s += "; "; s += b; if (s.size() > 1400) { s += " ..."; break; } }
        return s;
    }
    std::string kindsOf(const char *base, const int *hist, int n) {
        std::string k = base;
        for (int i = 0; i < n; i++) for (const char *f = j.opflags(hist[i]); *f; f++) if (k.find(*f) == std::string::npos) k += *f;
        return k;
    }
    bool matches(const std::string &k) { // mask: alternatives separated by ',', each a set of letters all required
        if (k.find('?') != std::string::npos) return false; // a limit of the harness, not a finding: reported as not exhaustive
        size_t p = 0;
        while (p <= mask.size()) {
            size_t q = mask.find(',', p); if (q == std::string::npos) q = mask.size();
            bool all = q > p;
            for (size_t i = p; i < q; i++) if (k.find(mask[i]) == std::string::npos) all = false;
            if (all) return true;
            p = q + 1;
        }
        return false;
    }
    // a failure was caught in process; true: stop
    bool failed() {
        Ctl &c = ctl();
        pv().armed = false;
        std::string k = kindsOf(c.failKinds, c.hist, c.histLen);
        if (matches(k)) { snprintf(c.failKinds, sizeof c.failKinds, "%s", k.c_str()); c.done = 2; return true; }
        if (c.unmatched < 64) snprintf(c.unmatchedKinds[c.unmatched], 24, "%s", k.c_str());
        c.unmatched++; c.exhaustive = 0;
        if (k.find('?') != std::string::npos) { if (!c.harness++) fprintf(stderr, "harness limit: %s\n", c.failMsg); }
        return false;
    }
    void sample(int n) {
        Ctl &c = ctl(); if (c.nsamples >= 6) return;
        snprintf(c.samples[c.nsamples++], 1500, "%s", names(path(n)).c_str());
    }
    void judge() { // check and end-of-life of the current state
        Ctl &c = ctl();
        c.act[0] = 0;
        c.phase = 3; ks().events = 0; probe([&] { j.check(); }); c.checks++;
        c.phase = 4; ks().events = 0; c.act[0] = 0; j.finish(); endOfLife(); c.finished++;
        c.phase = 2;
    }
    bool skipped(const std::vector<int> &p, int op) {
        for (auto &s : skips) if (s.size() == p.size() + 1 && s.back() == op && std::equal(p.begin(), p.end(), s.begin())) return true;
        return false;
    }
    void run() {
        Ctl &c = ctl(); tStart = now();
        pv().strictAlloc = j.strictAlloc;
        c.exhaustive = 1;
        begin({});
        if (sigsetjmp(pv().jb, 1) == 0) {
            pv().armed = true;
            replay({});
            H128 h = hash();
            nodes.push_back({-1, -1, 0}); hashes.push_back(h); seen[h] = 0; c.states = 1;
            judge();
            pv().armed = false;
        } else { if (failed()) { c.secs = now() - tStart; return; } c.exhaustive = 0; c.done = 1; return; }
        Snap *s = new Snap;
        for (volatile size_t i = 0; i < nodes.size(); i++) {
            double t = now() - tStart;
            if (t > j.maxSec) { c.exhaustive = 0; snprintf(c.cap, 64, "time limit %.0f s", j.maxSec); break; }
            if (nodes[i].depth >= j.maxDepth) { if (c.exhaustive) snprintf(c.cap, 64, "depth bound %d", j.maxDepth); c.exhaustive = 0; continue; }
            std::vector<int> p = path((int)i);
            begin(p);
            volatile int nops = 0;
            volatile bool ok = false;
            if (sigsetjmp(pv().jb, 1) == 0) {
                pv().armed = true;
                replay(p);
                H128 h = hash();
                if (!(h == hashes[i])) fail("?", "replaying a history from scratch led to a different state than the exploration did: %s", names(p).c_str());
                c.replayed++;
                nops = j.nops(); if (!c.cap[0]) c.fullDepth = nodes[i].depth;
                machp()->save(*s);
                ok = true;
                pv().armed = false;
            } else { if (failed()) { c.secs = now() - tStart; return; } }
            if (!ok) { c.exhaustive = 0; continue; }
            bool first = true;
            for (volatile int op = 0; op < nops; op++) {
                c.histLen = (int)p.size();
                if (!first) machp()->load(*s);
                first = false;
                if (!j.enabled(op)) continue;
                if (!skips.empty() && skipped(p, op)) continue;
                c.hist[c.histLen++] = op;
                c.transitions++; c.progress++;
                if (sigsetjmp(pv().jb, 1) == 0) {
                    pv().armed = true;
                    c.phase = 2; ks().events = 0; c.act[0] = 0;
                    scrubStack();
                    j.apply(op);
                    H128 h = hash();
                    if (!seen.count(h)) {
                        if (nodes.size() >= j.maxStates) { if (c.exhaustive) snprintf(c.cap, 64, "state limit %llu", (unsigned long long)j.maxStates); c.exhaustive = 0; }
                        else {
                            int id = (int)nodes.size();
                            nodes.push_back({(int)i, op, nodes[i].depth + 1}); hashes.push_back(h); seen[h] = id;
                            c.states++;
                            if (nodes[id].depth > c.maxDepth) c.maxDepth = nodes[id].depth;
                            judge();
                            if (id == 7 || id == 60 || id == 500) sample(id);
                        }
                    }
                    pv().armed = false;
                } else if (failed()) { c.secs = now() - tStart; return; }
            }
        }
        if (nodes.size() > 1) { sample((int)nodes.size() / 2); sample((int)nodes.size() - 1); }
        delete s;
        c.secs = now() - tStart;
        c.done = 1;
    }
    // Re-execute one history in this process, judging every state on the way. 0: no failure, 1: a failure of the wanted kinds, 2: other failures only.
    int replayChecked(const std::vector<int> &p) {
        pv().strictAlloc = j.strictAlloc;
        Ctl &c = ctl();
        char nm[200]; volatile int res = 0;
        for (volatile size_t k = 0; k <= p.size(); k++) {
            c.histLen = (int)k; for (size_t i = 0; i < k; i++) c.hist[i] = p[i];
            if (k) { j.opname(p[k - 1], nm, sizeof nm); if (pv().verbose) { printf("  %2zu: %s\n", (size_t)k, nm); fflush(stdout); } }
            if (k < p.size() && k + 1 != p.size() && p.size() > 60 && k % 8) continue;
            std::vector<int> *q = new std::vector<int>(p.begin(), p.begin() + k);
            if (sigsetjmp(pv().jb, 1) == 0) {
                pv().armed = true;
                replay(*q);
                if (k < p.size()) { if (!j.enabled(p[k])) fail("?", "replay: operation %zu not enabled", (size_t)k); }
                hash();
                judge();
                pv().armed = false;
            } else {
                pv().armed = false;
                std::string kd = kindsOf(c.failKinds, c.hist, c.histLen);
                if (matches(kd)) { snprintf(c.failKinds, sizeof c.failKinds, "%s", kd.c_str()); return 1; }
                if (kd.find('?') != std::string::npos) return 2;
                res = 2; // some other failure: it must not hide what comes later
            }
            delete q;
        }
        return res;
    }
};

// ------------------------------------------------------------------ signals
inline void onSignal(int s) {
    if (s == SIGPROF) {
        Priv &p = pv();
        if (ctl().progress != p.lastProgress) { p.lastProgress = ctl().progress; p.stuck = 0; return; }
        if (++p.stuck < p.hangLimit || !p.armed) return;
        p.stuck = 0;
        fail("S", "the operation does not terminate");
    }
    if (!pv().armed) { signal(s, SIG_DFL); raise(s); return; }
    const char *n = s == SIGSEGV ? "invalid memory access (SIGSEGV: null dereference, library crash check or stack overflow)" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic fault" : s == SIGBUS ? "SIGBUS" : "illegal instruction";
    fail("S", "crash: %s", n);
}
inline void installSignals() {
    static char *alt = (char *)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) sigaction(s, &sa, nullptr);
    itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_PROF, &it, nullptr);
}

// ------------------------------------------------------------------ main
inline std::vector<Job> *&jobsp() { static std::vector<Job> *v = nullptr; return v; }
inline void jsonStr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((u8)*s < 32) fprintf(f, "\\u%04x", *s); else fputc(*s, f); }
    fputc('"', f);
}
void registerJobs(std::vector<Job> &); // by the harness

inline void mapAll() {
    auto m = [](u64 a, u64 n, int fl) {
        void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, fl | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
        if (p != (void *)a) { perror("mmap"); _exit(44); }
    };
    m(CTL, CTLSZ, MAP_SHARED);
    m(KST, KSTSZ, MAP_PRIVATE); m(WRL, WRLSZ, MAP_PRIVATE); m(ARENA, ARENASZ, MAP_PRIVATE);
    m(ESH, ESHSZ, MAP_PRIVATE); m(GSH, GSHSZ, MAP_PRIVATE);
    static_assert(sizeof(KState) <= (4 << 20), "KState too big");
    static_assert(sizeof(Ctl) <= CTLSZ, "Ctl too big");
    privp() = new Priv;
    pv().canon = new u32[65536]; for (int i = 0; i < 65536; i++) pv().canon[i] = CANON_STALE;
    pv().canon[0] = 0x00d0d0d0;
    machp() = new Machine;
    ASAN_POISON_MEMORY_REGION((void *)ARENA, 1 << 20);
    pv().hiTop = ARENA + (1 << 20) - 128;
}

inline int mcMain(int argc, char **argv) {
    std::string jobName, out, mask = "F,S,X,I,L,M,R,B,H,T,E,O,C,V,A,K,Y"; std::vector<int> rp; bool doReplay = false, list = false, verbose = false;
    double maxSec = -1; long long maxStates = -1; int maxDepth = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--job") jobName = val(); else if (a == "--out") out = val(); else if (a == "--mask") mask = val();
        else if (a == "--sec") maxSec = atof(val().c_str()); else if (a == "--states") maxStates = atoll(val().c_str());
        else if (a == "--depth") maxDepth = atoi(val().c_str());
        else if (a == "--list") list = true; else if (a == "-v") verbose = true;
        else if (a == "--replay") { doReplay = true; std::string s = val(); size_t p = 0; while (p < s.size()) { rp.push_back(atoi(s.c_str() + p)); p = s.find(',', p); if (p == std::string::npos) break; p++; } }
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    mapAll();
    jobsp() = new std::vector<Job>; registerJobs(*jobsp());
    if (list) { for (auto &j : *jobsp()) printf("%s\n", j.name); return 0; }
    Job *jp = nullptr; for (auto &j : *jobsp()) if (jobName == j.name) jp = &j;
    if (!jp) { fprintf(stderr, "no such job %s\n", jobName.c_str()); return 2; }
    if (maxSec >= 0) jp->maxSec = maxSec; if (maxStates >= 0) jp->maxStates = maxStates; if (maxDepth >= 0) jp->maxDepth = maxDepth;
    machp()->worldSize = jp->worldSize; machp()->useGlobals = jp->globals; machp()->useGsh = jp->gsh;
    installSignals();
    // captured last, so the explorer's own statics are already constant
    machp()->captureGlobals();
    Explorer *ex = new Explorer; ex->j = *jp; ex->mask = mask; pv().mask = strdup(mask.c_str());
    Ctl &c = ctl();
    if (doReplay) {
        pv().verbose = true;
        pid_t pid = fork();
        if (pid == 0) { installSignals(); int r = ex->replayChecked(rp); fflush(stdout); _exit(r == 0 ? 0 : r == 1 ? 42 : 41); }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { printf("replay: no failure\n"); return 0; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42) { printf("FAILURE [%s] %s\n", c.failKinds, c.failMsg); return 42; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { printf("failure outside the mask [%s] %s\n", c.failKinds, c.failMsg); return 41; }
        std::string k = ex->kindsOf((std::string("SX") + c.act).c_str(), c.hist, c.histLen);
        printf("FAILURE [%s] memory error reported by AddressSanitizer or abnormal end (status 0x%x) in phase %d\n", k.c_str(), st, c.phase);
        return ex->matches(k) ? 42 : 41;
    }
    bool vio = false; std::string vk, vm; std::vector<int> vh; int restarts = 0;
    for (;;) {
        memset(&c, 0, sizeof c);
        pid_t pid = fork();
        if (pid == 0) { installSignals(); ex->run(); _exit(0); }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && c.done == 1) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && c.done == 2) { vio = true; vk = c.failKinds; vm = c.failMsg; vh.assign(c.hist, c.hist + c.histLen); break; }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "explorer killed\n"); return 3; }
        std::string k = ex->kindsOf((std::string("SX") + c.act).c_str(), c.hist, c.histLen);
        std::vector<int> h(c.hist, c.hist + c.histLen);
        if (ex->matches(k)) { vio = true; vk = k; vm = "memory error (AddressSanitizer report)"; vh = h; break; }
        if (h.empty() || ++restarts > 12) { c.exhaustive = 0; snprintf(c.cap, 64, "gave up after crashes outside this property"); break; }
        ex->skips.push_back(h);
    }
    if (restarts) { c.exhaustive = 0; c.unmatched += restarts; }
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"job\":"); jsonStr(f, jp->name);
    fprintf(f, ",\"states\":%llu,\"transitions\":%llu,\"replayed\":%llu,\"checks\":%llu,\"finished\":%llu,\"probes\":%llu,\"maxDepth\":%d,\"fullDepth\":%d,\"exhaustive\":%s,\"secs\":%.2f,\"harness\":%llu,\"unmatched\":%llu,\"restarts\":%d,\"dirtyStatics\":%llu,\"cap\":",
            (unsigned long long)c.states, (unsigned long long)c.transitions, (unsigned long long)c.replayed, (unsigned long long)c.checks, (unsigned long long)c.finished, (unsigned long long)c.probes, c.maxDepth, c.exhaustive && !vio ? c.maxDepth : c.fullDepth, c.exhaustive && !vio ? "true" : "false", c.secs, (unsigned long long)c.harness, (unsigned long long)c.unmatched, restarts, (unsigned long long)c.dirtyStatics);
    jsonStr(f, c.cap);
    fprintf(f, ",\"samples\":["); for (int i = 0; i < c.nsamples; i++) { if (i) fputc(',', f); jsonStr(f, c.samples[i]); } fprintf(f, "]");
    fprintf(f, ",\"counters\":{"); for (int i = 0; i < c.ncounters; i++) { if (i) fputc(',', f); jsonStr(f, c.counterNames[i]); fprintf(f, ":%llu", (unsigned long long)c.counters[i]); } fprintf(f, "}");
    fprintf(f, ",\"unmatchedKinds\":["); for (u64 i = 0; i < c.unmatched && i < 64; i++) { if (i) fputc(',', f); jsonStr(f, c.unmatchedKinds[i]); } fprintf(f, "]");
    if (vio) {
        fprintf(f, ",\"violation\":{\"kinds\":"); jsonStr(f, vk.c_str()); fprintf(f, ",\"msg\":"); jsonStr(f, vm.c_str());
        fprintf(f, ",\"ops\":["); for (size_t i = 0; i < vh.size(); i++) fprintf(f, "%s%d", i ? "," : "", vh[i]);
        fprintf(f, "],\"history\":"); jsonStr(f, ex->names(vh).c_str()); fprintf(f, "}");
    }
    fprintf(f, "}\n"); if (f != stdout) fclose(f);
    return vio ? 1 : 0;
}

} // namespace mc

// ------------------------------------------------------------------ interposition
extern "C" {
void *__real_malloc(size_t); void __real_free(void *);
void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) {
    if (mc::privp() && mc::pv().inLib) {
        mc::OutLib g;
        if (mc::pv().strictAlloc) mc::fail("M", "storage of %zu bytes is obtained from malloc instead of the allocator the container was given", n);
        return mc::arenaAlloc(n, mc::BK_MALLOC);
    }
    return __real_malloc(n);
}
void __wrap_free(void *p) {
    if (mc::inArena((mc::u64)p)) { mc::OutLib g; mc::arenaFree(p, -1, mc::BK_MALLOC); return; }
    if (p && mc::privp() && mc::pv().inLib) { mc::OutLib g; mc::fail("M", "free() of an address that was never obtained from malloc"); }
    __real_free(p);
}
void *__wrap_calloc(size_t a, size_t b) {
    if (mc::privp() && mc::pv().inLib) { void *p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
    return __real_calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n) {
    if (mc::privp() && mc::pv().inLib) {
        void *q = __wrap_malloc(n);
        if (p) { mc::Block *b = mc::findBlock((mc::u64)p); size_t k = b ? b->size : 0; memcpy(q, p, k < n ? k : n); __wrap_free(p); }
        return q;
    }
    return __real_realloc(p, n);
}
void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    const char *b = strrchr(file, '/');
    mc::fail("S", "assertion failed inside the library: %s (%s:%u)", e, b ? b + 1 : file, line);
}
}
static void *mcNew(size_t n) {
    if (mc::privp() && mc::pv().inLib) { mc::OutLib g; mc::fail("M", "storage of %zu bytes is obtained from operator new instead of the allocator", n); }
    void *p = __real_malloc(n ? n : 1); if (!p) abort(); return p;
}
void *operator new(size_t n) { return mcNew(n); }
void *operator new[](size_t n) { return mcNew(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void *operator new(size_t n, std::align_val_t) { return mcNew(n); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

int main(int argc, char **argv) { return mc::mcMain(argc, argv); }
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:use_sigaltstack=0:"
           "detect_stack_use_after_return=0:quarantine_size_mb=1:exitcode=77:symbolize=0:allocator_may_return_null=1:detect_odr_violation=0";
}
