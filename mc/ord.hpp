// Ranks: exploration is over order types of the contained elements, not over numbers.
#pragma once
#include "mc.hpp"
namespace mc {
constexpr int RIDS = 512; // ids whose ranks are part of a snapshot
struct Rank {
    static int &of(u32 id) { return ranks().rank[id]; }
    static u32 fresh() { u32 id = ks().nextId; if (id + 1 >= RIDS) fail("?", "history too long for the rank table"); ks().nextId++; return id; }
    // a new element strictly before the elements of rank g and later
    static u32 gap(int g) { u32 id = fresh(); for (u32 i = 1; i < id; i++) if (of(i) >= g) of(i)++; of(id) = g; return id; }
    static u32 tie(int r) { u32 id = fresh(); of(id) = r; return id; }
    // dense ranks for the live ids, returns the number of classes
    template <class V> static int compress(const V &live) {
        int map[RIDS]; int n = 0; int rs[RIDS];
        for (u32 id : live) { int r = of(id), k = 0; while (k < n && rs[k] < r) k++; if (k < n && rs[k] == r) continue; for (int q = n; q > k; q--) rs[q] = rs[q - 1]; rs[k] = r; n++; }
        (void)map;
        for (u32 id : live) { int r = of(id), k = 0; while (rs[k] != r) k++; tmp()[id] = k; }
        for (u32 id : live) of(id) = tmp()[id];
        return n;
    }
    // key-only comparators: rank = 2 * key + sub, only the key is compared
    static u32 keyGap(int g) { u32 id = fresh(); for (u32 i = 1; i < id; i++) if (of(i) / 2 >= g) of(i) += 2; of(id) = 2 * g; return id; }
    static u32 keyTie(int k, int sub) { u32 id = fresh(); of(id) = 2 * k + sub; return id; }
    template <class V> static int keyCompress(const V &live) {
        int used[RIDS] = {0}, nr[RIDS], n = 0; for (u32 id : live) used[of(id) / 2] = 1;
        for (int i = 0; i < RIDS; i++) { nr[i] = n; n += used[i]; }
        for (u32 id : live) tmp()[id] = nr[of(id) / 2] * 2 + of(id) % 2;
        for (u32 id : live) of(id) = tmp()[id];
        return n;
    }
    static u32 mk(int kind, bool tieIt, int a, int sub) { return kind == 3 ? (tieIt ? keyTie(a, sub & 1) : keyGap(a)) : (tieIt ? tie(a) : gap(a)); }
    template <class V> static int squeeze(int kind, const V &live) { return kind == 3 ? keyCompress(live) : compress(live); }
    static int *tmp() { static int *t = new int[MAXID]; return t; }
};
// Which contained elements a call compared (distinct ids), for cost bounds.
struct Trace { bool on; int n; u32 ids[256]; void add(u32 id) { if (!on || n >= 256) return; for (int i = 0; i < n; i++) if (ids[i] == id) return; ids[n++] = id; } };
inline Trace &trace() { static Trace *t = new Trace(); return *t; }
inline int touchOrd = (Rank::tmp(), trace(), 0); // before static data is captured
// Comparators. They are given token carriers of any kind and look the rank up.
template <class T> struct RankLess { bool operator()(const T &a, const T &b) const { OutLib g; event(); pv().cmps++; u32 i = Val<T>::id(a), j = Val<T>::id(b); trace().add(i); trace().add(j); return Rank::of(i) < Rank::of(j); } };
template <class T> struct RankGreater { bool operator()(const T &a, const T &b) const { OutLib g; event(); pv().cmps++; return Rank::of(Val<T>::id(a)) > Rank::of(Val<T>::id(b)); } };
// stateful: direction is part of the object; a default constructed one is ascending
template <class T> struct RankState {
    int rev;
    explicit RankState(int r) : rev(r) {}
    RankState() : rev(0) {}
    bool operator()(const T &a, const T &b) const {
        OutLib g; event(); pv().cmps++;
        if (rev != 0 && rev != 1) fail("F", "the comparator object was corrupted");
        u32 i = Val<T>::id(a), j = Val<T>::id(b); trace().add(i); trace().add(j);
        int x = Rank::of(i), y = Rank::of(j);
        return rev ? x > y : x < y;
    }
};
// key only: ranks 2k and 2k+1 compare equal
template <class T> struct RankKey { bool operator()(const T &a, const T &b) const { OutLib g; event(); pv().cmps++; return Rank::of(Val<T>::id(a)) / 2 < Rank::of(Val<T>::id(b)) / 2; } };
inline bool precedes(int kind, int rev, u32 a, u32 b) { // model comparator
    int x = Rank::of(a), y = Rank::of(b);
    switch (kind) { case 0: return x < y; case 1: return x > y; case 2: return rev ? x > y : x < y; default: return x / 2 < y / 2; }
}
// Families of insertion orders for large containers: order f inserts the values 0..n-1, value(f, i, n) is the i-th.
struct Fam {
    static constexpr int NUM = 16;
    static const char *name(int f) { static const char *n[] = {"ascending", "descending", "outside-in", "inside-out", "level order", "bit reversal", "even then odd", "step 5", "step 7", "step 11", "pairs swapped", "halves interleaved", "descending halves", "step 3 down", "quarters", "organ pipe"}; return n[f]; }
    static bool coprime(int a, int b) { while (b) { int t = a % b; a = b; b = t; } return a == 1; }
    static int step(int k, int i, int n) { while (!coprime(k, n)) k++; return (int)((long long)k * i % n); }
    static int raw(int f, int i, int n) {
        switch (f) {
        case 0: return i; case 1: return n - 1 - i; case 2: return i % 2 ? n - 1 - i / 2 : i / 2; case 3: { int q = n - 1 - i; return q % 2 ? n - 1 - q / 2 : q / 2; }
        case 6: return 2 * i < n ? 2 * i : 2 * (i - (n + 1) / 2) + 1; case 7: return step(5, i, n); case 8: return step(7, i, n); case 9: return step(11, i, n);
        case 10: return (i ^ 1) < n ? i ^ 1 : i; case 11: return i % 2 ? i / 2 : (n + 1) / 2 + i / 2 < n ? (n + 1) / 2 + i / 2 : n / 2; case 12: { int h = n / 2; return i < h ? h - 1 - i : n - 1 - (i - h); }
        case 13: return n - 1 - step(3, i, n); case 14: { int q = (n + 3) / 4; int c = 0; for (int r = 0; r < q; r++) for (int b = 0; b < 4; b++) { int v = b * q + r; if (v < n && c++ == i) return v; } return 0; }
        case 15: return 2 * i < n ? 2 * i : 2 * (n - 1 - i) + 1;
        }
        return 0;
    }
    // every order is a permutation, whatever raw() gives for odd sizes
    static int value(int f, int i, int n) { static std::vector<int> *memo[NUM][130]; if (n >= 130) abort(); std::vector<int> *&m = memo[f][n]; if (!m) m = make(f, n); return (*m)[i]; }
    static std::vector<int> *make(int f, int n) {
        auto *p = new std::vector<int>; std::vector<char> used(n, 0);
        if (f == 4) { std::vector<std::pair<int, int>> q{{0, n}}; for (size_t i = 0; i < q.size(); i++) { int a = q[i].first, b = q[i].second; if (a >= b) continue; int m = (a + b) / 2; p->push_back(m); q.push_back({a, m}); q.push_back({m + 1, b}); } return p; }
        if (f == 5) { int w = 1; while ((1 << w) < n) w++; for (int i = 0; i < (1 << w); i++) { int r = 0; for (int b = 0; b < w; b++) if (i >> b & 1) r |= 1 << (w - 1 - b); if (r < n) p->push_back(r); } return p; }
        for (int i = 0; i < n; i++) { int v = raw(f, i, n); if (v < 0 || v >= n || used[v]) continue; used[v] = 1; p->push_back(v); }
        for (int v = 0; v < n; v++) if (!used[v]) p->push_back(v);
        return p;
    }
    // position of the i-th inserted value among the ones inserted before it, counting distinct values after division by tie
    static int gap(int f, int i, int n, int tie, bool &equal) { int v = value(f, i, n) / tie, g = 0; equal = false; std::vector<char> seen(n, 0); for (int k = 0; k < i; k++) { int u = value(f, k, n) / tie; if (u == v) equal = true; else if (u < v && !seen[u]) { seen[u] = 1; g++; } } return g; }
    static void touch(int n) { for (int f = 0; f < NUM; f++) value(f, 0, n); } // before static data is captured
};
} // namespace mc
