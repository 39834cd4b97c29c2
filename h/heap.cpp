// Heap / PriorityQueue and the extreme-value stacks over all order types of their elements.
#include <dstruct.hpp>
#include "ord.hpp"
using namespace mc;

// KIND: 0 less 1 greater 2 stateful 3 key-only (ties)
enum { FPUSH, REPUSH, PUSHGAP, PUSHTIE, POP, CLR, PALIAS, SELFC, SELFV, CPA, MVA, CPC, MVC, DTOR, SWP };
template <class TT, class CC, int KIND, bool HEAP, int N, bool PAIR, bool TIES, bool ALIAS, bool STRICT, int DEFRANK = -1, int FAM = 0>
struct HW : World {
    typedef TT T; typedef CC C;
    static constexpr bool kGlobals = false, kStrictAlloc = STRICT;
    static constexpr int NS = PAIR ? 2 : 1, TOT = NS * N;
    struct Op { int code, s, a; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mk() {
        auto *v = new std::vector<Op>;
        if (FAM) { // only the families of insertion orders, to a large size; then pops, and one more push in between
            Fam::touch(N);
            for (int f = 0; f < Fam::NUM * (TIES ? 2 : 1); f++) v->push_back({FPUSH, 0, f});
            for (int s = 0; s < NS; s++) v->push_back({POP, s, 0});
            if (!PAIR) for (int k = 0; k < 3; k++) v->push_back({REPUSH, 0, k}); else for (int s = 0; s < NS; s++) for (int c = SELFC; c <= MVC; c++) v->push_back({c, s, 0});
        } else
        for (int s = 0; s < NS; s++) {
            for (int g = 0; g <= TOT; g++) { v->push_back({PUSHGAP, s, g}); if (TIES) v->push_back({PUSHTIE, s, g}); }
            v->push_back({POP, s, 0});
            if (!HEAP) v->push_back({CLR, s, 0});
            if (ALIAS) for (int i = 0; i < N; i++) v->push_back({PALIAS, s, i});
            if (PAIR) { for (int c = SELFC; c <= DTOR; c++) v->push_back({c, s, 0}); if (s == 0 && KIND != 2) v->push_back({SWP, 0, 0}); }
            if (PAIR && KIND == 2) v->push_back({DTOR, s, 1});
        }
        tab() = v;
    }
    void *raw[NS]; SV<u32, N + 2> m[NS]; int rev[NS]; int classes; int peak; int fam, popped, repushed, copies;
    C &c(int s) { return *(C *)raw[s]; }
    void make(int s, int r) {
        rev[s] = r; m[s].clear();
        if constexpr (KIND == 2) { RankState<T> cmp(r); LIB(new (raw[s]) C(cmp)); }
        else LIB(new (raw[s]) C());
    }
    void init() {
        for (int i = 0; i < RIDS; i++) Rank::of(i) = 0;
        Rank::of(DEFID) = DEFRANK; classes = 0; peak = 0; fam = -1; popped = repushed = copies = 0;
        for (int s = 0; s < NS; s++) { raw[s] = arenaAlloc(sizeof(C), BK_ROOT, alignof(C) > 16 ? alignof(C) : 16); make(s, KIND == 2 ? s ^ 1 : 0); }
    }
    int nops() { return (int)tab()->size(); }
    bool enabled(int o) {
        const Op &p = (*tab())[o]; int n = m[p.s].n;
        switch (p.code) { case FPUSH: return n < N && !popped && !copies && (n == 0 ? fam < 0 : fam == p.a); case REPUSH: return popped == 1 && !repushed && n < N && n; case PUSHGAP: return n < N && p.a <= classes; case PUSHTIE: return n < N && p.a < classes; case POP: return n > 0; case PALIAS: return n < N && p.a < n; case CLR: return true; default: return !FAM || (!copies && popped <= 1 && m[0].n); }
    }
    const char *opflags(int o) { switch ((*tab())[o].code) { case PALIAS: return "A"; case SELFC: case CPA: case CPC: return "C"; case SELFV: case MVA: case MVC: case SWP: return "V"; } return ""; }
    void opname(int o, char *b, size_t n) {
        const Op &p = (*tab())[o]; char x = 'a' + p.s, y = 'a' + (1 - p.s);
        switch (p.code) {
        case FPUSH: snprintf(b, n, "%c.push(next, %s%s)", x, Fam::name(p.a % Fam::NUM), p.a >= Fam::NUM ? " with ties" : ""); break; case REPUSH: snprintf(b, n, "%c.push(new %s)", x, p.a == 0 ? "least" : p.a == 1 ? "median" : "greatest"); break;
        case PUSHGAP: snprintf(b, n, "%c.push(new value before rank %d)", x, p.a); break; case PUSHTIE: snprintf(b, n, "%c.push(value equal to rank %d)", x, p.a); break;
        case POP: snprintf(b, n, "%c.pop()", x); break; case CLR: snprintf(b, n, "%c.clear()", x); break; case PALIAS: snprintf(b, n, "%c.push(own element %d)", x, p.a); break;
        case SELFC: snprintf(b, n, "%c = %c", x, x); break; case SELFV: snprintf(b, n, "%c = move(%c)", x, x); break; case CPA: snprintf(b, n, "%c = %c", y, x); break; case MVA: snprintf(b, n, "%c = move(%c)", y, x); break;
        case CPC: snprintf(b, n, "%c = C(%c)", y, x); break; case MVC: snprintf(b, n, "%c = C(move(%c))", y, x); break; case DTOR: snprintf(b, n, "%c = fresh%s", x, p.a ? " (descending)" : ""); break; default: snprintf(b, n, "swap"); }
    }
    u32 topId(int s) { const C &k = c(s); return lib([&] { return Val<T>::id(k.top()); }); }
    // Heap: a push or pop compares along one path only, XValueStack: a constant number
    static int lg(int n) { int l = 0; while ((1 << l) < n) l++; return l; }
    void cost(u64 from, int n, const char *what) { int lim = HEAP ? 4 * (lg(n + 1) + 2) : 4; u64 k = pv().cmps - from; if (k > (u64)lim) fail("K", "%s with %d elements made %llu comparisons (limit %d)", what, n, (unsigned long long)k, lim); }
    void push(int s, u32 id) { C &x = c(s); { Arg<T> a(id); u64 k = pv().cmps; LIB(x.push(a.v)); cost(k, m[s].n, "push"); } m[s].push_back(id); }
    void apply(int o) {
        const Op p = (*tab())[o]; int s = p.s, d = 1 - s; C &x = c(s); if (p.code >= SELFC) copies = 1;
        switch (p.code) {
        case FPUSH: { bool eq; fam = p.a; int g = Fam::gap(p.a % Fam::NUM, m[s].n, N, p.a >= Fam::NUM ? 3 : 1, eq); push(s, Rank::mk(KIND, eq, g, m[s].n)); } break;
        case REPUSH: repushed = 1; push(s, Rank::mk(KIND, false, classes * p.a / 2, 0)); break;
        case PUSHGAP: push(s, Rank::mk(KIND, false, p.a, 0)); break;
        case PUSHTIE: push(s, Rank::mk(KIND, true, p.a, m[s].n)); break;
        case POP: { if (popped < 2) popped++; u32 t = topId(s); int at = HEAP ? m[s].find(t) : m[s].n - 1; if (at < 0) fail("F", "top() is not a contained element"); if (HEAP) checkTop(s, t); u64 k = pv().cmps; LIB(x.pop()); cost(k, m[s].n, "pop"); m[s].erase(at); break; }
        case CLR: if constexpr (!HEAP) { LIB(x.clear()); m[s].clear(); } break;
        case PALIAS: { const C &k = x; auto it = lib([&] { auto q = k.begin(); for (int i = 0; i < p.a; i++) ++q; return q; }); const T &r = *it; u32 id = Val<T>::id(r); LIB(x.push(r)); m[s].push_back(id); break; }
        case SELFC: { C &y = x; LIB(x = y); } break;
        case SELFV: { C &y = x; LIB(x = static_cast<C &&>(y)); } break;
        case CPA: { const C &y = x; LIB(c(d) = y); m[d] = m[s]; rev[d] = rev[s]; } break;
        case MVA: LIB(c(d) = static_cast<C &&>(x)); m[d] = m[s]; rev[d] = rev[s]; m[s].clear(); break;
        case CPC: { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); const C &y = x; LIB(new (raw[d]) C(y)); m[d] = m[s]; rev[d] = rev[s]; } break;
        case MVC: LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); LIB(new (raw[d]) C(static_cast<C &&>(x))); m[d] = m[s]; rev[d] = rev[s]; m[s].clear(); break;
        case DTOR: LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); make(s, p.a); break;
        case SWP: LIB(dstruct::swap(c(0), c(1))); { auto t = m[0]; m[0] = m[1]; m[1] = t; int r = rev[0]; rev[0] = rev[1]; rev[1] = r; } break;
        }
        SV<u32, TOT + 4> live; live.clear(); for (int k = 0; k < NS; k++) for (u32 id : m[k]) live.push_back(id);
        classes = Rank::squeeze(KIND, live);
        if (live.n > peak) peak = live.n;
    }
    void checkTop(int s, u32 t) { for (u32 id : m[s]) if (precedes(KIND, rev[s], id, t)) fail("F", "top() is preceded by another contained element"); }
    void check() {
        for (int s = 0; s < NS; s++) {
            Act act("F"); const C &k = c(s); int n = m[s].n;
            bool e = lib([&] { return k.empty(); }); MC_CHECK("F", e == (n == 0), "%c.empty() is %d with %d elements", 'a' + s, e, n);
            if constexpr (HEAP) { auto z = lib([&] { return k.size(); }); MC_CHECK("F", (long long)z == n, "%c.size() is %lld, expected %d", 'a' + s, (long long)z, n); auto cap = lib([&] { return k.capacity(); }); MC_CHECK("F", (long long)cap >= n, "capacity below size"); }
            if (n) {
                u32 t = topId(s); MC_CHECK("F", m[s].find(t) >= 0, "top() is not a contained element");
                if (HEAP) checkTop(s, t);
                else {
                    MC_CHECK("F", t == m[s][n - 1], "top() is not the last pushed element");
                    if constexpr (!HEAP) { u32 x = lib([&] { return Val<T>::id(k.getXValue()); }); MC_CHECK("F", m[s].find(x) >= 0, "the extreme value is not a contained element"); for (u32 id : m[s]) MC_CHECK("F", !precedes(KIND, rev[s], id, x), "the extreme value is preceded by a contained element"); }
                }
            }
            // iteration: exactly the contained elements (in push order for stacks)
            SV<u32, N + 4> seen; seen.clear();
            { InLib g; Act act2("FI"); for (auto it = k.begin(); it != k.end(); ++it) { u32 id = Val<T>::id(*it); OutLib o; MC_CHECK("F", seen.n < n, "iteration visits more than %d elements", n); seen.push_back(id); } }
            MC_CHECK("F", seen.n == n, "iteration visits %d of %d elements", seen.n, n);
            SV<u32, N + 2> rest = m[s];
            for (int i = 0; i < n; i++) { if (!HEAP) MC_CHECK("F", seen[i] == m[s][i], "iteration does not follow the push order at %d", i); int at = rest.find(seen[i]); MC_CHECK("F", at >= 0, "iteration shows an element that is not contained, or one twice"); rest.erase(at); }
            { InLib g; Act act2("I"); auto it = k.begin(); for (int i = 0; i < n; i++) { auto a = it, b = it; auto old = a++; ++b; OutLib o; MC_CHECK("I", old == it && a == b && a != it, "increment laws"); it = a; } OutLib o; MC_CHECK("I", it == k.end(), "end is not reached"); int cnt = 0; dstruct::algorithm::for_each(k.begin(), k.end(), [&](const T &) { cnt++; }); MC_CHECK("I", cnt == n, "for_each calls %d for %d", cnt, n); }
        }
        u64 lim = 8 * (2 * sizeof(T) + 24) * (u64)peak + 768;
        if (ks().liveBytes > lim) fail("B", "%llu bytes held for a peak of %d elements", (unsigned long long)ks().liveBytes, peak);
        if (Val<T>::tracked) live();
    }
    void live() { // removed elements must not stay alive in the container (default/sentinel copies aside)
        for (int i = 0; i < ks().nblk; i++) {
            Block &b = ks().blk[i]; if (!b.alive || (b.kind != BK_ALLOC && b.kind != BK_MALLOC)) continue;
            u8 *sh = shadowOf((void *)b.addr);
            for (u64 q = 0; q < (b.size + 3) / 4; q++) if (sh[q] == E_ALIVE) {
                u32 w = *(u32 *)(b.addr + q * 4), id = w & 0xffffff; bool mem = w == MOVED || id == DEFID;
                for (int s = 0; s < NS; s++) if (m[s].find(id) >= 0) mem = true;
                if (!mem) fail("L", "a removed element is still alive in the container's storage");
            }
        }
    }
    void finish() { for (int s = 0; s < NS; s++) LIB(c(s).~C()); }
    void canon(GraphHash &g, Hash &h) {
        int k = 1; u32 seq[RIDS]; memset(seq, 0, sizeof seq);
        for (int s = 0; s < NS; s++) { // name ids by rank and then by place in the container
            h.mix(0x7700 + m[s].n + 256 * rev[s]);
            const C &q = c(s); int cnt = 0; auto e = q.end();
            for (auto it = q.begin(); it != e && cnt < N + 2; ++it, ++cnt) { u32 w; memcpy(&w, (const void *)&*it, 4); u32 id = w & 0xffffff; if ((w & 0xff000000u) == TAG && id < RIDS && id && !seq[id]) { seq[id] = k++; } }
            u64 sum = 0; for (int i = 0; i < m[s].n; i++) { u32 id = m[s][i]; if (!seq[id]) seq[id] = 200 + k++; u64 v = seq[id] * 1000ull + Rank::of(id); if (HEAP) sum += v * v * 0x9E3779B97F4A7C15ull; else h.mix(v); }
            h.mix(sum); if (!FAM) h.mix(peak);
        }
        if (FAM) { h.mix(popped || copies ? -1 : fam); h.mix(popped + 3 * repushed + 6 * copies); }
        for (int s = 0; s < NS; s++) for (u32 id : m[s]) if (pv().canon[id] == CANON_STALE) canonId(id, seq[id] * 1000 + Rank::of(id));
        for (int s = 0; s < NS; s++) g.root(raw[s]);
    }
};

// Range construction, build and sort over every weak order of n elements.
template <class TT, class CMP, int KIND, int N, int MAXC = N, int FAM = 0> struct SortW : World {
    typedef TT T; static constexpr bool kGlobals = false, kStrictAlloc = true;
    typedef dstruct::Heap<T, CMP, TrackAlloc> H; typedef dstruct::Vector<T, TrackAlloc> V;
    SV<u32, N> a; int classes, fam;
    static void mk() { if (FAM) Fam::touch(N); }
    void init() { a.clear(); classes = 0; fam = -1; for (int i = 0; i < RIDS; i++) Rank::of(i) = 0; }
    int nops() { return FAM ? 2 * Fam::NUM : 2 * N + 1; }
    bool enabled(int o) { if (FAM) return a.n < N && (fam < 0 || fam == o); if (o <= N && classes >= MAXC) return false; return a.n < N && (o <= N ? o <= classes : o - N - 1 < classes); }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t n) { if (FAM) snprintf(b, n, "range += next, %s%s", Fam::name(o % Fam::NUM), o >= Fam::NUM ? " with ties" : ""); else if (o <= N) snprintf(b, n, "range += new value before rank %d", o); else snprintf(b, n, "range += value equal to rank %d", o - N - 1); }
    void apply(int o) { if (FAM) { bool eq; fam = o; int g = Fam::gap(o % Fam::NUM, a.n, N, o >= Fam::NUM ? 3 : 1, eq); a.push_back(Rank::mk(KIND, eq, g, a.n)); classes = Rank::squeeze(KIND, a); return; } u32 id = Rank::mk(KIND, o > N, o <= N ? o : o - N - 1, a.n); a.push_back(id); classes = Rank::squeeze(KIND, a); }
    void check() {
        int n = a.n; const u32 G0 = 400, G1 = 401; Rank::of(G0) = 99; Rank::of(G1) = -99;
        for (int mode = 0; mode < 3; mode++) probe([&] {
            void *mem = arenaAlloc(sizeof(V), BK_ROOT); LIB(new (mem) V()); V &v = *(V *)mem;
            { Arg<T> g(G0); LIB(v.push_back(g.v)); } for (u32 id : a) { Arg<T> x(id); LIB(v.push_back(x.v)); } { Arg<T> g(G1); LIB(v.push_back(g.v)); }
            void *hm = arenaAlloc(sizeof(H), BK_ROOT); H *hp = nullptr;
            u64 k0 = pv().cmps; int l2 = 0; while ((1 << l2) < n + 1) l2++;
            if (mode == 0) LIB(H::sort(v.begin() + 1, v.begin() + 1 + n));
            if (mode == 1) { LIB(hp = new (hm) H(H::build(v.begin() + 1, v.begin() + 1 + n))); }
            if (mode == 2) { LIB(hp = new (hm) H(v.begin() + 1, v.begin() + 1 + n)); }
            { u64 q = pv().cmps - k0, lim = 6ull * (n + 1) * (l2 + 2); if (q > lim) fail("K", "%s of %d elements made %llu comparisons (limit %llu)", mode == 0 ? "sort" : "building a heap", n, (unsigned long long)q, (unsigned long long)lim); }
            const V &k = v; u32 g0 = Val<T>::id(k[0]), g1 = Val<T>::id(k[n + 1]);
            MC_CHECK("F", (long long)k.size() == n + 2 && g0 == G0 && g1 == G1, "elements outside the range were touched");
            SV<u32, N> r; r.clear(), rest(a, r, k, n);
            if (mode == 0) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) MC_CHECK("F", !precedes(KIND, 0, r[j], r[i]), "after sort, element %d strictly precedes the earlier element %d", j, i);
            if (mode == 1) for (int i = 1; i < n; i++) MC_CHECK("F", !precedes(KIND, 0, r[i], r[(i - 1) / 2]), "after build, element %d precedes its heap parent", i);
            if (mode == 2) for (int i = 0; i < n; i++) MC_CHECK("F", r[i] == a[i], "constructing a heap changed the range");
            if (hp) {
                const H &h = *hp; MC_CHECK("F", (long long)h.size() == n && h.empty() == (n == 0), "the built heap has size %lld, expected %d", (long long)h.size(), n);
                if (mode == 1) { int i = 0; for (auto it = h.begin(); it != h.end(); ++it, ++i) MC_CHECK("F", i < n && Val<T>::id(*it) == r[i], "the built heap is arranged differently from the range at %d", i); }
                SV<u32, N> left = a; u32 prev = 0;
                for (int i = 0; i < n; i++) { u32 t = lib([&] { return Val<T>::id(h.top()); }); int at = left.find(t); MC_CHECK("F", at >= 0, "draining yields an element that is not left"); for (u32 id : left) MC_CHECK("F", !precedes(KIND, 0, id, t), "draining is out of order"); left.erase(at); LIB(hp->pop()); prev = t; }
                MC_CHECK("F", h.empty(), "the heap is not empty after draining"); (void)prev;
                LIB(hp->~H());
            }
            LIB(v.~V());
            endOfLife();
        });
    }
    void rest(SV<u32, N> &src, SV<u32, N> &r, const V &k, int n) { SV<u32, N> left = src; for (int i = 0; i < n; i++) { u32 id = Val<T>::id(k[i + 1]); int at = left.find(id); MC_CHECK("F", at >= 0, "position %d of the range holds an element that was not there, or one twice", i); left.erase(at); r.push_back(id); } }
    void finish() {}
    void canon(GraphHash &, Hash &h) { h.mix(a.n + 1000 * (FAM ? fam : 0)); for (u32 id : a) h.mix(Rank::of(id)); }
};
template <class W> Job J(const char *n) { if constexpr (requires { W::mk(); }) W::mk(); return Ops<W>::job(n); }
typedef TrackAlloc TA;
template <class T> using StkV = dstruct::adapter::Stack<T, dstruct::Vector<T, TA>>;
template <class T> using StkD = dstruct::adapter::Stack<T, dstruct::Deque<T, 2, TA>>;
template <class T> using StkL = dstruct::adapter::Stack<T, dstruct::DLinkedList<T, TA>>;
#ifndef PART
#define PART 0
#endif
void mc::registerJobs(std::vector<Job> &v) {
#if PART == 0 || PART == 1
    v.push_back(J<HW<Tk, dstruct::MinHeap<Tk, TA>, 0, true, 8, false, false, false, true>>("h_min_tk"));
    v.push_back(J<HW<Tk, dstruct::MaxHeap<Tk, TA>, 1, true, 6, false, true, false, true, 99>>("h_max_tk_ties"));
    v.push_back(J<HW<int, dstruct::PriorityQueue<int, RankLess<int>, TA>, 0, true, 9, false, false, false, true, 99>>("h_pq_int"));
    v.push_back(J<HW<Tk48, dstruct::Heap<Tk48, RankKey<Tk48>>, 3, true, 5, false, true, false, false>>("h_key_tk48_malloc"));
    v.push_back(J<HW<Tk, dstruct::Heap<Tk, RankState<Tk>, TA>, 2, true, 3, true, false, false, true>>("h_pair_state"));
    v.push_back(J<HW<Tk, dstruct::MinHeap<Tk>, 0, true, 3, true, false, false, false, 99>>("h_pair_min_malloc"));
    v.push_back(J<HW<Tk, dstruct::MinHeap<Tk, TA>, 0, true, 5, false, false, true, true>>("h_alias"));
    v.push_back(J<HW<Tk, dstruct::MinHeap<Tk, TA>, 0, true, 32, false, true, false, true, 99, 1>>("h_deep_min_tk"));
    v.push_back(J<HW<int, dstruct::PriorityQueue<int, RankGreater<int>, TA>, 1, true, 27, false, false, false, true, -1, 1>>("h_deep_pq_int"));
    v.push_back(J<HW<Tk, dstruct::MinHeap<Tk, TA>, 0, true, 14, true, false, false, true, 99, 1>>("h_pair_deep"));
    v.push_back(J<SortW<Tk, RankLess<Tk>, 0, 48, 48, 1>>("sort_deep"));
    v.push_back(J<SortW<int, RankGreater<int>, 1, 40, 40, 1>>("sort_greater_deep"));
    v.push_back(J<SortW<Tk, dstruct::less<Tk>, 0, 11, 2>>("sort_two_values"));
    v.push_back(J<SortW<int, RankLess<int>, 0, 8, 3>>("sort_three_values"));
    v.push_back(J<SortW<int, RankLess<int>, 0, 7>>("sort_int7"));
    v.push_back(J<SortW<Tk, dstruct::less<Tk>, 0, 6>>("sort_less"));
    v.push_back(J<SortW<int, RankGreater<int>, 1, 6>>("sort_greater_int"));
    v.push_back(J<SortW<Tk, RankKey<Tk>, 3, 5>>("sort_key"));
#endif
#if PART == 0 || PART == 2
    v.push_back(J<HW<Tk, dstruct::MinStack<Tk, TA>, 0, false, 6, false, true, false, true>>("x_min_tk"));
    v.push_back(J<HW<int, dstruct::stack::XValueStack<int, RankGreater<int>, StkV<int>>, 1, false, 6, false, true, false, true, 99>>("x_max_int"));
    v.push_back(J<HW<Tk, dstruct::MaxStack<Tk, TA>, 1, false, 6, false, true, false, true, 99>>("x_max_tk"));
    v.push_back(J<HW<Tk, dstruct::stack::XValueStack<Tk, RankKey<Tk>, StkV<Tk>>, 3, false, 5, false, true, false, true>>("x_key"));
    v.push_back(J<HW<Tk, dstruct::stack::XValueStack<Tk, RankState<Tk>, StkV<Tk>>, 2, false, 2, true, true, false, true>>("x_pair_state"));
    v.push_back(J<HW<Tk, dstruct::stack::XValueStack<Tk, RankLess<Tk>, StkD<Tk>>, 0, false, 4, false, true, false, true>>("x_deque"));
    v.push_back(J<HW<Tk48, dstruct::MinStack<Tk48>, 0, false, 4, false, true, false, false>>("x_tk48_malloc"));
    v.push_back(J<HW<Tk, dstruct::stack::XValueStack<Tk, dstruct::less<Tk>, StkL<Tk>>, 0, false, 3, true, false, false, true>>("x_pair_list"));
    v.push_back(J<HW<Tk, dstruct::MinStack<Tk, TA>, 0, false, 5, false, false, true, true>>("x_alias"));
    v.push_back(J<HW<Tk, dstruct::MinStack<Tk, TA>, 0, false, 32, false, true, false, true, 99, 1>>("x_deep_min"));
    v.push_back(J<HW<int, dstruct::stack::XValueStack<int, RankGreater<int>, StkV<int>>, 1, false, 27, false, false, false, true, -1, 1>>("x_deep_max"));
    v.push_back(J<HW<Tk, dstruct::MinStack<Tk, TA>, 0, false, 12, true, true, false, true, 99, 1>>("x_pair_deep"));
#endif
}
