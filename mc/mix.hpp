// Several containers that share one static pool, each against its own model.
#pragma once
#include "ord.hpp"
namespace mc {
template <class T> u32 vid(const T &v) { return Val<T>::id(v); }
// Every component: C, N, push kinds K, model m, verify()
template <class CC, class TT, int NN> struct CompBase {
    typedef CC C; typedef TT T; static constexpr int N = NN;
    void *raw; SV<u32, NN + 2> m;
    C &c() { return *(C *)raw; }
    void make() { m.clear(); LIB(new (raw) C()); }
    void kill() { LIB(c().~C()); rawset(raw, 0xBE, sizeof(C)); }
    template <class Q> void seq(Q &x, const char *nm) {
        InLib g; int i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i) { if (i >= m.n) { OutLib o; fail("F", "iteration of %s goes on after %d elements", nm, m.n); } u32 v = vid(*it); if (v != m[i]) { OutLib o; fail("F", "%s shows #%x at position %d, expected #%x", nm, v, i, m[i]); } }
        if (i != m.n) { OutLib o; fail("F", "iteration of %s ends after %d of %d", nm, i, m.n); }
    }
    void size(const char *nm) { const C &k = c(); long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == m.n, "%s.size() is %lld, expected %d", nm, z, m.n); MC_CHECK("F", lib([&] { return k.empty(); }) == (m.n == 0), "%s.empty() is wrong", nm); }
    void order(u32) {}
    static constexpr bool CLEAR = true, COPY = true;
    // an answer is kept (by value or reference, as the library gives it) while fn asks something else
    template <class Q, class Fn> void keep(const char *nm, const char *what, u32 want, Q query, Fn fn) { InLib g; auto &&r = query(); { OutLib o; fn(); } u32 v = vid<TT>(r); OutLib o; MC_CHECK("F", v == want, "%s.%s turns from #%x into #%x while other objects are only asked", nm, what, want, v); }
    template <class Fn> void ask(const char *, Fn) {}
};
struct ElemCompBase { // the queries of a container without keys; m in iteration order, best: what top()/getXValue() shows
    template <class X, class Fn> static void ask(X &x, const char *nm, u32 best, Fn fn) {
        if (!x.m.n) return; const typename X::C &k = x.c(); u32 f = x.m[0], b = x.m[x.m.n - 1];
        if constexpr (requires { k.front(); }) x.keep(nm, "front()", f, [&]() -> decltype(k.front()) { return k.front(); }, fn);
        if constexpr (requires { k.back(); }) x.keep(nm, "back()", b, [&]() -> decltype(k.back()) { return k.back(); }, fn);
        if constexpr (requires { k.getXValue(); }) x.keep(nm, "getXValue()", best, [&]() -> decltype(k.getXValue()) { return k.getXValue(); }, fn);
        else if constexpr (requires { k.top(); }) x.keep(nm, "top()", best, [&]() -> decltype(k.top()) { return k.top(); }, fn);
    }
};
// WHERE: 0 back/back 1 back/front 2 front/front;   API: 0 push_back/pop_back 1 push_back/pop_front 2 push/pop 3 push_front/pop_front
template <class CC, class TT, int NN, int K, int API, bool CLR = true> struct SeqComp : CompBase<CC, TT, NN> {
    typedef CompBase<CC, TT, NN> B; using B::m; using B::c; static constexpr int KINDS = K; static constexpr bool CLEAR = CLR;
    static const char *kname(int k) { return k == 0 ? "push at the back" : "push at the front"; } static const char *pname(int k) { return k == 0 ? "pop at the front" : "pop at the back"; }
    // kind 0 back, 1 front
    void push(int k, u32 id) { Arg<TT> a(id); if constexpr (API == 2) { LIB(c().push(a.v)); m.push_back(id); } else if (k == 0) { LIB(c().push_back(a.v)); m.push_back(id); } else { if constexpr (K > 1) { LIB(c().push_front(a.v)); m.insert(0, id); } } }
    static constexpr int POPS = (API == 4) ? 2 : 1; // API 4: both ends
    template <class Fn> void ask(const char *nm, Fn fn) { ElemCompBase::ask(*this, nm, m.n ? m[m.n - 1] : 0, fn); if (m.n) { const CC &k = c(); this->keep(nm, "begin()", m[0], [&]() -> decltype(*k.begin()) { return *k.begin(); }, fn); } }
    void pop(int k) {
        if constexpr (API == 0) { LIB(c().pop_back()); m.pop_back(); } else if constexpr (API == 1) { LIB(c().pop_front()); m.erase(0); }
        else if constexpr (API == 2) { LIB(c().pop()); if constexpr (requires (CC x) { x.top(); }) m.pop_back(); else m.erase(0); }
        else if constexpr (API == 4) { if (k == 0) { LIB(c().pop_front()); m.erase(0); } else { LIB(c().pop_back()); m.pop_back(); } }
    }
    void verify(const char *nm) { this->size(nm); const CC &k = c(); this->seq(k, nm);
        if constexpr (requires { k.front(); }) if (m.n) { u32 g = lib([&] { return vid<TT>(k.front()); }); MC_CHECK("F", g == m[0], "%s.front() is wrong", nm); }
        if constexpr (requires { k.back(); }) if (m.n) { u32 g = lib([&] { return vid<TT>(k.back()); }); MC_CHECK("F", g == m[m.n - 1], "%s.back() is wrong", nm); }
        if constexpr (requires { k.top(); }) if (m.n) { u32 g = lib([&] { return vid<TT>(k.top()); }); MC_CHECK("F", g == m[m.n - 1], "%s.top() is wrong", nm); } }
};
// push kind 0: greater than everything so far, 1: less than everything so far, ids carry that rank
struct OrdIds { static u32 make(int k) { u32 id = Rank::fresh(); int r = 0; for (u32 i = 1; i < id; i++) if (k == 0 ? Rank::of(i) >= r : Rank::of(i) <= r) r = Rank::of(i) + (k == 0 ? 1 : -1); Rank::of(id) = r; return id; } };
template <class CC, class TT, int NN, bool MIN> struct HeapComp : CompBase<CC, TT, NN> {
    typedef CompBase<CC, TT, NN> B; using B::m; using B::c; static constexpr int KINDS = 2, POPS = 1; static constexpr bool CLEAR = requires (CC x) { x.clear(); };
    static const char *kname(int k) { return k == 0 ? "push a new greatest" : "push a new least"; } static const char *pname(int) { return "pop the top"; }
    int best() { int b = 0; for (int i = 1; i < m.n; i++) if (MIN ? Rank::of(m[i]) < Rank::of(m[b]) : Rank::of(m[i]) > Rank::of(m[b])) b = i; return b; }
    template <class Fn> void ask(const char *nm, Fn fn) { ElemCompBase::ask(*this, nm, m.n ? m[best()] : 0, fn); }
    void push(int, u32 id) { Arg<TT> a(id); LIB(c().push(a.v)); m.push_back(id); }
    void pop(int) { LIB(c().pop()); m.erase(best()); }
    void verify(const char *nm) { this->size(nm); const CC &k = c(); if (m.n) { u32 g = lib([&] { return vid<TT>(k.top()); }); MC_CHECK("F", g == m[best()], "%s.top() is wrong", nm); } int cnt = 0; { InLib g; for (auto &e : k) { cnt++; if (m.find(vid<TT>(e)) < 0) { OutLib o; fail("F", "%s iterates over a foreign element", nm); } } } MC_CHECK("F", cnt == m.n, "%s iterates over %d of %d", nm, cnt, m.n); }
};
template <class CC, class TT, int NN, bool MIN> struct XStackComp : CompBase<CC, TT, NN> {
    typedef CompBase<CC, TT, NN> B; using B::m; using B::c; static constexpr int KINDS = 2, POPS = 1;
    static const char *kname(int k) { return HeapComp<CC, TT, NN, MIN>::kname(k); } static const char *pname(int) { return "pop"; }
    int best() { int b = 0; for (int i = 1; i < m.n; i++) if (MIN ? Rank::of(m[i]) < Rank::of(m[b]) : Rank::of(m[i]) > Rank::of(m[b])) b = i; return b; }
    template <class Fn> void ask(const char *nm, Fn fn) { ElemCompBase::ask(*this, nm, m.n ? m[best()] : 0, fn); }
    void push(int, u32 id) { Arg<TT> a(id); LIB(c().push(a.v)); m.push_back(id); }
    void pop(int) { LIB(c().pop()); m.pop_back(); }
    void verify(const char *nm) { const CC &k = c(); MC_CHECK("F", lib([&] { return k.empty(); }) == (m.n == 0), "%s.empty() is wrong", nm); this->seq(k, nm); if (m.n) { u32 g = lib([&] { return vid<TT>(k.getXValue()); }); MC_CHECK("F", g == m[best()], "%s's extreme value is wrong", nm); } }
};
// a component whose comparator object carries its direction
template <class B, int REV> struct Stateful : B { void make() { this->m.clear(); RankState<typename B::T> cmp(REV); LIB(new (this->raw) typename B::C(cmp)); } };
// DIR: -1 default comparator, 0/1 a stateful comparator, ascending/descending
template <class CC, class TT, int NN, bool MAPK = false, int DIR = -1> struct TreeComp : CompBase<CC, TT, NN> {
    void make() { m.clear(); if constexpr (DIR >= 0) { RankState<TT> cmp(DIR); LIB(new (this->raw) CC(cmp)); } else LIB(new (this->raw) CC()); }
    typedef CompBase<CC, TT, NN> B; using B::m; using B::c; static constexpr int KINDS = 2, POPS = 2; static constexpr bool CLEAR = true;
    static const char *kname(int k) { return HeapComp<CC, TT, NN, true>::kname(k); } static const char *pname(int k) { return k == 0 ? "pop the least" : "pop the middle"; }
    template <class Fn> void ask(const char *nm, Fn fn) { for (int i = 0; i < m.n; i++) { Arg<TT> a(m[i]);
        if constexpr (MAPK) { this->keep(nm, "operator[]", m[i], [&]() -> decltype(c()[a.v]) { return c()[a.v]; }, fn); }
        InLib g; auto it = c().find(a.v); { OutLib o; fn(); } u32 v; if constexpr (MAPK) v = vid<TT>((*it).value); else v = vid<TT>(*it); OutLib o; MC_CHECK("F", v == m[i], "an iterator of %s changes while other objects are only asked", nm); } }
    void push(int, u32 id) { Arg<TT> a(id); if constexpr (MAPK) { LIB(c()[a.v] = a.v); } else LIB(c().push(a.v)); int i = 0; while (i < m.n && (DIR == 1 ? Rank::of(m[i]) > Rank::of(id) : Rank::of(m[i]) < Rank::of(id))) i++; m.insert(i, id); }
    void pop(int k) { int i = k == 0 ? 0 : m.n / 2; Arg<TT> a(m[i]); LIB(c().pop(a.v)); m.erase(i); }
    void verify(const char *nm) { this->size(nm); if constexpr (MAPK) { InLib g; int i = 0; for (auto &e : c()) { if (i >= m.n || vid<TT>(e.key) != m[i] || vid<TT>(e.value) != m[i]) { OutLib o; fail("F", "%s shows a wrong entry at %d", nm, i); } i++; } OutLib o; MC_CHECK("F", i == m.n, "%s iterates over %d of %d", nm, i, m.n); } else this->seq((const CC &)c(), nm);
        for (int i = 0; i < m.n; i++) { Arg<TT> a(m[i]); MC_CHECK("F", lib([&] { return c().find(a.v) != c().end(); }), "%s does not find element %d", nm, i); } }
};
template <class CC, int NN> struct StrComp : CompBase<CC, int, NN> {
    typedef CompBase<CC, int, NN> B; using B::m; using B::c; static constexpr int KINDS = 1, POPS = 1; static constexpr bool CLEAR = true;
    static const char *kname(int) { return "push_back 14 characters"; } static const char *pname(int) { return "assign one entry less"; }
    static void text(char *b, u32 id) { for (int i = 0; i < 14; i++) b[i] = (char)('a' + (i * 7 + 3) % 26); (void)id; b[14] = 0; }
    template <class Fn> void ask(const char *nm, Fn fn) { char t[32 * (NN + 1)]; t[0] = 0; for (int i = 0; i < 2 * m.n; i++) text(t + 14 * i, 0); const CC &k = c(); bool ok;
        { InLib g; auto &&r = k + k; { OutLib o; fn(); } const char *q = r.c_str(); OutLib o; ok = strcmp(q, t) == 0; } MC_CHECK("F", ok, "the result of %s + %s changes while other results are computed", nm, nm);
        { InLib g; auto &&r = k + "x"; { OutLib o; fn(); } const char *q = r.c_str(); OutLib o; t[14 * m.n] = 'x'; t[14 * m.n + 1] = 0; ok = strcmp(q, t) == 0; } MC_CHECK("F", ok, "the result of %s + \"x\" changes while other results are computed", nm);
        { InLib g; auto &&r = "x" + k; { OutLib o; fn(); } const char *q = r.c_str(); OutLib o; ok = q[0] == 'x' && strncmp(q + 1, t, 14 * m.n) == 0 && q[1 + 14 * m.n] == 0; } MC_CHECK("F", ok, "the result of \"x\" + %s changes while other results are computed", nm); }
    void push(int, u32 id) { char t[16]; text(t, id); LIB(c() += t); m.push_back(id); }
    void pop(int) { m.pop_back(); char t[16 * (NN + 1)]; t[0] = 0; for (int i = 0; i < m.n; i++) text(t + 14 * i, 0); LIB(c() = t); }
    void verify(const char *nm) { char t[16 * (NN + 1)]; t[0] = 0; for (int i = 0; i < m.n; i++) text(t + 14 * i, 0); const CC &k = c(); MC_CHECK("F", lib([&] { return (long long)k.size(); }) == 14 * m.n, "%s.size() is wrong", nm); const char *p = lib([&] { return k.c_str(); }); MC_CHECK("F", memcmp(p, t, 14 * m.n + 1) == 0, "%s holds the wrong characters", nm); }
};

template <class Ps, class... Cs> struct MixWorld : World {
    static constexpr bool kGlobals = true, kStrictAlloc = [] { if constexpr (requires { Ps::STRICT; }) return Ps::STRICT; else return true; }(); static constexpr int NC = sizeof...(Cs);
    static constexpr int STEP = [] { if constexpr (requires { Ps::STEP; }) return Ps::STEP; else return 1; }(); // elements per push or pop operation
    static constexpr bool SEP = [] { if constexpr (requires { Ps::SEP; }) return Ps::SEP; else return false; }();      // judge that the components do not influence each other
    static constexpr bool CROSS = [] { if constexpr (requires { Ps::CROSS; }) return Ps::CROSS; else return false; }();
    struct Op { int code, c, a; };             // 0 push 1 pop 2 clear 3 renew 4 self-copy round trip 5 moved round trip
    std::tuple<Cs...> *dummy;
    template <int I> using At = typename std::tuple_element<I, std::tuple<Cs...>>::type;
    struct Store { unsigned char b[4096]; } st[NC];
    template <int I> At<I> &at() { static_assert(sizeof(At<I>) <= 4096, ""); return *reinterpret_cast<At<I> *>(st[I].b); }
    template <int I = 0, class Fn> void each(Fn fn) { if constexpr (I < NC) { fn(at<I>(), I); each<I + 1>(fn); } }
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    template <int I = 0> static void mkOps(std::vector<Op> *v) { if constexpr (I < NC) { typedef At<I> X; for (int k = 0; k < X::KINDS; k++) v->push_back({0, I, k}); for (int k = 0; k < X::POPS; k++) v->push_back({1, I, k}); if (X::CLEAR) v->push_back({2, I, 0}); v->push_back({3, I, 0}); v->push_back({4, I, 0}); v->push_back({5, I, 0}); if constexpr (CROSS) mkCross<I>(v); mkOps<I + 1>(v); } }
    // assignments between components of one type
    template <int I, int K = 0> static void mkCross(std::vector<Op> *v) { if constexpr (K < NC) { if constexpr (K != I && std::is_same<At<I>, At<K>>::value) { v->push_back({7, I, K}); v->push_back({8, I, K}); } mkCross<I, K + 1>(v); } }
    static void mk() { tab() = new std::vector<Op>; mkOps(tab()); if (Ps::FRAG) tab()->push_back({6, 0, 0}); Rank::tmp(); trace(); }
    int total;
    void init() {
        for (int i = 0; i < RIDS; i++) Rank::of(i) = 0;
        Ps::prepare(); total = lib([&] { return Ps::SMA::free_mem_size(); });
        each([&](auto &x, int) { typedef typename std::remove_reference<decltype(x)>::type X; x.raw = arenaAlloc(sizeof(typename X::C), BK_ROOT); x.make(); });
    }
    int nops() { return (int)tab()->size(); }
    int cnt(int c) { int r = 0; each([&](auto &x, int i) { if (i == c) r = x.m.n; }); return r; }
    int cap(int c) { int r = 0; each([&](auto &x, int i) { if (i == c) r = x.N; }); return r; }
    bool enabled(int o) { const Op &p = (*tab())[o]; if (p.code == 6) return true; if (p.code == 0) return cnt(p.c) + STEP <= cap(p.c) && (int)ks().nextId + STEP + 2 < RIDS; if (p.code == 1) return cnt(p.c) > 0; return true; }
    const char *opflags(int o) { switch ((*tab())[o].code) { case 4: case 7: return "C"; case 5: case 8: return "V"; } return ""; }
    void opname(int o, char *b, size_t n) { const Op &p = (*tab())[o]; if (p.code == 6) { snprintf(b, n, "cut all free memory into small pieces"); return; } if (p.code > 6) { snprintf(b, n, "%s: %s-assign %s to it", Ps::name(p.c), p.code == 7 ? "copy" : "move", Ps::name(p.a)); return; } const char *k = "?"; each([&](auto &x, int i) { if (i == p.c) k = p.code == 0 ? x.kname(p.a) : p.code == 1 ? x.pname(p.a) : p.code == 2 ? "clear" : p.code == 3 ? "destroy and construct" : p.code == 4 ? "copy it, drop the original, copy-assign back" : "move it away and back"; }); snprintf(b, n, "%s: %s", Ps::name(p.c), k); }
    void apply(int o) {
        const Op p = (*tab())[o]; if (p.code == 6) { Ps::fragment(); return; }
        if constexpr (CROSS) if (p.code > 6) {
            each([&](auto &x, int i) { if (i != p.c) return; each([&](auto &y, int q) { if (q != p.a) return; typedef typename std::remove_reference<decltype(x)>::type X; typedef typename std::remove_reference<decltype(y)>::type Y; typedef typename X::C C;
                if constexpr (std::is_same<X, Y>::value) { if (p.code == 7) { const C &r = y.c(); LIB(x.c() = r); auto w = x.raw; x = y; x.raw = w; } else { LIB(x.c() = static_cast<C &&>(y.c())); auto w = x.raw; x = y; x.raw = w; { Act act("V"); y.m.clear(); } } } }); });
        }
        each([&](auto &x, int i) {
            typedef typename std::remove_reference<decltype(x)>::type X; typedef typename X::C C; if (i != p.c || p.code > 6) return;
            switch (p.code) {
            case 0: for (int k = 0; k < STEP; k++) x.push(p.a, OrdIds::make(p.a)); break; case 1: for (int k = 0; k < STEP && x.m.n; k++) x.pop(p.a); break;
            case 2: if constexpr (X::CLEAR) { LIB(x.c().clear()); x.m.clear(); } break;
            case 3: x.kill(); x.make(); break;
            case 4: { void *t = arenaAlloc(sizeof(C), BK_ROOT); const C &y = x.c(); LIB(new (t) C(y)); x.kill(); auto mm = x; x.make(); x = mm; const C &z = *(C *)t; LIB(x.c() = z); LIB(((C *)t)->~C()); } break;
            case 5: { void *t = arenaAlloc(sizeof(C), BK_ROOT); LIB(new (t) C(static_cast<C &&>(x.c()))); { auto mm = x; x.m.clear(); x.verify(Ps::name(i)); x = mm; } LIB(x.c() = static_cast<C &&>(*(C *)t)); LIB(((C *)t)->~C()); } break;
            }
        });
        if constexpr (SEP) { Act act("Y"); each([&](auto &x, int i) { if (i != p.c) x.verify(Ps::name(i)); }); } // the others show what they showed before
        // dense ranks keep the ids comparable
        SV<u32, RIDS> live; live.clear(); each([&](auto &x, int) { for (u32 q : x.m) live.push_back(q); }); Rank::compress(live); bool isLive[RIDS] = {false}; for (u32 q : live) isLive[q] = true;
        u32 top = ks().nextId; for (u32 i = 1; i < top; i++) { bool l = isLive[i]; if (!l) Rank::of(i) = 0; }
    }
    void check() {
        if constexpr (SEP) { // each on its own, then the answers must be the same whatever else was asked before
            each([&](auto &x, int i) { probe([&] { x.verify(Ps::name(i)); }); });
            Act act("Y"); probe([&] { each([&](auto &x, int i) { x.verify(Ps::name(i)); }); });
            probe([&] { for (int k = NC - 1; k >= 0; k--) each([&](auto &x, int i) { if (i == k) x.verify(Ps::name(i)); }); });
            // answers kept while the same or another object is asked
            each([&](auto &x, int i) { auto rest = [&] { each([&](auto &y, int q) { y.verify(Ps::name(q)); if constexpr (requires { y.ask("", [] {}); }) y.ask(Ps::name(q), [] {}); }); };
                if constexpr (requires { x.ask("", rest); }) probe([&] { x.ask(Ps::name(i), rest); }); });
            return;
        }
        each([&](auto &x, int i) { x.verify(Ps::name(i)); });
        int f = lib([&] { return Ps::SMA::free_mem_size(); }); MC_CHECK("N", f >= 0 && f <= total, "the pool reports %d free bytes of %d", f, total); LIB(Ps::SMA::dump());
        MC_CHECK("B", total - f <= Ps::bound, "the containers hold %d bytes of the pool", total - f);
        probe([&] { LIB(Ps::SMA::memory_merge()); each([&](auto &x, int i) { x.verify(Ps::name(i)); }); });
    }
    void finish() {
        each([&](auto &x, int) { typedef typename std::remove_reference<decltype(x)>::type::C CT; CT &k = x.c(); LIB(k.~CT()); });
        int f = lib([&] { return Ps::SMA::free_mem_size(); }); MC_CHECK("M", f == total, "after every container was destroyed %d bytes of the pool are still not free", total - f);
        scanLive(gBegin(), gSize(), "every container was destroyed");
        LIB(Ps::SMA::memory_merge()); int mx = lib([&] { return Ps::SMA::max_free_mblock_size(); }); MC_CHECK("M", mx >= total, "after every container was destroyed and the pool merged, the largest block is %d of %d", mx, total);
    }
    void canon(GraphHash &g, Hash &h) {
        u32 nx = 1; each([&](auto &x, int i) { h.mix(0x6600 + i * 16 + 64 * x.m.n); for (u32 q : x.m) { if (pv().canon[q] == CANON_STALE) canonId(q, nx++); h.mix(pv().canon[q]); h.mix(Rank::of(q) + 100); } });
        if (STEP > 1) h.mix(ks().nextId / STEP);
        each([&](auto &x, int) { g.root(x.raw); });
        g.bytes((void *)gBegin(), (machp()->skipHi > machp()->skipLo ? machp()->skipLo : gBegin() + gSize()) - gBegin());
        if (machp()->skipHi > machp()->skipLo) g.bytes((void *)machp()->skipHi, gBegin() + gSize() - machp()->skipHi);
    }
};
// a pool-less container that holds others, and the disjoint sets
template <class CC, class EE, class TT, int AN, int NN> struct ArrComp { // an array of vectors
    typedef CC C; typedef TT T; static constexpr int N = NN, KINDS = AN, POPS = AN; static constexpr bool CLEAR = false;
    void *raw; SV<u32, NN + 2> m; SV<u32, NN + 2> v[AN];
    C &c() { return *(C *)raw; }
    void flat() { m.clear(); for (int i = 0; i < AN; i++) for (u32 q : v[i]) m.push_back(q); }
    void make() { for (int i = 0; i < AN; i++) v[i].clear(); flat(); LIB(new (raw) C()); } void kill() { LIB(c().~C()); rawset(raw, 0xBE, sizeof(C)); }
    static const char *kname(int k) { return k ? "push into the last entry" : "push into the first entry"; } static const char *pname(int k) { return k ? "pop from the last entry" : "pop from the first entry"; }
    void push(int k, u32 id) { Arg<TT> a(id); LIB(c()[k ? AN - 1 : 0].push_back(a.v)); v[k ? AN - 1 : 0].push_back(id); flat(); }
    void pop(int k) { auto &w = v[k ? AN - 1 : 0]; if (!w.n) return; LIB(c()[k ? AN - 1 : 0].pop_back()); w.pop_back(); flat(); }
    void verify(const char *nm) { int sum = 0; InLib g; int i = 0; for (auto &e : c()) { auto &w = v[i < AN ? i : 0]; if (!m.n) { if (!e.empty()) { OutLib o; fail("F", "%s: an entry is not empty", nm); } i++; continue; } if (i >= AN || (int)e.size() != w.n) { OutLib o; fail("F", "%s: entry %d has the wrong size", nm, i); } for (int k = 0; k < w.n; k++) if (vid<TT>(e[k]) != w[k]) { OutLib o; fail("F", "%s: entry %d shows the wrong element at %d", nm, i, k); } sum += w.n; i++; } OutLib o; MC_CHECK("F", i == AN && (!m.n || sum == m.n), "%s has %d entries", nm, i); }
};
template <class CC, int NN> struct DsuComp { // push: connect the next pair of a fixed list
    typedef CC C; typedef int T; static constexpr int N = NN, KINDS = 1, POPS = 0; static constexpr bool CLEAR = false;
    void *raw; SV<u32, NN + 2> m;
    C &c() { return *(C *)raw; }
    void make() { m.clear(); LIB(new (raw) C(NN)); } void kill() { LIB(c().~C()); rawset(raw, 0xBE, sizeof(C)); }
    static const char *kname(int) { return "connect the next pair"; } static const char *pname(int) { return ""; }
    static int pa(int i) { return i * 7 % NN; } static int pb(int i) { return (i * 5 + 3) % NN; }
    void push(int, u32 id) { int i = m.n; LIB(c().connect(pa(i), pb(i))); m.push_back(id); }
    void pop(int) {}
    void verify(const char *nm) {
        long long z = lib([&] { return (long long)c().size(); }); if (!z && !m.n) return; // moved from
        MC_CHECK("F", z == NN, "%s.size() is %lld, expected %d", nm, z, NN); int cl[NN], cnt = 0; for (int i = 0; i < NN; i++) cl[i] = i;
        for (int k = 0; k < m.n; k++) { int a = cl[pa(k)], b = cl[pb(k)]; for (int i = 0; i < NN; i++) if (cl[i] == b) cl[i] = a; }
        for (int i = 0; i < NN; i++) if (cl[i] == i) cnt++;
        for (int i = 0; i < NN; i++) for (int j = 0; j < i; j++) MC_CHECK("F", lib([&] { return c().connected(i, j); }) == (cl[i] == cl[j]), "%s: connected(%d,%d) is wrong", nm, i, j);
        MC_CHECK("F", (int)lib([&] { return c().count(); }) == cnt, "%s has the wrong number of sets", nm);
    }
};
template <class W> Job mixJob(const char *n) { W::mk(); return Ops<W>::job(n); }
} // namespace mc
