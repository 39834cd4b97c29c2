// Worlds for the search trees and the map. Exploration is over order types.
#pragma once
#include "ord.hpp"
namespace mc {
enum OK_ { K_BST, K_AVL, K_MAP };
enum OOp { O_PUSH, O_DUP, O_POP, O_POPABS, O_POPALIAS, O_ERASE, O_CLEAR, O_SETNEW, O_SET, O_SETALIAS, O_READNEW, O_RANGE,
           O_FAM, O_DRAIN, O_REFILL,
           O_SELFC, O_SELFV, O_CPA, O_MVA, O_CPC, O_MVC, O_DTOR, O_DTORREV, O_SWP };
inline int avlMaxHeight(int n) { int a = 0, b = 1, h = 0; while (b <= n) { int c = a + b + 1; a = b; b = c; h++; } return h; } // minimal sizes 1,2,4,7,12,...

// Tr: C, T (key carrier), V (value carrier or void), kind, cmp (0 less 1 greater 2 stateful 3 key), strict
// FAM: not every order of insertion but the families of Fam up to a large size, then every single removal (FAM 2: and refill) and some drains
template <class Tr, int N, bool PAIR, bool ALIAS, int SUBSETS = 4, int FAM = 0> struct OSetWorld : World {
    typedef typename Tr::C C; typedef typename Tr::T T; typedef typename Tr::V V;
    static constexpr bool kGlobals = false, kStrictAlloc = Tr::strict, MAP = Tr::kind == K_MAP, AVL = Tr::kind == K_AVL, BST = Tr::kind == K_BST;
    static constexpr int KIND = Tr::cmp, NS = PAIR ? 2 : 1;
    static constexpr bool STABLE = !BST;
    struct Op { int code, s, a; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mk() {
        auto *v = new std::vector<Op>;
        if (FAM) {
            Fam::touch(N);
            for (int f = 0; f < Fam::NUM; f++) v->push_back({O_FAM, 0, f});
            for (int s = 0; s < NS; s++) for (int d = 0; d < 4; d++) v->push_back({O_DRAIN, s, d});
            if (PAIR) for (int s = 0; s < NS; s++) for (int c = O_SELFC; c <= O_MVC; c++) v->push_back({c, s, 0});
            else { for (int i = 0; i < N; i++) { v->push_back({O_POP, 0, i}); v->push_back({O_ERASE, 0, i}); if (BST && i % 5 == 0) v->push_back({O_DUP, 0, i}); if (MAP) v->push_back({O_SET, 0, i}); } v->push_back({O_CLEAR, 0, 0}); if (FAM == 2) for (int g = 0; g <= N; g++) v->push_back({O_REFILL, 0, g}); }
        } else
        for (int s = 0; s < NS; s++) {
            auto add = [&](int c, int a = 0) { v->push_back({c, s, a}); };
            int G = PAIR ? 2 * N : N;
            for (int g = 0; g <= G; g++) { add(O_PUSH, g); if (!PAIR || g <= 1) add(O_POPABS, g); if (MAP) { add(O_SETNEW, g); if (!PAIR || g <= 1) add(O_READNEW, g); } }
            if (PAIR) for (int g = 0; g < G; g++) add(O_RANGE, g); // push a value equal to one in the other container
            for (int i = 0; i < N; i++) { add(O_POP, i); add(O_ERASE, i); if (BST) add(O_DUP, i); if (MAP) add(O_SET, i); if (ALIAS) { add(O_POPALIAS, i); if (MAP) for (int k = 0; k < N; k++) add(O_SETALIAS, i * 16 + k); } }
            add(O_CLEAR);
            if (PAIR) { for (int c = O_SELFC; c <= O_DTOR; c++) add(c); if (KIND == 2) add(O_DTORREV); if (s == 0 && KIND != 2) add(O_SWP); }
        }
        tab() = v;
    }
    struct KV { u32 k, v; bool operator==(const KV &o) const { return k == o.k && v == o.v; } };
    void *raw[NS]; SV<KV, N + 2> m[NS]; int rev[NS]; int classes; int peak; int fam, drain, removed, refilled, nset, copies; // m sorted in comparison order
    C &c(int s) { return *(C *)raw[s]; }
    void make(int s, int r) { rev[s] = r; m[s].clear(); if constexpr (KIND == 2 && !MAP) { RankState<T> cmp(r); LIB(new (raw[s]) C(cmp)); } else LIB(new (raw[s]) C()); }
    void init() {
        for (int i = 0; i < RIDS; i++) Rank::of(i) = 0;
        Rank::of(DEFID) = -1000; classes = 0; peak = 0; fam = drain = -1; removed = refilled = nset = copies = 0; trace().on = false; trace().n = 0;
        for (int s = 0; s < NS; s++) { raw[s] = arenaAlloc(sizeof(C), BK_ROOT, alignof(C) > 16 ? alignof(C) : 16); make(s, KIND == 2 && !MAP ? s ^ 1 : 0); }
    }
    int nops() { return (int)tab()->size(); }
    int classOf(int s, int i) { u32 id = m[s][i].k; return KIND == 3 ? Rank::of(id) / 2 : Rank::of(id); }
    bool hasClass(int s, int cl) { for (int i = 0; i < m[s].n; i++) if (classOf(s, i) == cl) return true; return false; }
    bool enabled(int o) {
        const Op &p = (*tab())[o]; int n = m[p.s].n;
        if (FAM) switch (p.code) {
        case O_FAM: return n < N && !removed && !copies && drain < 0 && (n == 0 ? fam < 0 : p.a == fam);
        case O_DRAIN: return n > 0 && (drain < 0 || drain == p.a);
        case O_POP: case O_ERASE: return p.a < n && !removed && drain < 0;
        case O_DUP: case O_SET: return p.a < n && !removed && drain < 0 && !nset;
        case O_REFILL: return removed == 1 && drain < 0 && !refilled && n < N && p.a <= classes;
        case O_CLEAR: return n > 0; default: return !copies && drain < 0 && m[0].n;
        }
        switch (p.code) {
        case O_PUSH: case O_SETNEW: case O_READNEW: return n < N && p.a <= classes;
        case O_POPABS: return p.a <= classes;
        case O_RANGE: return n < N && p.a < classes && !hasClass(p.s, p.a);
        case O_POP: case O_ERASE: case O_DUP: case O_SET: case O_POPALIAS: return p.a < n;
        case O_SETALIAS: return p.a / 16 < n && p.a % 16 < n;
        default: return true;
        }
    }
    const char *opflags(int o) { switch ((*tab())[o].code) { case O_POPALIAS: case O_SETALIAS: return "A"; case O_ERASE: return "E"; case O_DRAIN: return (*tab())[o].a % 2 ? "E" : ""; case O_SELFC: case O_CPA: case O_CPC: return "C"; case O_SELFV: case O_MVA: case O_MVC: case O_SWP: return "V"; } return ""; }
    void opname(int o, char *b, size_t n) {
        const Op &p = (*tab())[o]; char x = 'a' + p.s, y = 'a' + (1 - p.s);
        switch (p.code) {
        case O_FAM: snprintf(b, n, "%c.push(next, %s)", x, Fam::name(p.a)); break; case O_DRAIN: snprintf(b, n, "%c.%s(%s)", x, p.a % 2 ? "erase" : "pop", p.a == 0 ? "first" : p.a == 1 ? "last" : p.a == 2 ? "middle" : "every third"); break; case O_REFILL: snprintf(b, n, "%c.push(new before #%d)", x, p.a); break;
        case O_PUSH: snprintf(b, n, "%c.push(new before #%d)", x, p.a); break; case O_DUP: snprintf(b, n, "%c.push(equal to element %d)", x, p.a); break;
        case O_POP: snprintf(b, n, "%c.pop(element %d)", x, p.a); break; case O_POPABS: snprintf(b, n, "%c.pop(absent, before #%d)", x, p.a); break;
        case O_POPALIAS: snprintf(b, n, "%c.pop(reference to own element %d)", x, p.a); break; case O_ERASE: snprintf(b, n, "%c.erase(iterator to element %d)", x, p.a); break;
        case O_CLEAR: snprintf(b, n, "%c.clear()", x); break; case O_SETNEW: snprintf(b, n, "%c[new before #%d] = value", x, p.a); break; case O_SET: snprintf(b, n, "%c[key %d] = value", x, p.a); break;
        case O_SETALIAS: snprintf(b, n, "%c[own key %d] = %c[own key %d]", x, p.a / 16, x, p.a % 16); break; case O_READNEW: snprintf(b, n, "read %c[absent before #%d]", x, p.a); break; case O_RANGE: snprintf(b, n, "%c.push(equal to #%d)", x, p.a); break;
        case O_SELFC: snprintf(b, n, "%c = %c", x, x); break; case O_SELFV: snprintf(b, n, "%c = move(%c)", x, x); break; case O_CPA: snprintf(b, n, "%c = %c", y, x); break; case O_MVA: snprintf(b, n, "%c = move(%c)", y, x); break;
        case O_CPC: snprintf(b, n, "%c = C(%c)", y, x); break; case O_MVC: snprintf(b, n, "%c = C(move(%c))", y, x); break; case O_DTOR: snprintf(b, n, "%c = fresh", x); break; case O_DTORREV: snprintf(b, n, "%c = fresh (descending)", x); break; default: snprintf(b, n, "swap");
        }
    }
    // ------------------------------------------------ access helpers
    template <class E> static u32 keyId(const E &e) { if constexpr (MAP) return Val<T>::id(e.key); else return Val<T>::id(e); }
    template <class E> static u32 valId(const E &e) { if constexpr (MAP) return Val<V>::id(e.value); else return 0; }
    static auto toFind(C &x, const T &k) { return x.find(k); }
    int place(int s, u32 id) { int i = 0; while (i < m[s].n && precedes(KIND, rev[s], m[s][i].k, id)) i++; return i; }
    void insert(int s, KV kv) { m[s].insert(place(s, kv.k), kv); }
    u32 newKey(int a, bool tie, int sub = 0) { return Rank::mk(KIND, tie, a, sub); }
    u32 newVal() { u32 id = ks().nextId; Rank::fresh(); Rank::of(id) = 5000; return id; }
    struct Addr { KV kv; const void *p; };
    void addrs(int s, SV<Addr, N + 4> &out) {
        out.clear(); const C &k = c(s); InLib g; int i = 0;
        for (auto it = k.begin(); it != k.end() && i < m[s].n; ++it, ++i) out.push_back({m[s][i], (const void *)&*it});
    }
    const void *addrAt(int s, int i) { const C &k = c(s); InLib g; auto it = k.begin(); for (int q = 0; q < i; q++) ++it; return (const void *)&*it; }
    void cost(const char *what, int n) { // distinct contained elements compared: at most the height of an AVL tree
        if (!AVL) return;
        int lim = avlMaxHeight(n) + 1; // the argument itself
        MC_CHECK("H", trace().n <= lim + 1, "%s compared %d distinct elements in a tree of %d (limit %d)", what, trace().n, n, lim);
    }
    void apply(int o) {
        Op p = (*tab())[o]; int s = p.s, d = 1 - s; C &x = c(s); auto &mm = m[s];
        if (p.code >= O_SELFC) copies = 1;
        if (p.code == O_FAM) { bool eq; fam = p.a; p = Op{O_PUSH, s, Fam::gap(fam, mm.n, N, 1, eq)}; }
        else if (p.code == O_DRAIN) { drain = p.a; p = Op{drain % 2 ? O_ERASE : O_POP, s, drain == 0 ? 0 : drain == 1 ? mm.n - 1 : drain == 2 ? mm.n / 2 : mm.n / 3}; }
        else if (p.code == O_REFILL) { refilled = 1; p.code = O_PUSH; }
        else if (FAM && (p.code == O_POP || p.code == O_ERASE)) removed++;
        else if (FAM && (p.code == O_DUP || p.code == O_SET)) nset++;
        SV<Addr, N + 4> before[2]; before[0].n = before[1].n = 0;
        if (STABLE) for (int k = 0; k < NS; k++) addrs(k, before[k]);
        typedef decltype(((const C &)x).begin()) It;
        alignas(It) char held[N + 2][sizeof(It)]; int nheld = 0; bool hold = STABLE && p.code < O_SELFC; const int N0 = mm.n;
        if (hold) { const C &k = x; InLib g; auto it = k.begin(); for (int i = 0; i < N0; i++, ++it) new (held[nheld++]) It(it); new (held[nheld++]) It(k.end()); }
        trace().n = 0; trace().on = true;
        switch (p.code) {
        case O_PUSH: case O_RANGE: { u32 id = newKey(p.a, p.code == O_RANGE); KV kv{id, 0};
            if constexpr (MAP) { kv.v = newVal(); { Arg<T> a(id); Arg<V> b(kv.v); LIB(x.push(typename C::KeyValueType(a.v, b.v))); } } else { Arg<T> a(id); LIB(x.push(a.v)); cost("push", N0); }
            insert(s, kv); } break;
        case O_DUP: { u32 id = newKey(classOf(s, p.a), true, 1); if constexpr (!MAP) { Arg<T> a(id); LIB(x.push(a.v)); } } break;
        case O_POP: { u32 id = newKey(classOf(s, p.a), true, 1); { Arg<T> a(id); LIB(x.pop(a.v)); cost("pop", N0); } mm.erase(p.a); } break;
        case O_POPABS: { u32 id = newKey(p.a, false); { Arg<T> a(id); LIB(x.pop(a.v)); cost("pop of an absent element", N0); } } break;
        case O_POPALIAS: { const C &k = x; InLib g; auto it = k.begin(); for (int i = 0; i < p.a; i++) ++it; if constexpr (MAP) x.pop(it->key); else x.pop(*it); OutLib og; mm.erase(p.a); } break;
        case O_ERASE: {
            C &k = x; InLib g; auto it = k.begin(); for (int i = 0; i < p.a; i++) ++it;
            auto nx = k.erase(it);
            { OutLib og; mm.erase(p.a); }
            for (int i = p.a; i < mm.n; i++, ++nx) { if (!(nx != k.end())) { OutLib og; fail("F", "iteration from the iterator erase returned ends before element %d of %d", i, mm.n); } u32 id = keyId(*nx); if (id != mm[i].k) { OutLib og; fail("F", "erase did not return an iterator to the in-order successor (walk shows #%x instead of #%x at %d)", id, mm[i].k, i); } }
            if (nx != k.end()) { OutLib og; fail("F", "iteration from the iterator erase returned does not reach the end"); }
        } break;
        case O_CLEAR: LIB(x.clear()); mm.clear(); break;
        case O_SETNEW: if constexpr (MAP) { KV kv{newKey(p.a, false), newVal()}; { Arg<T> a(kv.k); Arg<V> b(kv.v); LIB(x[a.v] = b.v); } insert(s, kv); } break;
        case O_SET: if constexpr (MAP) { u32 id = newKey(classOf(s, p.a), true, 1); u32 v = newVal(); { Arg<T> a(id); Arg<V> b(v); LIB(x[a.v] = b.v); } mm[p.a].v = v; } break;
        case O_SETALIAS: if constexpr (MAP) { const C &k = x; InLib g; auto i1 = k.begin(), i2 = k.begin(); for (int i = 0; i < p.a / 16; i++) ++i1; for (int i = 0; i < p.a % 16; i++) ++i2; x[i1->key] = x[i2->key]; mm[p.a / 16].v = mm[p.a % 16].v; } break;
        case O_READNEW: if constexpr (MAP) { KV kv{newKey(p.a, false), DEFID}; u32 g; { Arg<T> a(kv.k); g = lib([&] { V &r = x[a.v]; return isDef(r) ? DEFID : Val<V>::id(r); }); } MC_CHECK("F", g == DEFID, "reading an absent key gives #%x, not a default value", g); insert(s, kv); } break;
        case O_SELFC: if constexpr (PAIR) { C &y = x; LIB(x = y); } break;
        case O_SELFV: if constexpr (PAIR) { C &y = x; LIB(x = static_cast<C &&>(y)); } break;
        case O_CPA: if constexpr (PAIR) { const C &y = x; LIB(c(d) = y); m[d] = mm; rev[d] = rev[s]; } break;
        case O_MVA: if constexpr (PAIR) { LIB(c(d) = static_cast<C &&>(x)); m[d] = mm; rev[d] = rev[s]; mm.clear(); } break;
        case O_CPC: if constexpr (PAIR) { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); const C &y = x; LIB(new (raw[d]) C(y)); m[d] = mm; rev[d] = rev[s]; } break;
        case O_MVC: if constexpr (PAIR) { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); LIB(new (raw[d]) C(static_cast<C &&>(x))); m[d] = mm; rev[d] = rev[s]; mm.clear(); } break;
        case O_DTOR: case O_DTORREV: LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); make(s, p.code == O_DTORREV); break;
        case O_SWP: if constexpr (PAIR) { LIB(dstruct::swap(c(0), c(1))); auto t = m[0]; m[0] = m[1]; m[1] = t; int r = rev[0]; rev[0] = rev[1]; rev[1] = r; } break;
        }
        trace().on = false;
        for (int k = 0; k < NS; k++) traversals(k); // the tree's own order first: what follows iterates
        if (STABLE) { Act act("R"); stability(p, before, held, nheld); }
        for (int i = 0; i < nheld; i++) LIB(reinterpret_cast<It *>(held[i])->~It());
        SV<u32, NS * (N + 2)> live; live.clear(); for (int k = 0; k < NS; k++) for (const KV &q : m[k]) live.push_back(q.k);
        classes = Rank::squeeze(KIND, live);
        if (live.n > peak) peak = live.n;
        if (p.code == O_SETALIAS) { u32 v = newVal(); if constexpr (MAP) { Arg<V> b(v); int i = 0; for (auto it = x.begin(); it != x.end(); ++it, ++i) if (i == p.a / 16) { u32 g = Val<V>::id(it->value); MC_CHECK("F", g == mm[i].v, "the assigned value is wrong"); LIB(x[it->key] = b.v); mm[i].v = v; break; } } }
        if constexpr (MAP) if (p.code == O_CPA || p.code == O_CPC) freshValues(d);
    }
    static bool isDef(const V &r) { if constexpr (MAP) { V z = V(); return memcmp((const void *)&r, (const void *)&z, sizeof(V) < 16 ? sizeof(V) : 4) == 0; } return false; }
    void freshValues(int s) { (void)s; }
    template <class H> void stability(const Op &p, SV<Addr, N + 4> *before, H &held, int nheld) {
        typedef decltype(((const C &)c(0)).begin()) It;
        int s = p.s, d = 1 - s;
        auto same = [&](int from, int to, const char *w) {
            for (const Addr &a : before[from]) { int at = -1; for (int i = 0; i < m[to].n; i++) if (m[to][i].k == a.kv.k) at = i; if (at < 0) continue;
                const void *now = addrAt(to, at); if (now != a.p) fail("R", "%s relocated element %d", w, at); }
        };
        if (p.code < O_SELFC) {
            same(s, s, "an operation on other elements");
            for (const Addr &a : before[s]) for (int i = 0; i < m[s].n; i++) if (m[s][i].k == a.kv.k) { typedef typename std::remove_reference<decltype(*c(s).begin())>::type E; u32 id = lib([&] { return keyId(*(E *)a.p); }); MC_CHECK("R", id == a.kv.k, "a held reference shows a different element"); }
            // held iterators of surviving elements still walk to the successor
            for (int i = 0; i + 1 < nheld; i++) { int at = -1; for (int q = 0; q < m[s].n; q++) if (m[s][q].k == before[s][i].kv.k) at = q; if (at < 0) continue;
                It &it = *reinterpret_cast<It *>(held[i]); u32 id = lib([&] { return keyId(*it); }); MC_CHECK("R", id == m[s][at].k, "a held iterator shows a different element");
                It nx(it); bool end = lib([&] { ++nx; return !(nx != ((const C &)c(s)).end()); });
                if (at + 1 == m[s].n) { MC_CHECK("R", end, "a held iterator does not advance to the end"); } else { MC_CHECK("R", !end, "a held iterator ends early"); id = lib([&] { return keyId(*nx); }); MC_CHECK("R", id == m[s][at + 1].k, "a held iterator does not advance to the successor"); } }
            if (PAIR) same(d, d, "an operation on a different container");
        } else if (p.code == O_MVA || p.code == O_MVC) same(s, d, "moving the container");
        else if (p.code == O_SELFC || p.code == O_SELFV) { same(s, s, "self assignment"); same(d, d, "an operation on a different container"); }
        else if (p.code == O_SWP) { same(0, 1, "swap"); same(1, 0, "swap"); }
        else if (p.code == O_CPA || p.code == O_CPC) same(s, s, "being copied");
    }
    // ------------------------------------------------ judging
    template <class Q> void walk(Q &x, int s, const char *cq) {
        auto &mm = m[s]; InLib g; int i = 0; Act act("FI");
        for (auto it = x.begin(); it != x.end(); ++it, ++i) {
            if (i >= mm.n) { OutLib o; fail("F", "%siteration of %c goes on after its %d elements", cq, 'a' + s, mm.n); }
            u32 k = keyId(*it), v = 0; if constexpr (MAP) v = isDef(it->value) ? DEFID : valId(*it);
            if (k != mm[i].k) { OutLib o; fail("F", "%siteration of %c shows #%x at position %d, expected #%x", cq, 'a' + s, k, i, mm[i].k); }
            if (MAP && v != mm[i].v) { OutLib o; fail("F", "%siteration of %c shows value #%x for key %d, expected #%x", cq, 'a' + s, v, i, mm[i].v); }
        }
        if (i != mm.n) { OutLib o; fail("F", "%siteration of %c ends after %d of %d elements", cq, 'a' + s, i, mm.n); }
        i = 0; for (auto &e : x) { if (i >= mm.n || keyId(e) != mm[i].k) { OutLib o; fail("F", "range-for differs at %d", i); } i++; }
        // laws
        auto it = x.begin(); for (i = 0; i < mm.n; i++) { auto a = it, b = it; auto old = a++; auto &r = ++b; OutLib o; MC_CHECK("I", old == it && !(old != it) && a == b && !(a == it) && &r == &b, "increment laws broken at %d", i); MC_CHECK("I", keyId(*it.operator->()) == mm[i].k, "-> or copy broken at %d", i); auto c2 = it; c2 = b; MC_CHECK("I", c2 == b, "iterator assignment"); it = a; }
        { OutLib o; MC_CHECK("I", it == x.end(), "advancing size times does not reach the end"); }
        int cnt = 0; bool ok = true; dstruct::algorithm::for_each(x.begin(), x.end(), [&](auto &e) { if (cnt >= mm.n || keyId(e) != mm[cnt].k) ok = false; cnt++; });
        { OutLib o; MC_CHECK("I", ok && cnt == mm.n, "for_each does not follow the sequence"); }
    }
    struct Sh { const void *node; int l, r, elem, h; };
    template <class Nd> static u32 nodeId(Nd *nd) { if constexpr (requires { Val<T>::id(nd->data.val); }) return Val<T>::id(nd->data.val); else return Val<T>::id(nd->data); }
    template <class X> static constexpr bool whiteBox() {
        if constexpr (requires (X x) { x._get_root_ptr()->link.left; x._get_root_ptr()->link.right; }) {
            typedef typename std::remove_reference<decltype(*std::declval<X &>()._get_root_ptr())>::type Nd;
            return requires (Nd *nd) { Nd::to_node(nd->link.left); nodeId(nd); };
        } else return false;
    }
    template <class Nd> int shape(Nd *nd, SV<Sh, N + 4> &t, int s, int depth) { // white box, only through public members
        if (!nd) return -1;
        if (t.n >= N + 2 || depth > 64) fail("F", "the tree has more nodes than elements (a cycle or a foreign node)");
        u32 id = nodeId(nd);
        int at = -1; for (int i = 0; i < m[s].n; i++) if (m[s][i].k == id) at = i;
        MC_CHECK("F", at >= 0, "a tree node holds an element that is not contained");
        int me = t.n; t.push_back({nd, -1, -1, at, 0});
        int l = shape(Nd::to_node(nd->link.left), t, s, depth + 1), r = shape(Nd::to_node(nd->link.right), t, s, depth + 1);
        t[me].l = l; t[me].r = r; int hl = l < 0 ? 0 : t[l].h, hr = r < 0 ? 0 : t[r].h; t[me].h = (hl > hr ? hl : hr) + 1;
        if (AVL) MC_CHECK("H", hl - hr <= 1 && hr - hl <= 1, "subtree heights %d and %d differ by more than one at element %d of %d", hl, hr, at, m[s].n);
        return me;
    }
    void orderOf(const SV<Sh, N + 4> &t, int i, int mode, SV<int, N + 4> &out) { if (i < 0) return; if (mode == 0) out.push_back(t[i].elem); orderOf(t, t[i].l, mode, out); if (mode == 1) out.push_back(t[i].elem); orderOf(t, t[i].r, mode, out); if (mode == 2) out.push_back(t[i].elem); }
    template <class D> static u32 cbId(const D &d) { if constexpr (requires { d.val; d.height; }) return Val<T>::id(d.val); else return Val<T>::id(d); }
    void traversals(int s) {
        if constexpr (!MAP) {
            C &x = c(s); const C &k = x; int n = m[s].n; Act act("");
            SV<Sh, N + 4> t; t.clear(); int root = -1; bool known = false;
            if constexpr (whiteBox<C>()) { root = shape(x._get_root_ptr(), t, s, 0); MC_CHECK("F", t.n == n, "the tree has %d nodes for %d elements", t.n, n); known = true; }
            if constexpr (AVL) if (known) { int h = lib([&] { return k.height(); }); MC_CHECK("H", h == (root < 0 ? 0 : t[root].h), "height() is %d, the tree's height is %d", h, root < 0 ? 0 : t[root].h); }
            Act act2("T"); typedef typename C::TraversalType TT; TT tts[3] = {TT::PreOrder, TT::InOrder, TT::PostOrder}; const char *nm[3] = {"pre", "in", "post"};
            for (int md = 0; md < 3; md++) {
                SV<int, N + 4> want; want.clear(); if (known) orderOf(t, root, md, want); else for (int i = 0; i < n; i++) want.push_back(i);
                if (!known && md != 1) continue;
                int i = 0; bool ok = true;
                { InLib g; k.traversal([&](auto &dd) { OutLib o; if (i >= n || cbId(dd) != m[s][want[i]].k) ok = false; i++; }, tts[md]); }
                MC_CHECK("T", ok && i == n, "callback %s-order traversal visits %d of %d elements%s", nm[md], i, n, ok ? "" : ", not in that order");
                i = 0; { InLib g; auto e = k.end(tts[md]); for (auto it = k.begin(tts[md]); it != e; ++it, ++i) { OutLib o; MC_CHECK("T", i < n, "%s-order iteration goes on after %d elements", nm[md], n); u32 id = keyId(*it); MC_CHECK("T", id == m[s][want[i]].k, "%s-order iteration shows the wrong element at %d of %d", nm[md], i, n); } }
                MC_CHECK("T", i == n, "%s-order iteration ends after %d of %d", nm[md], i, n);
                i = 0; { InLib g; auto e = k.end(tts[md]); for (auto it = k.begin(tts[md]); it != e; it++) i++; } MC_CHECK("T", i == n, "%s-order iteration by it++ visits %d of %d", nm[md], i, n);
            }
            int i = 0; bool ok = true; { InLib g; k.traversal([&](auto &dd) { OutLib o; if (i >= n || cbId(dd) != m[s][i].k) ok = false; i++; }); } MC_CHECK("T", ok && i == n, "the default traversal is not in-order");
        }
    }
    void check() {
        for (int s = 0; s < NS; s++) {
            Act act("F"); traversals(s);
            C &x = c(s); const C &k = x; auto &mm = m[s]; int n = mm.n;
            auto z = lib([&] { return k.size(); }); bool e = lib([&] { return k.empty(); });
            MC_CHECK("F", (long long)z == n, "%c.size() is %lld, expected %d", 'a' + s, (long long)z, n); MC_CHECK("F", e == (n == 0), "%c.empty() is %d with %d elements", 'a' + s, e, n);
            auto cp = lib([&] { return k.capacity(); }); MC_CHECK("F", (long long)cp >= n, "capacity below size");
            MC_CHECK("F", (lib([&] { return k.begin() == k.end(); })) == (n == 0), "begin()==end() is wrong with %d elements", n);
            walk(k, s, "const "); walk(x, s, "");
            // find: each member (by an equal key) and each gap
            for (int i = 0; i < n; i++) {
                u32 id = 500 - 2 * i; Rank::of(id) = Rank::of(mm[i].k) ^ (KIND == 3 ? 1 : 0);
                { Arg<T> a(id); trace().n = 0; trace().on = true; auto it = lib([&] { return x.find(a.v); }); trace().on = false; cost("find", n); MC_CHECK("F", lib([&] { return it != x.end(); }), "find does not find element %d of %d", i, n); u32 g = lib([&] { return keyId(*it); }); MC_CHECK("F", g == mm[i].k, "find returned element #%x for #%x", g, mm[i].k);
                  auto w = x.begin(); LIB(for (int q = 0; q < i; q++) ++w); MC_CHECK("FI", lib([&] { return it == w; }), "find returned an iterator different from the element's position");
                  for (int q = i; q < n && (!FAM || q < i + 3); q++) { u32 gg = lib([&] { return keyId(*it); }); MC_CHECK("FI", gg == mm[q].k, "iterating on from find shows the wrong element"); LIB(++it); } if (!FAM || i + 3 >= n) MC_CHECK("FI", lib([&] { return !(it != x.end()); }), "iterating on from find misses the end");
                  if constexpr (MAP) { u32 v1 = lib([&] { const V &r = k[a.v]; return isDef(r) ? DEFID : Val<V>::id(r); }), v2 = lib([&] { V &r = x[a.v]; return isDef(r) ? DEFID : Val<V>::id(r); }); MC_CHECK("F", v1 == mm[i].v && v2 == mm[i].v, "bracket reads of key %d show #%x (const) and #%x, expected #%x", i, v1, v2, mm[i].v); auto f = lib([&] { return k.find(a.v); }); MC_CHECK("F", lib([&] { return keyId(*f) == mm[i].k; }), "const find"); } }
            }
            for (int gpos = 0; gpos <= n; gpos++) probe([&] { // absent values between the members
                u32 id; { int cl = gpos == 0 ? (n ? lower(s) : 0) : after(s, gpos - 1); id = Rank::mk(KIND, false, cl, 0); }
                if (placeOk(s, id)) { Arg<T> a(id); trace().n = 0; trace().on = true; auto it = lib([&] { return x.find(a.v); }); trace().on = false; MC_CHECK("F", lib([&] { return !(it != x.end()); }), "find finds a value that is not contained (gap %d of %d)", gpos, n); cost("find of an absent value", n); }
            });
        }
        if (m[0].n <= SUBSETS && !PAIR) subsets(0);
        if (Val<T>::tracked) live();
        u64 lim = 4ull * (sizeof(T) + sizeof(typename std::conditional<MAP, V, char>::type) + 64) * peak + 512;
        if (ks().liveBytes > lim) fail("B", "%llu bytes held for a peak of %d elements", (unsigned long long)ks().liveBytes, peak);
        u64 want = 0; for (int s = 0; s < NS; s++) want += m[s].n; (void)want;
    }
    int clsOf(u32 id) { return KIND == 3 ? Rank::of(id) / 2 : Rank::of(id); }
    int lower(int s) { int c0 = clsOf(m[s][0].k); bool asc = !(KIND == 1 || (KIND == 2 && rev[s])); return asc ? c0 : c0 + 1; }
    int after(int s, int i) { int c0 = clsOf(m[s][i].k); bool asc = !(KIND == 1 || (KIND == 2 && rev[s])); return asc ? c0 + 1 : c0; }
    bool placeOk(int s, u32 id) { for (int i = 0; i < m[s].n; i++) if (!precedes(KIND, rev[s], m[s][i].k, id) && !precedes(KIND, rev[s], id, m[s][i].k)) return false; return true; }
    void subsets(int s) {
        int n = m[s].n;
        for (int mask = 1; mask < (1 << n); mask++) probe([&] {
            C &x = c(s); int i = 0, vis = 0;
            InLib g;
            for (auto it = x.begin(); it != x.end();) {
                if (i >= n) { OutLib o; fail("FE", "a loop that erases subset %x visits more than %d elements", mask, n); }
                u32 id = keyId(*it); if (id != m[s][i].k) { OutLib o; fail("FE", "a loop that erases subset %x visits the wrong element at %d of %d", mask, i, n); }
                vis++; if (mask >> i & 1) it = x.erase(it); else ++it; i++;
            }
            OutLib o; MC_CHECK("FE", vis == n, "a loop that erases subset %x visits %d of %d elements", mask, vis, n);
            SV<KV, N + 2> left; left.clear(); for (int q = 0; q < n; q++) if (!(mask >> q & 1)) left.push_back(m[s][q]);
            m[s] = left; MC_CHECK("FE", (long long)lib([&] { return x.size(); }) == left.n, "after erasing subset %x the size is wrong", mask); walk(x, s, "after erasing in a loop, "); traversals(s);
        });
    }
    void live() {
        for (int i = 0; i < ks().nblk; i++) {
            Block &b = ks().blk[i]; if (!b.alive || (b.kind != BK_ALLOC && b.kind != BK_MALLOC)) continue;
            u8 *sh = shadowOf((void *)b.addr);
            for (u64 q = 0; q < (b.size + 3) / 4; q++) if (sh[q] == E_ALIVE) {
                u32 w = *(u32 *)(b.addr + q * 4), id = w & 0xffffff; bool mem = w == MOVED || id == DEFID;
                for (int s = 0; s < NS; s++) for (const KV &kv : m[s]) if (kv.k == id || kv.v == id) mem = true;
                if (!mem) fail("L", "a removed element is still alive in the container's storage");
            }
        }
    }
    void finish() { for (int s = 0; s < NS; s++) LIB(c(s).~C()); }
    void canon(GraphHash &g, Hash &h) {
        for (int s = 0; s < NS; s++) { h.mix(0x7700 + m[s].n + 256 * rev[s]); for (const KV &kv : m[s]) { canonId(kv.k, 1000 + Rank::of(kv.k) + (PAIR ? 1000 * firstSlot(kv.k, s) : 0)); h.mix(Rank::of(kv.k)); } }
        if (MAP) { u32 nx = 5000; for (int s = 0; s < NS; s++) for (const KV &kv : m[s]) if (kv.v != DEFID) { if (pv().canon[kv.v] == CANON_STALE) canonId(kv.v, nx++); h.mix(pv().canon[kv.v]); } else h.mix(1); }
        if (!FAM) h.mix(peak); else { h.mix(removed || drain >= 0 || copies ? -1 : fam); h.mix(drain); h.mix(removed * 16 + refilled * 8 + nset * 4 + copies); }
        for (int s = 0; s < NS; s++) g.root(raw[s]);
        if constexpr (requires { Tr::layout; }) g.layout = Tr::layout;
    }
    int firstSlot(u32 id, int s) { for (const KV &kv : m[0]) if (kv.k == id) return 0; return s; }
};
template <class W> Job osetJob(const char *n) { W::mk(); return Ops<W>::job(n); }
} // namespace mc
