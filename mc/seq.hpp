// Worlds for sequence-like containers: vectors, deques, linked lists and their adapters.
#pragma once
#include "mc.hpp"

namespace mc {

// A container is described by a traits class; every capability is a constexpr bool.
struct SeqTraitsBase {
    static constexpr bool hasPushBack = true, hasPushFront = false, hasPopBack = true, hasPopFront = false;
    static constexpr bool hasPush = true;        // push()
    static constexpr bool pushIsFront = false;
    static constexpr bool hasPop = true;         // pop()
    static constexpr bool popIsFront = false;
    static constexpr bool hasIndex = false;      // operator[] (int) on const objects
    static constexpr bool hasIndexMut = false;   // operator[] only on non-const objects, read only
    static constexpr bool hasWrite = false;      // T& operator[](int)
    static constexpr bool hasItWrite = false;    // mutable iterators
    static constexpr bool hasNegIndex = true;
    static constexpr bool hasFront = true, hasBack = true, hasTop = false;
    static constexpr bool hasClear = true;
    static constexpr bool hasCapacity = false;
    static constexpr bool hasResize = false, hasResizeV = false, hasNCtor = false;
    static constexpr bool hasSlowPopBack = false;
    static constexpr bool randomIt = false, bidiIt = false, hasDistance = false;
    static constexpr bool refStable = false;     // pushes and pops never relocate
    static constexpr bool itStable = false;      // so do iterators
    static constexpr bool moveStable = false;    // moves do not relocate
    static constexpr int  constHeapElems = 0;    // extra live elements the container may own in heap blocks
    static constexpr int  nctorMin = 0;
    static constexpr bool layout = false;        // the allocator reuses blocks: their layout is part of the state
    static constexpr bool deep = false;          // a small alphabet, for long containers
    static constexpr int ovh = 8, blockElems = 0; // storage per element besides the element, elements per block
    static constexpr bool refresh = true;        // rename equal elements apart after copies and fills
};

enum SeqOp { PB, P, PF, OB, OF, OP, SPB, WI, WIT, CL, RZ, RZV, PBA, PA, PFA, RZVA, WIA, SELFC, SELFV, NCT, CPA, MVA, CPC, MVC, DTOR, SWP };

template <class Tr> struct Deep : Tr { static constexpr bool deep = true; };
template <class Tr, int N, bool PAIR, bool ALIAS, int BK = 8, int BC = 512, bool GLOB = false>
struct SeqWorld : World {
    typedef typename Tr::C C; typedef typename Tr::T T;
    static constexpr bool kGlobals = GLOB, kStrictAlloc = Tr::strict;
    static constexpr int NS = PAIR ? 2 : 1;
    struct Op { int code, s, a, b; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mk() {
        if (tab()) return;
        auto *v = new std::vector<Op>;
        for (int s = 0; s < NS; s++) if (Tr::deep) {
            auto add = [&](int c, int a = 0, int b = 0) { v->push_back({c, s, a, b}); };
            if (PAIR) {
                if (s == 0) { if (Tr::hasPushBack) add(PB); else add(P); if (Tr::hasClear && !Tr::hasIndex) add(CL); if (Tr::hasWrite) add(WI, -1); if (!Tr::hasIndex) add(SWP); }
                if (s == 1) { if (Tr::hasPopBack) add(OB); else add(OP); }
                add(SELFC); add(SELFV); add(CPA); add(MVA); add(CPC); add(MVC);
            } else {
                if (Tr::hasPushBack) add(PB); else add(P);
                if (Tr::hasPushFront) add(PF);
                if (Tr::hasPopBack) add(OB);
                if (Tr::hasPopFront) add(OF);
                if (!Tr::hasPopBack && !Tr::hasPopFront) add(OP);
                if (Tr::hasClear) add(CL);
                if (Tr::hasWrite) { add(WI, 0); add(WI, -1); }
                if (Tr::hasItWrite) add(WIT, N / 2);
                if (Tr::hasResize) for (int n : {0, 1, N / 2, N}) add(RZ, n);
                if (Tr::hasResizeV) for (int n : {N / 3, N}) add(RZV, n);
                if (Tr::hasNCtor) add(NCT, N / 2);
                if (ALIAS) for (int i : {0, N / 4, N / 2}) { if (Tr::hasPushBack) add(PBA, i); if (Tr::hasPush) add(PA, i); if (Tr::hasPushFront) add(PFA, i); if (Tr::hasResizeV) add(RZVA, N, i); }
            }
        } else {
            auto add = [&](int c, int a = 0, int b = 0) { v->push_back({c, s, a, b}); };
            if (Tr::hasPushBack) add(PB);
            if (Tr::hasPush) add(P);
            if (Tr::hasPushFront) add(PF);
            if (Tr::hasPopBack) add(OB);
            if (Tr::hasPopFront) add(OF);
            if (Tr::hasPop) add(OP);
            if (Tr::hasSlowPopBack) add(SPB);
            if (Tr::hasClear) add(CL);
            if (Tr::hasWrite && !PAIR) { for (int i = -N; i < N; i++) add(WI, i); }
            if (Tr::hasWrite && PAIR) { add(WI, 0); add(WI, -1); }
            if (Tr::hasItWrite && !PAIR) for (int i = 0; i < N; i++) add(WIT, i);
            if (Tr::hasResize) for (int n = 0; n <= N + 2; n++) if (!PAIR || n == 0 || n == 1 || n == N) add(RZ, n);
            if (Tr::hasResizeV) for (int n = 0; n <= N; n++) if (!PAIR || n == N - 1) add(RZV, n);
            if (Tr::hasNCtor) for (int n = Tr::nctorMin; n <= N; n++) if (!PAIR || n == 1 || n == N) add(NCT, n);
            if (ALIAS) {
                for (int i = 0; i < N; i++) { if (Tr::hasPushBack) add(PBA, i); if (Tr::hasPush) add(PA, i); if (Tr::hasPushFront) add(PFA, i); }
                if (Tr::hasResizeV) for (int i = 0; i < N; i++) for (int n = 0; n <= N; n++) add(RZVA, n, i);
                if (Tr::hasWrite) for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) add(WIA, i, k);
            }
            if (PAIR) {
                add(SELFC); add(SELFV); add(CPA); add(MVA); add(CPC); add(MVC); add(DTOR);
                if (s == 0) add(SWP);
            }
        }
        tab() = v;
    }
    // state
    void *raw[NS];
    SV<u32, N + 4> m[NS];
    int peak;
    int touched;

    C &c(int s) { return *reinterpret_cast<C *>(raw[s]); }
    void init() {
        peak = 0;
        for (int s = 0; s < NS; s++) {
            raw[s] = arenaAlloc(sizeof(C), BK_ROOT, alignof(C) > 16 ? alignof(C) : 16);
            m[s].clear();
            LIB(new (raw[s]) C());
        }
    }
    int nops() { return (int)tab()->size(); }
    int sz(int s) { return m[s].n; }
    bool capOk(int s) { return true; }
    bool enabled(int o) {
        const Op &p = (*tab())[o]; int n = m[p.s].n;
        switch (p.code) {
        case PB: case P: case PF: return n < N;
        case OB: case OF: case OP: case SPB: return n > 0;
        case WI: return p.a < n && p.a >= -n;
        case WIT: return p.a < n;
        case CL: return true;
        case RZ: case RZV: case NCT: return true;
        case PBA: case PA: case PFA: return n < N && p.a < n;
        case RZVA: return p.b < n;
        case WIA: return p.a < n && p.b < n;
        default: return true;
        }
    }
    const char *opflags(int o) {
        switch ((*tab())[o].code) {
        case PBA: case PA: case PFA: case RZVA: case WIA: return "A";
        case SELFC: case CPA: case CPC: return "C";
        case SELFV: case MVA: case MVC: case SWP: return "V";
        default: return "";
        }
    }
    void opname(int o, char *b, size_t n) {
        const Op &p = (*tab())[o]; char c = (char)('a' + p.s), d = (char)('a' + (1 - p.s));
        switch (p.code) {
        case PB: snprintf(b, n, "%c.push_back(new)", c); break;
        case P: snprintf(b, n, "%c.push(new)", c); break;
        case PF: snprintf(b, n, "%c.push_front(new)", c); break;
        case OB: snprintf(b, n, "%c.pop_back()", c); break;
        case OF: snprintf(b, n, "%c.pop_front()", c); break;
        case OP: snprintf(b, n, "%c.pop()", c); break;
        case SPB: snprintf(b, n, "%c._pop_back()", c); break;
        case WI: snprintf(b, n, "%c[%d] = new", c, p.a); break;
        case WIT: snprintf(b, n, "*(%c.begin() advanced %d) = new", c, p.a); break;
        case CL: snprintf(b, n, "%c.clear()", c); break;
        case RZ: snprintf(b, n, "%c.resize(%d)", c, p.a); break;
        case RZV: snprintf(b, n, "%c.resize(%d, new)", c, p.a); break;
        case NCT: snprintf(b, n, "%c = C(%d, new)", c, p.a); break;
        case PBA: snprintf(b, n, "%c.push_back(element %d of %c)", c, p.a, c); break;
        case PA: snprintf(b, n, "%c.push(element %d of %c)", c, p.a, c); break;
        case PFA: snprintf(b, n, "%c.push_front(element %d of %c)", c, p.a, c); break;
        case RZVA: snprintf(b, n, "%c.resize(%d, element %d of %c)", c, p.a, p.b, c); break;
        case WIA: snprintf(b, n, "%c[%d] = %c[%d]", c, p.a, c, p.b); break;
        case SELFC: snprintf(b, n, "%c = %c", c, c); break;
        case SELFV: snprintf(b, n, "%c = move(%c)", c, c); break;
        case CPA: snprintf(b, n, "%c = %c", d, c); break;
        case MVA: snprintf(b, n, "%c = move(%c)", d, c); break;
        case CPC: snprintf(b, n, "destroy %c; construct %c as copy of %c", d, d, c); break;
        case MVC: snprintf(b, n, "destroy %c; construct %c by moving %c", d, d, c); break;
        case DTOR: snprintf(b, n, "destroy %c; construct %c empty", c, c); break;
        case SWP: snprintf(b, n, "swap(a, b)"); break;
        }
    }
    const T *addrOf(int s, int i) { // address of element i by const iteration
        const C &k = c(s); InLib g; auto it = k.begin(); for (int q = 0; q < i; q++) ++it; return &*it;
    }
    struct Addr { u32 id; const void *p; };
    void addrs(int s, SV<Addr, N + 4> &out) {
        out.clear();
        for (int i = 0; i < m[s].n; i++) out.push_back({m[s][i], addrOf(s, i)});
    }
    // n-th element by mutable or const access, as a reference into the container
    const T &elemRef(int s, int i) {
        if constexpr (Tr::hasIndex) { const C &k = c(s); return k[i]; }
        else return *addrOf(s, i);
    }
    void apply(int o) {
        const Op p = (*tab())[o]; int s = p.s; C &x = c(s); auto &mm = m[s];
        constexpr bool trackRefs = Tr::refStable || Tr::moveStable;
        SV<Addr, N + 4> before[2]; before[0].n = before[1].n = 0;
        if (trackRefs) for (int k = 0; k < NS; k++) addrs(k, before[k]);
        typedef decltype(((const C &)x).begin()) CIt; typedef decltype(x.begin()) MIt;
        alignas(16) char hc[N + 4][Tr::itStable ? sizeof(CIt) : 1], hm[N + 4][Tr::itStable ? sizeof(MIt) : 1]; int nheld = 0;
        if constexpr (Tr::itStable) { const C &k = x; InLib g; auto it = k.begin(); auto jt = x.begin(); for (; nheld < mm.n; ++nheld, ++it, ++jt) { new (hc[nheld]) CIt(it); new (hm[nheld]) MIt(jt); } }
        u32 id = ks().nextId;
        auto freshId = [&] { if (id + 1 >= 60000) fail("?", "history too long"); ks().nextId++; };
        bool pureEnds = false; int mvFrom = -1, mvTo = -1;
        switch (p.code) {
        case PB: if constexpr (Tr::hasPushBack) { freshId(); { Arg<T> a(id); LIB(x.push_back(a.v)); } mm.push_back(id); pureEnds = true; } break;
        case P: if constexpr (Tr::hasPush) { freshId(); { Arg<T> a(id); LIB(x.push(a.v)); } if (Tr::pushIsFront) mm.insert(0, id); else mm.push_back(id); pureEnds = true; } break;
        case PF: if constexpr (Tr::hasPushFront) { freshId(); { Arg<T> a(id); LIB(x.push_front(a.v)); } mm.insert(0, id); pureEnds = true; } break;
        case OB: if constexpr (Tr::hasPopBack) { LIB(x.pop_back()); mm.pop_back(); pureEnds = true; } break;
        case OF: if constexpr (Tr::hasPopFront) { LIB(x.pop_front()); mm.erase(0); pureEnds = true; } break;
        case OP: if constexpr (Tr::hasPop) { LIB(x.pop()); if (Tr::popIsFront) mm.erase(0); else mm.pop_back(); pureEnds = true; } break;
        case SPB: if constexpr (Tr::hasSlowPopBack) { LIB(x._pop_back()); mm.pop_back(); pureEnds = true; } break;
        case CL: if constexpr (Tr::hasClear) { LIB(x.clear()); mm.clear(); } break;
        case WI: if constexpr (Tr::hasWrite) { freshId(); { Arg<T> a(id); LIB(x[p.a] = a.v); } mm[p.a < 0 ? p.a + mm.n : p.a] = id; } break;
        case WIT: if constexpr (Tr::hasItWrite) { freshId(); { Arg<T> a(id); LIB(auto it = x.begin(); for (int q = 0; q < p.a; q++) it++; *it = a.v); } mm[p.a] = id; } break;
        case RZ: if constexpr (Tr::hasResize) { if (p.a > peak) peak = p.a; LIB(x.resize(p.a)); while (mm.n > p.a) mm.pop_back(); } break;
        case RZV: if constexpr (Tr::hasResizeV) { freshId(); { Arg<T> a(id); LIB(x.resize(p.a, a.v)); } while (mm.n > p.a) mm.pop_back(); while (mm.n < p.a) mm.push_back(id); } break;
        case NCT: if constexpr (Tr::hasNCtor) { freshId(); LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); { Arg<T> a(id); LIB(new (raw[s]) C(p.a, a.v)); } mm.clear(); for (int i = 0; i < p.a; i++) mm.push_back(id); } break;
        case PBA: if constexpr (Tr::hasPushBack) { LIB(x.push_back(elemRef(s, p.a))); mm.push_back(mm[p.a]); pureEnds = true; } break;
        case PA: if constexpr (Tr::hasPush) { LIB(x.push(elemRef(s, p.a))); if (Tr::pushIsFront) mm.insert(0, mm[p.a]); else mm.push_back(mm[p.a]); pureEnds = true; } break;
        case PFA: if constexpr (Tr::hasPushFront) { LIB(x.push_front(elemRef(s, p.a))); mm.insert(0, mm[p.a]); pureEnds = true; } break;
        case RZVA: if constexpr (Tr::hasResizeV) { u32 v = mm[p.b]; LIB(x.resize(p.a, elemRef(s, p.b))); while (mm.n > p.a) mm.pop_back(); while (mm.n < p.a) mm.push_back(v); } break;
        case WIA: if constexpr (Tr::hasWrite) { LIB(x[p.a] = elemRef(s, p.b)); mm[p.a] = mm[p.b]; } break;
        case SELFC: if constexpr (PAIR) { C &y = x; LIB(x = y); } break;
        case SELFV: if constexpr (PAIR) { C &y = x; LIB(x = static_cast<C &&>(y)); } break;
        case CPA: if constexpr (PAIR) { const C &src = x; LIB(c(1 - s) = src); m[1 - s] = mm; } break;
        case MVA: if constexpr (PAIR) { LIB(c(1 - s) = static_cast<C &&>(x)); m[1 - s] = mm; mm.clear(); mvFrom = s; mvTo = 1 - s; } break;
        case CPC: if constexpr (PAIR) { LIB(c(1 - s).~C()); rawset(raw[1 - s], 0xBE, sizeof(C)); const C &src = x; LIB(new (raw[1 - s]) C(src)); m[1 - s] = mm; } break;
        case MVC: if constexpr (PAIR) { LIB(c(1 - s).~C()); rawset(raw[1 - s], 0xBE, sizeof(C)); LIB(new (raw[1 - s]) C(static_cast<C &&>(x))); m[1 - s] = mm; mm.clear(); mvFrom = s; mvTo = 1 - s; } break;
        case DTOR: if constexpr (PAIR) { LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); LIB(new (raw[s]) C()); mm.clear(); } break;
        case SWP: if constexpr (PAIR) { LIB(dstruct::swap(c(0), c(1))); auto t = m[0]; m[0] = m[1]; m[1] = t; } break;
        }
        int tot = m[0].n + (PAIR ? m[NS - 1].n : 0);
        if (tot > peak) peak = tot;
        // references: elements that are still there must not have been moved
        if (Tr::refStable && pureEnds) {
            Act act("R");
            bool pf = p.code == PF || p.code == PFA || ((p.code == P || p.code == PA) && Tr::pushIsFront);
            bool of = p.code == OF || (p.code == OP && Tr::popIsFront);
            for (int i = 0; i < before[s].n; i++) {
                int at = pf ? i + 1 : of ? i - 1 : i;
                if (at < 0 || at >= m[s].n) continue;
                const T *now = addrOf(s, at);
                if ((const void *)now != before[s][i].p) fail("R", "a reference to element %d was invalidated by an operation on other elements", at);
                u32 vid = lib([&] { return Val<T>::id(*(const T *)before[s][i].p); });
                if (vid != before[s][i].id) fail("R", "a held reference to element %d shows a different value", at);
                if constexpr (Tr::itStable) { // held iterators walk on to the end of the sequence as it is now
                    const C &k = x; InLib g; int q = at; CIt it(*reinterpret_cast<CIt *>(hc[i])); MIt jt(*reinterpret_cast<MIt *>(hm[i]));
                    for (; q < m[s].n; q++, ++it, ++jt) { if (!(it != k.end()) || !(jt != x.end())) { OutLib o; fail("R", "an iterator held on element %d comes to the end at %d of %d", at, q, m[s].n); }
                        u32 v1 = Val<T>::id(*it), v2 = Val<T>::id(*jt); OutLib o; if (v1 != m[s][q] || v2 != m[s][q]) fail("R", "an iterator held on element %d shows something else at %d", at, q); }
                    if (it != k.end() || jt != x.end()) { OutLib o; fail("R", "an iterator held on element %d goes past the end", at); }
                    if constexpr (requires (CIt i) { --i; }) { // and back to the front
                        CIt b(*reinterpret_cast<CIt *>(hc[i])); for (q = at; q > 0; q--) { --b; u32 v = Val<T>::id(*b); OutLib o; if (v != m[s][q - 1]) fail("R", "an iterator held on element %d shows something else at %d going back", at, q - 1); }
                        if (!(b == k.begin())) { OutLib o; fail("R", "an iterator held on element %d does not come back to the front", at); }
                    }
                }
            }
        }
        if (Tr::moveStable && mvFrom >= 0) {
            Act act("R");
            for (int i = 0; i < before[mvFrom].n; i++)
                if (addrOf(mvTo, i) != before[mvFrom][i].p) fail("R", "moving the container relocated element %d", i);
        }
        if (trackRefs && PAIR) { // the slot that was not an operand stays where it was
            int other = 1 - s;
            if (p.code < SELFC || p.code == SELFC || p.code == SELFV || p.code == DTOR)
                for (int i = 0; i < before[other].n; i++) if (addrOf(other, i) != before[other][i].p) fail("FR", "an operation on one container relocated element %d of another", i);
        }
        switch (p.code) { // data independence: give equal elements distinct names again
        case RZV: case NCT: case RZVA: case PBA: case PA: case PFA: case WIA: renew(s); break;
        case CPA: case CPC: renew(1 - s); break;
        }
    }
    void renew(int s) {
        if constexpr (Tr::refresh && (Tr::hasWrite || Tr::hasItWrite)) {
            for (int k = 0; k < NS; k++) checkContent(k);
            for (int i = 0; i < m[s].n; i++) {
                u32 id = ks().nextId++;
                Arg<T> a(id);
                if constexpr (Tr::hasWrite) LIB(c(s)[i] = a.v);
                else LIB(auto it = c(s).begin(); for (int q = 0; q < i; q++) ++it; *it = a.v);
                m[s][i] = id;
            }
        }
    }
    void checkContent(int s) {
        const C &k = c(s); auto &mm = m[s];
        MC_CHECK("F", (long long)lib([&] { return k.size(); }) == mm.n, "%c.size() is wrong after the operation", 'a' + s);
        iterate(k, mm, s ? "b" : "a", "const ");
    }
    void checkSlot(int s) {
        Act act("F");
        C &x = c(s); const C &k = x; auto &mm = m[s]; int n = mm.n;
        const char *nm = s ? "b" : "a";
        typename C::SizeType gs = lib([&] { return k.size(); });
        MC_CHECK("F", (long long)gs == n, "%s.size() is %llu, expected %d", nm, (unsigned long long)gs, n);
        bool ge = lib([&] { return k.empty(); });
        MC_CHECK("F", ge == (n == 0), "%s.empty() is %d with %d elements", nm, ge, n);
        if constexpr (Tr::hasCapacity) { auto cap = lib([&] { return k.capacity(); }); MC_CHECK("F", (long long)cap >= n, "%s.capacity() %llu below size %d", nm, (unsigned long long)cap, n); }
        if (n) {
            if constexpr (Tr::hasFront) { u32 g = lib([&] { return Val<T>::id(k.front()); }); MC_CHECK("F", g == mm[0], "%s.front() is element #%x, expected #%x", nm, g, mm[0]); }
            if constexpr (Tr::hasBack) { u32 g = lib([&] { return Val<T>::id(k.back()); }); MC_CHECK("F", g == mm[n - 1], "%s.back() is element #%x, expected #%x", nm, g, mm[n - 1]); }
            if constexpr (Tr::hasTop) { u32 g = lib([&] { return Val<T>::id(k.top()); }); MC_CHECK("F", g == mm[n - 1], "%s.top() is element #%x, expected #%x", nm, g, mm[n - 1]); }
        }
        for (int i = Tr::hasNegIndex ? -n : 0; i < n; i++) {
            u32 want = mm[i < 0 ? i + n : i];
            if constexpr (Tr::hasIndex) { u32 g = lib([&] { return Val<T>::id(k[i]); }); MC_CHECK("F", g == want, "%s[%d] (const) is element #%x, expected #%x", nm, i, g, want); }
            if constexpr (Tr::hasIndexMut || Tr::hasWrite) { u32 g = lib([&] { return Val<T>::id(x[i]); }); MC_CHECK("F", g == want, "%s[%d] is element #%x, expected #%x", nm, i, g, want); }
        }
        iterate(k, mm, nm, "const ");
        iterate(x, mm, nm, "");
        laws(k, mm, nm);
    }
    template <class Q> void iterate(Q &x, const SV<u32, N + 4> &mm, const char *nm, const char *cq) {
        InLib g; Act act("FI");
        int i = 0;
        auto e = x.end();
        for (auto it = x.begin(); it != e; ++it, ++i) {
            if (i >= mm.n) { OutLib o; fail("F", "%siteration of %s goes on after its %d elements", cq, nm, mm.n); }
            u32 v = Val<T>::id(*it);
            if (v != mm[i]) { OutLib o; fail("F", "%siteration of %s shows element #%x at position %d, expected #%x", cq, nm, v, i, mm[i]); }
        }
        if (i != mm.n) { OutLib o; fail("F", "%siteration of %s ends after %d of %d elements", cq, nm, i, mm.n); }
        if ((x.begin() == x.end()) != (mm.n == 0)) { OutLib o; fail("FI", "%s%s.begin() == %s.end() is wrong for %d elements", cq, nm, nm, mm.n); }
        i = 0;
        for (auto &v : x) { if (i >= mm.n || Val<T>::id(v) != mm[i]) { OutLib o; fail("F", "%srange-for over %s differs at position %d", cq, nm, i); } i++; }
        if (i != mm.n) { OutLib o; fail("F", "%srange-for over %s visits %d of %d", cq, nm, i, mm.n); }
    }
    template <class Q> void laws(Q &x, const SV<u32, N + 4> &mm, const char *nm) {
        InLib g; int n = mm.n; Act act("I");
        auto bad = [&](const char *w, int i) { OutLib o; fail("I", "iterator law broken on %s: %s (position %d of %d)", nm, w, i, n); };
        {   // ++ and ++(int), copies
            auto it = x.begin();
            for (int i = 0; i < n; i++) {
                auto a = it; auto b = it;
                auto old = a++;
                auto &r = ++b;
                if (!(old == it) || old != it) bad("it++ does not return the old position", i);
                if (!(a == b) || a != b) bad("it++ and ++it differ", i);
                if (&r != &b) bad("++it does not return the iterator itself", i);
                if (i + 1 < n && Val<T>::id(*a) != mm[i + 1]) bad("it++ does not reach the next element", i);
                if (i + 1 < n && Val<T>::id(*b.operator->()) != mm[i + 1]) bad("-> does not denote the element", i);
                if (Val<T>::id(*it) != mm[i]) bad("advancing a copy moved the original", i);
                if (a == it) bad("an advanced iterator equals the original", i);
                auto c2 = it; c2 = b; if (!(c2 == b)) bad("an assigned iterator differs", i);
                it = a;
            }
            if (!(it == x.end()) || it != x.end()) bad("advancing n times does not reach the end", n);
        }
        if constexpr (Tr::bidiIt || Tr::randomIt) {
            auto it = x.end();
            for (int i = n; i-- > 0;) {
                auto a = it; auto b = it;
                auto old = a--; auto &r = --b;
                if (!(old == it)) bad("it-- does not return the old position", i);
                if (!(a == b)) bad("it-- and --it differ", i);
                if (&r != &b) bad("--it does not return the iterator itself", i);
                if (Val<T>::id(*a) != mm[i]) bad("walking backwards reaches the wrong element", i);
                auto f = a; ++f; if (!(f == it)) bad("++ does not undo --", i);
                it = a;
            }
            if (!(it == x.begin())) bad("walking back n times does not reach the beginning", 0);
        }
        if constexpr (Tr::randomIt) {
            for (int i = 0; i <= n; i++) {
                auto at = x.begin() + i;
                if (i < n && Val<T>::id(*at) != mm[i]) bad("begin + n is the wrong element", i);
                if (i == n && !(at == x.end())) bad("begin + size is not the end", i);
                auto bk = x.end() - (n - i);
                if (!(bk == at)) bad("end - n is the wrong position", i);
                for (int d = -i; d <= n - i; d++) {
                    if (Tr::deep && d > -i + 1 && d < n - i - 1 && (d < -2 || d > 2) && d != n / 2 - i) continue;
                    auto q = at + d;
                    if (!(q == x.begin() + (i + d))) bad("it + n lands wrong", i);
                    auto r = at - (-d);
                    if (!(r == q)) bad("it - n lands wrong", i);
                }
                if constexpr (Tr::hasDistance) if (dstruct::distance(x.begin(), at) != i || dstruct::distance(at, x.begin()) != -i) bad("distance differs from the step count", i);
            }
        }
        // algorithms
        int cnt = 0; bool okc = true;
        dstruct::algorithm::for_each(x.begin(), x.end(), [&](const T &v) { if (cnt >= n || Val<T>::id(v) != mm[cnt]) okc = false; cnt++; });
        if (!okc || cnt != n) bad("for_each does not visit each element once in order", cnt);
        for (int i = 0; i < n; i++) {
            if (Tr::deep && i > 1 && i < n - 2 && i != n / 2) continue;
            T key = Val<T>::make(mm[i]);
            auto it = dstruct::algorithm::find(x.begin(), x.end(), key);
            int first = 0; while (mm[first] != mm[i]) first++;
            auto w = x.begin(); for (int q = 0; q < first; q++) ++w;
            if (!(it == w)) bad("find does not return the first equal element", i);
        }
        { T key = Val<T>::make(4000); if (!(dstruct::algorithm::find(x.begin(), x.end(), key) == x.end())) bad("find of an absent value is not the end", n); }
    }
    void setRanks() { // distinct ids are distinct values
        for (int i = 0; i < MAXID; i++) ranks().rank[i] = i;
    }
    void check() {
        setRanks();
        for (int s = 0; s < NS; s++) checkSlot(s);
        // every live element in heap storage belongs to a container's contents
        if (Val<T>::tracked) liveElems();
        int tot = m[0].n + (PAIR ? m[NS - 1].n : 0); (void)tot;
        u64 lim = (u64)BK * (sizeof(T) + Tr::ovh) * peak + BC + 8 * NS * Tr::blockElems * sizeof(T);
        if (ks().liveBytes > lim) fail("B", "%llu bytes of storage are held although at most %d elements were ever contained", (unsigned long long)ks().liveBytes, peak);
    }
    void liveElems() {
        int extra = 0;
        for (int i = 0; i < ks().nblk; i++) {
            Block &b = ks().blk[i];
            if (!b.alive || (b.kind != BK_ALLOC && b.kind != BK_MALLOC)) continue;
            u8 *sh = shadowOf((void *)b.addr);
            for (u64 q = 0; q + 1 <= (b.size + 3) / 4; q++) if (sh[q] == E_ALIVE) {
                u32 w = *(u32 *)(b.addr + q * 4);
                u32 id = w & 0xffffff;
                bool member = false;
                if ((w & 0xff000000u) == TAG) for (int s = 0; s < NS; s++) if (m[s].find(id) >= 0) member = true;
                if (!member) { if (id == DEFID && (w & 0xff000000u) == TAG) extra++; else fail("L", "a removed element is still alive in the container's storage"); }
                else extra++;
            }
        }
        int tot = 0; for (int s = 0; s < NS; s++) tot += m[s].n + Tr::constHeapElems;
        if (extra > tot) fail("L", "%d element objects are alive in container storage for %d contained elements", extra, tot);
    }
    void finish() {
        for (int s = 0; s < NS; s++) LIB(c(s).~C());
    }
    void canon(GraphHash &g, Hash &h) {
        u32 next = 1;
        for (int s = 0; s < NS; s++) { h.mix(0x77000000 + m[s].n); for (int i = 0; i < m[s].n; i++) { if (pv().canon[m[s][i]] == CANON_STALE) canonId(m[s][i], next++); h.mix(pv().canon[m[s][i]]); } }
        for (int s = 0; s < NS; s++) g.root(raw[s]);
        g.layout = Tr::layout;
    }
};
template <class W> Job seqJob(const char *name, u64 maxStates = 1000000, double sec = 60) { W::mk(); Job j = Ops<W>::job(name); j.maxStates = maxStates; j.maxSec = sec; return j; }

} // namespace mc
