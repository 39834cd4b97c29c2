// BasicString against the ideal character sequence.
#include <dstruct.hpp>
#include "mc.hpp"
using namespace mc;
typedef TrackAlloc TA;
enum { S_PUSH, S_APP, S_SET, S_CLEAR, S_CTOR, S_ASSIGN, S_SELFAPP, S_APPO, S_PLUS, S_PLUSC, S_CPLUS, S_SELFC, S_SELFV, S_CPA, S_MVA, S_CPC, S_MVC, S_DTOR, S_SWP, S_PUSHA, S_SETA, S_SETIT, S_OWNAPP, S_OWNSET, S_OWNPLUS };
// MODE 0: every string over a small alphabet; MODE 1: the character is a function of the position, long strings;
// MODE 2: the same with few operations, for very long strings
template <class Str, int N, int MODE, bool PAIR, bool STRICT> struct StrWorld : World {
    typedef Str C;
    static constexpr bool kGlobals = false, kStrictAlloc = STRICT; static constexpr int NS = PAIR ? 2 : 1;
    struct Op { int code, s, a, b; };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static std::vector<std::string> *&lit() { static std::vector<std::string> *t = nullptr; return t; }
    static std::string pattern(int off, int len) { std::string r; for (int i = 0; i < len; i++) r += (char)('A' + (off + i) % 57); return r; }
    static int alpha(int i) { static const char a[4] = {'a', (char)0xff, 0, '~'}; return a[i]; }
    static void mk() {
        auto *L = new std::vector<std::string>;
        if (MODE == 0) { const char *q[] = {"", "a", "\xff", "aa", "a\xff", "\xff" "a", "\xff\xff"}; for (auto *x : q) L->push_back(x); }
        else if (MODE == 2) for (int n : {0, 1, 100, 127, 128, 255, 256}) L->push_back(pattern(0, n));
        else for (int n : {0, 1, 2, 3, 13, 14, 15, 16, 17, 31, 33}) L->push_back(pattern(0, n));
        lit() = L;
        auto *v = new std::vector<Op>;
        for (int s = 0; s < NS; s++) {
            auto add = [&](int c, int a = 0, int b = 0) { v->push_back({c, s, a, b}); };
            for (int i = 0; i < (MODE ? 1 : 3); i++) add(S_PUSH, i);
            for (size_t i = 0; i < L->size(); i++) { if (PAIR && MODE == 0 && i > 4) break; add(S_APP, i); if (!PAIR || i < 4) { add(S_CTOR, i); add(S_ASSIGN, i); } if (!PAIR) { add(S_PLUSC, i); add(S_CPLUS, i); } }
            for (int i = 0; i < N; i++) for (int k = 0; k < (MODE ? 1 : 3); k++) if ((!PAIR || i < 2) && (MODE < 2 || i == 0 || i == N / 2 || i == 200)) { add(S_SET, i, k); if (!PAIR && !k) add(S_SETIT, i, k); }
            if (!PAIR) for (int i = 0; i < (MODE == 2 ? 1 : MODE ? N : 4); i++) { add(S_PUSHA, i); if (MODE == 0) for (int k = 0; k < 4; k++) add(S_SETA, i, k); }
            if (!PAIR) for (int i = 0; i <= N; i++) if (MODE < 2 || i == 0 || i == 200) { add(S_OWNAPP, i); add(S_OWNSET, i); add(S_OWNPLUS, i); }
            add(S_CLEAR); add(S_SELFAPP); add(S_PLUS, s);
            if (PAIR) { add(S_APPO); for (int c = S_SELFC; c <= S_DTOR; c++) add(c); add(S_PLUS, 1 - s); if (!s) add(S_SWP); }
        }
        tab() = v;
    }
    void *raw[NS]; SV<char, 3 * N + 40> m[NS]; int peak;
    C &c(int s) { return *(C *)raw[s]; }
    void init() { peak = 0; for (int s = 0; s < NS; s++) { raw[s] = arenaAlloc(sizeof(C), BK_ROOT); m[s].clear(); LIB(new (raw[s]) C()); } scrub(); }
    int nops() { return (int)tab()->size(); }
    int llen(int i) { return (int)(*lit())[i].size(); }
    // length of the C string that starts at position k of the object's own text
    int own(int s, int k) { int l = 0; while (k + l < m[s].n && m[s][k + l]) l++; return l; }
    bool enabled(int o) {
        const Op &p = (*tab())[o]; int n = m[p.s].n, d = NS > 1 ? m[1 - p.s].n : 0;
        switch (p.code) {
        case S_PUSH: return n < N; case S_APP: case S_PLUSC: case S_CPLUS: return n + llen(p.a) <= N; case S_CTOR: case S_ASSIGN: return llen(p.a) <= N;
        case S_SET: case S_SETIT: return p.a < n; case S_PUSHA: return n < N && p.a < n; case S_SETA: return p.a < n && p.b < n;
        case S_OWNAPP: case S_OWNPLUS: return p.a <= n && n + own(p.s, p.a) <= N; case S_OWNSET: return p.a <= n;
        case S_SELFAPP: return 2 * n <= N; case S_APPO: return n + d <= N; case S_PLUS: return n + m[p.a].n <= N;
        default: return true;
        }
    }
    const char *opflags(int o) { switch ((*tab())[o].code) { case S_SELFAPP: case S_PUSHA: case S_SETA: case S_OWNAPP: case S_OWNSET: case S_OWNPLUS: return "A"; case S_SELFC: case S_CPA: case S_CPC: return "C"; case S_SELFV: case S_MVA: case S_MVC: case S_SWP: return "V"; } return ""; }
    std::string q(int i) { std::string r = "\""; for (char ch : (*lit())[i]) r += ch == (char)0xff ? std::string("\\xff") : std::string(1, ch); return r + "\""; }
    void opname(int o, char *b, size_t z) {
        const Op &p = (*tab())[o]; char x = 'a' + p.s, y = 'a' + 1 - p.s;
        switch (p.code) {
        case S_PUSH: snprintf(b, z, "%c.push_back(char %d)", x, p.a); break; case S_APP: snprintf(b, z, "%c += %s", x, q(p.a).c_str()); break; case S_CTOR: snprintf(b, z, "%c = String(%s), constructed in place", x, q(p.a).c_str()); break;
        case S_ASSIGN: snprintf(b, z, "%c = %s", x, q(p.a).c_str()); break; case S_PLUSC: snprintf(b, z, "%c = %c + %s", x, x, q(p.a).c_str()); break; case S_CPLUS: snprintf(b, z, "%c = %s + %c", x, q(p.a).c_str(), x); break;
        case S_SET: snprintf(b, z, "%c[%d] = char %d", x, p.a, p.b); break; case S_SETIT: snprintf(b, z, "*(%c.begin()+%d) = char", x, p.a); break; case S_PUSHA: snprintf(b, z, "%c.push_back(%c[%d])", x, x, p.a); break; case S_SETA: snprintf(b, z, "%c[%d] = %c[%d]", x, p.a, x, p.b); break;
        case S_OWNAPP: snprintf(b, z, "%c += %c.c_str()+%d", x, x, p.a); break; case S_OWNSET: snprintf(b, z, "%c = %c.c_str()+%d", x, x, p.a); break; case S_OWNPLUS: snprintf(b, z, "%c = %c + (%c.c_str()+%d)", x, x, x, p.a); break;
        case S_CLEAR: snprintf(b, z, "%c.clear()", x); break; case S_SELFAPP: snprintf(b, z, "%c += %c", x, x); break; case S_APPO: snprintf(b, z, "%c += %c", x, y); break; case S_PLUS: snprintf(b, z, "%c = %c + %c", x, x, 'a' + p.a); break;
        case S_SELFC: snprintf(b, z, "%c = %c", x, x); break; case S_SELFV: snprintf(b, z, "%c = move(%c)", x, x); break; case S_CPA: snprintf(b, z, "%c = %c", y, x); break; case S_MVA: snprintf(b, z, "%c = move(%c)", y, x); break;
        case S_CPC: snprintf(b, z, "%c = String(%c)", y, x); break; case S_MVC: snprintf(b, z, "%c = String(move(%c))", y, x); break; case S_DTOR: snprintf(b, z, "%c = fresh", x); break; default: snprintf(b, z, "swap(a,b)");
        }
    }
    // storage past the terminator is not state; overwriting it also exposes any later read of it
    void scrub() { for (int s = 0; s < NS; s++) { const char *p = lib([&] { return ((const C &)c(s)).c_str(); }); Block *b = inArena((u64)p) ? findBlock((u64)p) : nullptr; if (b && b->alive && b->kind != BK_ROOT && b->addr == (u64)p && b->size > (u32)m[s].n + 1) rawset((void *)(p + m[s].n + 1), 0xBE, b->size - m[s].n - 1); } }
    char ch(int s, int k) { return MODE ? (char)('A' + m[s].n % 57) : (char)alpha(k); }
    const char *cs(int i) { // a C string in its own exactly sized guarded block
        const std::string &x = (*lit())[i]; char *b = (char *)arenaAlloc(x.size() + 1, BK_BUF); rawcpy(b, x.c_str(), x.size() + 1); return b;
    }
    void app(int s, const char *p, int n) { for (int i = 0; i < n; i++) m[s].push_back(p[i]); }
    void apply(int o) {
        const Op p = (*tab())[o]; int s = p.s, d = 1 - s; C &x = c(s); auto &mm = m[s];
        auto L = [&](int i) { return (int)(*lit())[i].size(); }; const char *z = nullptr;
        switch (p.code) {
        case S_PUSH: { char k = ch(s, p.a); LIB(x.push_back(k)); mm.push_back(k); } break;
        case S_APP: z = cs(p.a); LIB(x += z); app(s, z, L(p.a)); break;
        case S_CTOR: z = cs(p.a); LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); LIB(new (raw[s]) C(z)); mm.clear(); app(s, z, L(p.a)); break;
        case S_ASSIGN: z = cs(p.a); LIB(x = z); mm.clear(); app(s, z, L(p.a)); break;
        case S_PLUSC: z = cs(p.a); LIB(x = x + z); app(s, z, L(p.a)); break;
        case S_CPLUS: { z = cs(p.a); LIB(x = z + x); auto t = mm; mm.clear(); app(s, z, L(p.a)); app(s, t.a, t.n); } break;
        case S_SET: { char k = MODE ? '!' : (char)alpha(p.b); LIB(x[p.a] = k); mm[p.a] = k; } break;
        case S_SETIT: { char k = MODE ? '"' : '~'; LIB(auto it = x.begin(); for (int i = 0; i < p.a; i++) ++it; *it = k); mm[p.a] = k; } break;
        case S_PUSHA: { const C &k = x; LIB(x.push_back(k[p.a])); mm.push_back(mm[p.a]); } break;
        case S_SETA: LIB(x[p.a] = ((const C &)x)[p.b]); mm[p.a] = mm[p.b]; break;
        case S_CLEAR: LIB(x.clear()); mm.clear(); break;
        case S_OWNAPP: case S_OWNSET: case S_OWNPLUS: { auto t = mm; int l = own(s, p.a); LIB(const char *z = x.c_str() + p.a; if (p.code == S_OWNAPP) x += z; else if (p.code == S_OWNSET) x = z; else x = x + z); if (p.code == S_OWNSET) mm.clear(); app(s, t.a + p.a, l); } break;
        case S_SELFAPP: LIB(x += x); { auto t = mm; app(s, t.a, t.n); } break;
        case S_APPO: LIB(x += (const C &)c(d)); app(s, m[d].a, m[d].n); break;
        case S_PLUS: { C &y = c(p.a); LIB(x = x + y); auto t = m[p.a]; app(s, t.a, t.n); } break;
        case S_SELFC: { C &y = x; LIB(x = y); } break; case S_SELFV: { C &y = x; LIB(x = static_cast<C &&>(y)); } break;
        case S_CPA: if constexpr (PAIR) { const C &y = x; LIB(c(d) = y); m[d] = mm; } break;
        case S_MVA: if constexpr (PAIR) { LIB(c(d) = static_cast<C &&>(x)); m[d] = mm; mm.clear(); } break;
        case S_CPC: if constexpr (PAIR) { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); const C &y = x; LIB(new (raw[d]) C(y)); m[d] = mm; } break;
        case S_MVC: if constexpr (PAIR) { LIB(c(d).~C()); rawset(raw[d], 0xBE, sizeof(C)); LIB(new (raw[d]) C(static_cast<C &&>(x))); m[d] = mm; mm.clear(); } break;
        case S_DTOR: LIB(x.~C()); rawset(raw[s], 0xBE, sizeof(C)); LIB(new (raw[s]) C()); mm.clear(); break;
        case S_SWP: if constexpr (PAIR) { LIB(dstruct::swap(c(0), c(1))); auto t = m[0]; m[0] = m[1]; m[1] = t; } break;
        }
        for (int k = 0; k < NS; k++) verify(k);
        if (MODE) { // back to content determined by the position
            for (int k = 0; k < NS; k++) for (int i = 0; i < m[k].n; i++) { char w = (char)('A' + i % 57); if (m[k][i] != w) { LIB(c(k)[i] = w); m[k][i] = w; } }
        }
        int tot = 0; for (int k = 0; k < NS; k++) tot += m[k].n; if (tot > peak) peak = tot;
        scrub();
    }
    void verify(int s) {
        C &x = c(s); const C &k = x; auto &mm = m[s]; int n = mm.n; char nm = 'a' + s;
        long long z = lib([&] { return (long long)k.size(); }); MC_CHECK("F", z == n, "%c.size() is %lld, expected %d", nm, z, n);
        MC_CHECK("F", lib([&] { return k.empty(); }) == (n == 0), "%c.empty() is wrong with %d characters", nm, n);
        const char *p = lib([&] { return k.c_str(); });
        for (int i = 0; i < n; i++) MC_CHECK("F", p[i] == mm[i], "%c.c_str()[%d] is 0x%02x, expected 0x%02x", nm, i, (u8)p[i], (u8)mm[i]);
        MC_CHECK("F", p[n] == 0, "%c.c_str() is not terminated after %d characters (0x%02x)", nm, n, (u8)p[n]);
    }
    static bool eqModel(const SV<char, 3 * N + 40> &a, const std::string &b) { if (a.n != (int)b.size()) return false; for (int i = 0; i < a.n; i++) if (a[i] != b[i]) return false; return true; }
    void check() {
        for (int s = 0; s < NS; s++) {
            Act act("F"); verify(s); C &x = c(s); const C &k = x; auto &mm = m[s]; int n = mm.n; char nm = 'a' + s;
            MC_CHECK("F", lib([&] { return (long long)k.capacity(); }) >= n, "capacity below size");
            for (int i = 0; i < n; i++) { char g = lib([&] { return (char)k[i]; }), h = lib([&] { return (char)x[i]; }); MC_CHECK("F", g == mm[i] && h == mm[i], "%c[%d] is 0x%02x/0x%02x, expected 0x%02x", nm, i, (u8)g, (u8)h, (u8)mm[i]); }
            if (n) { char f = lib([&] { return (char)k.front(); }), b = lib([&] { return (char)k.back(); }); MC_CHECK("F", f == mm[0], "%c.front() is wrong", nm); MC_CHECK("F", b == mm[n - 1], "%c.back() is 0x%02x, expected 0x%02x", nm, (u8)b, (u8)mm[n - 1]); }
            walk(k, mm, nm); walk(x, mm, nm);
            // comparisons
            for (size_t i = 0; i < lit()->size(); i++) probe([&] {
                const char *z = cs((int)i); bool e = eqModel(mm, (*lit())[i]), r[4];
                r[0] = lib([&] { return k == z; }); r[1] = lib([&] { return z == k; }); r[2] = lib([&] { return k != z; }); r[3] = lib([&] { return z != k; });
                MC_CHECK("F", r[0] == e && r[1] == e && r[2] == !e && r[3] == !e, "comparing %c with %s is wrong (==%d %d !=%d %d)", nm, q((int)i).c_str(), r[0], r[1], r[2], r[3]);
            });
            for (int t = 0; t < NS; t++) { bool e = m[s].n == m[t].n && memcmp(m[s].a, m[t].a, m[s].n) == 0; const C &o = c(t); bool a = lib([&] { return k == o; }), b = lib([&] { return k != o; }); MC_CHECK("F", a == e && b == !e, "%c == %c is %d", nm, 'a' + t, a); }
            verify(s);
        }
        for (int s = 0; s < NS; s++) verify(s);
        u64 lim = 8ull * peak + 512; if (ks().liveBytes > lim) fail("B", "%llu bytes held for a peak of %d characters", (unsigned long long)ks().liveBytes, peak);
    }
    template <class Q> void walk(Q &x, const SV<char, 3 * N + 40> &mm, char nm) {
        InLib g; int i = 0, n = mm.n; Act act("FI");
        auto bad = [&](const char *w, const char *kd = "F") { OutLib o; fail(kd, "iteration of %c: %s (position %d of %d)", nm, w, i, n); };
        for (auto it = x.begin(); it != x.end(); ++it, ++i) { if (i >= n) bad("goes on after the last character"); if (*it != mm[i]) bad("shows the wrong character"); }
        if (i != n) bad("ends early");
        i = 0; for (auto &e : x) { if (i >= n || e != mm[i]) bad("range-for differs"); i++; }
        auto it = x.begin(); for (i = 0; i < n; i++) { auto a = it, b = it; auto old = a++; ++b; if (!(old == it) || !(a == b) || a == it) bad("increment laws", "I"); auto cc = x.begin() + i; if (!(cc == it)) bad("begin + n", "I"); auto dd = x.end() - (n - i); if (!(dd == it)) bad("end - n", "I"); auto e = a; --e; if (!(e == it)) bad("-- does not undo ++", "I"); it = a; }
        if (!(it == x.end())) bad("size steps do not reach the end", "I");
        int cnt = 0; bool ok = true; dstruct::algorithm::for_each(x.begin(), x.end(), [&](const char &e) { if (cnt >= n || e != mm[cnt]) ok = false; cnt++; }); if (!ok || cnt != n) bad("for_each", "I");
    }
    void finish() { for (int s = 0; s < NS; s++) LIB(c(s).~C()); }
    void canon(GraphHash &g, Hash &h) { for (int s = 0; s < NS; s++) { h.mix(m[s].n + 0x5500); for (int i = 0; i < m[s].n; i++) h.mix((u8)m[s][i]); } for (int s = 0; s < NS; s++) g.root(raw[s]); }
};
template <class W> Job sj(const char *n) { W::mk(); return Ops<W>::job(n); }
typedef dstruct::BasicString<char, TA> ST; typedef dstruct::String SD;
#ifndef PART
#define PART 0
#endif
// every value of a character: short strings compared with every other single change
struct ByteWorld : World {
    typedef dstruct::BasicString<char, TA> C; static constexpr bool kGlobals = false, kStrictAlloc = true;
    static constexpr int X[4] = {0, 1, 0x80, 0xff};
    void *raw; SV<u8, 4> m; C &c() { return *(C *)raw; }
    void init() { m.clear(); raw = arenaAlloc(sizeof(C), BK_ROOT); LIB(new (raw) C()); }
    int nops() { return 256 + 4; }
    bool enabled(int o) { return o < 256 ? m.n == 0 : m.n == 1; }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t z) { if (o < 256) snprintf(b, z, "push_back(0x%02x)", o); else snprintf(b, z, "push_back(the first one ^ 0x%02x)", X[o - 256]); }
    void apply(int o) { u8 k = o < 256 ? o : m[0] ^ X[o - 256]; char ch = (char)k; LIB(c().push_back(ch)); m.push_back(k); }
    bool same(const SV<u8, 4> &t) { if (t.n != m.n) return false; for (int i = 0; i < t.n; i++) if (t[i] != m[i]) return false; return true; }
    void check() {
        const C &k = c(); MC_CHECK("F", (int)lib([&] { return k.size(); }) == m.n, "size() is wrong");
        for (int i = 0; i < m.n; i++) { MC_CHECK("F", (u8)lib([&] { return k[i]; }) == m[i], "[%d] shows a different character", i); }
        if (m.n) { MC_CHECK("F", (u8)lib([&] { return k.front(); }) == m[0] && (u8)lib([&] { return k.back(); }) == m[m.n - 1], "front() or back() shows a different character"); const char *p = lib([&] { return k.c_str(); }); MC_CHECK("F", memcmp(p, m.a, m.n) == 0 && !p[m.n], "c_str() is wrong"); }
        for (int at = 0; at < m.n; at++) for (int v = 0; v < 256; v++) probe([&] {
            SV<u8, 4> t = m; t[at] = v; bool e = same(t); bool nul = false; for (u8 q : t) if (!q) nul = true;
            void *mem = arenaAlloc(sizeof(C), BK_ROOT); LIB(new (mem) C()); C &y = *(C *)mem; for (u8 q : t) LIB(y.push_back((char)q));
            const C &cy = y;
            MC_CHECK("F", lib([&] { return k == cy; }) == e && lib([&] { return k != cy; }) == !e, "comparison with a string that has 0x%02x at %d is wrong", v, at);
            if (!nul) { char *b = (char *)arenaAlloc(t.n + 1, BK_BUF); memcpy(b, t.a, t.n); b[t.n] = 0; const char *z = b;
                MC_CHECK("F", lib([&] { return k == z; }) == e && lib([&] { return k != z; }) == !e && lib([&] { return z == k; }) == e && lib([&] { return z != k; }) == !e, "comparison with a C string that has 0x%02x at %d is wrong", v, at);
                LIB(y = z); MC_CHECK("F", lib([&] { return k == cy; }) == e, "a string assigned from a C string with 0x%02x at %d compares wrong", v, at);
            }
            LIB(c()[at] = (char)v); MC_CHECK("F", lib([&] { return k == cy; }), "after setting [%d] to 0x%02x the strings differ", at, v);
            LIB(y.~C());
        });
    }
    void finish() { LIB(c().~C()); }
    void canon(GraphHash &g, Hash &h) { h.mix(m.n); for (u8 q : m) h.mix(q); g.root(raw); }
};
constexpr int ByteWorld::X[4];
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(Ops<ByteWorld>::job("bytes"));
    v.push_back(sj<StrWorld<ST, 6, 0, false, true>>("small"));
    v.push_back(sj<StrWorld<ST, 3, 0, true, true>>("pair_small"));
    v.push_back(sj<StrWorld<SD, 70, 1, false, false>>("deep_malloc"));
    v.push_back(sj<StrWorld<ST, 36, 1, true, true>>("pair_deep"));
    v.push_back(sj<StrWorld<ST, 300, 2, false, true>>("long"));
}
