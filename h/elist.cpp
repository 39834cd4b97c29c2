// Embedded (intrusive) lists: two head nodes and K member nodes; add after any ring member,
// delete any member, through the node interface or the link interface.
#include <dstruct.hpp>
#include "mc.hpp"
using namespace mc;

template <class Link, class P, int K, bool DBL> struct EWorld : World {
    static constexpr bool kGlobals = false, kStrictAlloc = true;
    typedef dstruct::EListNode<P, Link> Node;
    struct Op { int code, h, pos, node, viaLink; };
    enum { ADD, DEL, TAIL };
    static std::vector<Op> *&tab() { static std::vector<Op> *t = nullptr; return t; }
    static void mk() {
        auto *v = new std::vector<Op>;
        for (int l = 0; l < 2; l++) for (int h = 0; h < 2; h++) for (int p = 0; p <= K; p++) {
            for (int n = 0; n < K; n++) v->push_back({ADD, h, p, n, l});
            if (p < K) v->push_back({DEL, h, p, 0, l});
        }
        tab() = v;
    }
    Node *head[2]; Node *nd[K]; int used[K]; int linkedOnce[K];
    SV<int, K> ring[2];
    void init() {
        for (int h = 0; h < 2; h++) { head[h] = (Node *)arenaAlloc(sizeof(Node), BK_BUF); new (&head[h]->data) P(Val<P>::make(100 + h)); ring[h].clear(); }
        for (int i = 0; i < K; i++) { nd[i] = (Node *)arenaAlloc(sizeof(Node), BK_BUF); new (&nd[i]->data) P(Val<P>::make(1 + i)); used[i] = 0; linkedOnce[i] = 0; }
        LIB(Node::init(head[0]); Link::init(Node::to_link(head[1])));
    }
    int nops() { return (int)tab()->size(); }
    bool enabled(int o) { const Op &p = (*tab())[o]; if (p.code == ADD) return p.pos <= ring[p.h].n && !used[p.node]; return p.pos < ring[p.h].n; }
    const char *opflags(int) { return ""; }
    void opname(int o, char *b, size_t n) {
        const Op &p = (*tab())[o]; const char *w = p.viaLink ? "link" : "node";
        if (p.code == ADD) snprintf(b, n, "%s add(member %d of ring %d, node %d)", w, p.pos, p.h, p.node);
        else snprintf(b, n, "%s del(member %d of ring %d)", w, p.pos + 1, p.h);
    }
    Node *at(int h, int pos) { return pos == 0 ? head[h] : nd[ring[h][pos - 1]]; } // 0 = head
    void apply(int o) {
        const Op &p = (*tab())[o];
        if (p.code == ADD) {
            Node *pr = at(p.h, p.pos), *cu = nd[p.node];
            if (p.viaLink) LIB(Link::add(Node::to_link(pr), Node::to_link(cu))); else LIB(Node::add(pr, cu));
            ring[p.h].insert(p.pos, p.node); used[p.node] = 1; linkedOnce[p.node] = 1;
        } else {
            Node *pr = at(p.h, p.pos), *cu = at(p.h, p.pos + 1); int i = ring[p.h][p.pos];
            if (p.viaLink) LIB(Link::del(Node::to_link(pr), Node::to_link(cu))); else LIB(Node::del(pr, cu));
            ring[p.h].erase(p.pos); used[i] = 0;
        }
    }
    void check() {
        for (int i = 0; i < MAXID; i++) ranks().rank[i] = i;
        for (int h = 0; h < 2; h++) {
            int n = ring[h].n;
            bool e = Node::empty(head[h]), e2 = Link::empty(Node::to_link(head[h]));
            MC_CHECK("F", e == (n == 0) && e2 == (n == 0), "empty() of ring %d is wrong with %d members", h, n);
            Link *l = Node::to_link(head[h]); 
            for (int i = 0; i < n; i++) {
                l = l->next;
                MC_CHECK("F", l != nullptr, "walk of ring %d hits null at %d", h, i);
                MC_CHECK("F", l == Node::to_link(nd[ring[h][i]]), "walking ring %d, position %d is not the expected node", h, i);
                MC_CHECK("F", Node::to_node(l) == nd[ring[h][i]], "node/link conversion is not a round trip");
                if constexpr (DBL) MC_CHECK("F", l->next && l->next->prev == l && l->prev && l->prev->next == l, "forward and backward links of ring %d disagree at position %d", h, i);
            }
            MC_CHECK("F", l->next == Node::to_link(head[h]), "ring %d does not return to its head after %d members", h, n);
            if constexpr (DBL) { l = Node::to_link(head[h]); for (int i = n; i-- > 0;) { l = l->prev; MC_CHECK("F", l == Node::to_link(nd[ring[h][i]]), "backward walk of ring %d differs at position %d", h, i); } MC_CHECK("F", l->prev == Node::to_link(head[h]), "the backward walk does not return to the head"); }
            MC_CHECK("F", Val<P>::id(head[h]->data) == 100u + h, "head payload changed");
        }
        for (int i = 0; i < K; i++) {
            MC_CHECK("F", Val<P>::id(nd[i]->data) == 1u + i, "payload of node %d changed", i);
            if (!used[i] && linkedOnce[i]) {
                Link *l = Node::to_link(nd[i]);
                MC_CHECK("F", l->next == nullptr || l->next == l, "removed node %d is still attached", i);
                if constexpr (DBL) MC_CHECK("F", l->prev == nullptr || l->prev == l, "removed node %d is still attached backwards", i);
            }
        }
    }
    void finish() { for (int h = 0; h < 2; h++) head[h]->data.~P(); for (int i = 0; i < K; i++) nd[i]->data.~P(); }
    void canon(GraphHash &g, Hash &h) { for (int i = 0; i < K; i++) { canonId(1 + i, 1 + i); h.mix(used[i] + 2 * linkedOnce[i]); } canonId(100, 100); canonId(101, 101); for (int k = 0; k < 2; k++) g.root(head[k]); for (int i = 0; i < K; i++) g.root(nd[i]); }
};
template <class W> Job J(const char *n) { W::mk(); return Ops<W>::job(n); }
void mc::registerJobs(std::vector<Job> &v) {
    v.push_back(J<EWorld<dstruct::DoublyLink_, Tk, 5, true>>("d_tk"));
    v.push_back(J<EWorld<dstruct::SinglyLink_, Tk, 5, false>>("s_tk"));
    v.push_back(J<EWorld<dstruct::DoublyLink_, Tk48, 3, true>>("d_tk48"));
    v.push_back(J<EWorld<dstruct::SinglyLink_, u64, 3, false>>("s_u64"));
    v.push_back(J<EWorld<dstruct::DoublyLink_, int, 6, true>>("d_int6"));
    v.push_back(J<EWorld<dstruct::SinglyLink_, int, 6, false>>("s_int6"));
}
