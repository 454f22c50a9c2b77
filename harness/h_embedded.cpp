// Intrusive lists (EmbeddedListNode_ over SinglyLink_/DoublyLink_) and the link-level
// binary tree functions, against plain models.
#include "pool.hpp"
using namespace vh;

// ---------------------------------------------------------------- intrusive lists
template <class T, class L, bool Doubly> struct Emb {
    typedef dstruct::EmbeddedListNode_<T, L> Node;
    enum { N = 40 };
    struct Slot { char guard0[16]; alignas(16) unsigned char raw[sizeof(Node)]; char guard1[16]; };
    Chooser &ch; bool ring;
    Slot *slot; Node *n[N]; int key[N];
    Vec<Vec<int> > lists; Vec<int> loose; int total;

    Emb(Chooser &c, bool r, int heads, int nodes) : ch(c), ring(r), total(heads + nodes) {
        slot = (Slot *)malloc(sizeof(Slot) * N);
        memset((void *)slot, 0x5A, sizeof(Slot) * N);
        for (int i = 0; i < total; i++) {
            n[i] = new ((void *)slot[i].raw) Node(); key[i] = Val<T>::norm(i + 1); n[i]->data = Val<T>::make(i + 1);
            if (i < heads) { start(i); Vec<int> l; l.push_back(i); lists.push_back(l); } else loose.push_back(i);
        }
    }
    ~Emb() { for (int i = 0; i < total; i++) n[i]->~Node(); free(slot); }
    void start(int i) {
        op(ring ? "init" : "clear", i);
        if (ring) { LIB(Node::init(n[i])); }
        else { memset((void *)&n[i]->link, 0, sizeof(L)); }
    }
    static L *pv(dstruct::SinglyLink_ *) { return 0; }
    static L *pv(dstruct::DoublyLink_ *l) { return (L *)l->prev; }
    void verify() {
        for (int i = 0; i < total; i++) {
            EXPECT_EQ(C_MODEL, "data", Val<T>::key(n[i]->data), key[i]);
            EXPECT(C_MODEL, "to_node", Node::to_node(Node::to_link(n[i])) == n[i], "to_node(to_link(node)) is another node");
            for (int b = 0; b < 16; b++) EXPECT(C_MODEL, "guard", slot[i].guard0[b] == 0x5A && slot[i].guard1[b] == 0x5A, "memory next to a node was changed");
        }
        for (size_t l = 0; l < lists.size(); l++) {
            const Vec<int> &m = lists[l]; size_t sz = m.size();
            note_size(sz);
            for (size_t k = 0; k < sz; k++) {
                L *nx = (L *)n[m[k]]->link.next;
                L *want = k + 1 < sz ? Node::to_link(n[m[k + 1]]) : ring ? Node::to_link(n[m[0]]) : 0;
                EXPECT(C_MODEL, "next", nx == want, "node %d of list %zu: next does not lead to the following node", (int)k, l);
                if (Doubly) {
                    L *p = pv(Node::to_link(n[m[k]])), *wp = k ? Node::to_link(n[m[k - 1]]) : ring ? Node::to_link(n[m[sz - 1]]) : 0;
                    EXPECT(C_MODEL, "prev", p == wp, "node %d of list %zu: prev does not lead to the preceding node", (int)k, l);
                }
                if (ring) { bool e; LIB(e = Node::empty(n[m[k]])); EXPECT_EQ(C_MODEL, "empty", e, sz == 1); }
            }
            Seq sq; for (size_t k = 0; k < sz; k++) sq.push_back(m[k]); note_state(hash_seq(sq) + l);
        }
        for (size_t k = 0; k < loose.size(); k++) if (removed[loose[k]])
            EXPECT(C_MODEL, "unlinked", n[loose[k]]->link.next == 0 && (!Doubly || pv(Node::to_link(n[loose[k]])) == 0), "a removed node still has links");
    }
    bool removed[N] = {};
    void step() {
        unsigned r = ch.ex ? (unsigned)"\0\6\11"[ch.choose(3)] : ch.choose(10);
        size_t l = ch.choose((unsigned)lists.size()); Vec<int> &m = lists[l];
        if (r < 5 && !loose.empty()) {
            size_t q = ch.choose((unsigned)loose.size()), at = ch.choose((unsigned)m.size());
            int c = loose[q]; op("add", (long)l, (long)at, c);
            LIB(Node::add(n[m[at]], n[c]));
            loose.erase(loose.begin() + q); m.insert(m.begin() + at + 1, c);
        } else if (r < 9 && m.size() > 1) {
            size_t at = ch.choose((unsigned)m.size() - 1); int c = m[at + 1];
            op("del", (long)l, (long)at, c); removal();
            LIB(Node::del(n[m[at]], n[c]));
            m.erase(m.begin() + at + 1); loose.push_back(c); removed[c] = true;
        } else if (r == 9 && ring && m.size() > 1) {           // in a ring every node can be its predecessor's successor: remove the head node itself
            int c = m[0]; op("del_head", (long)l, c); removal();
            LIB(Node::del(n[m.back()], n[c]));
            m.erase(m.begin()); loose.push_back(c); removed[c] = true;
        } else if (!loose.empty() && !ch.ex) {
            size_t q = ch.choose((unsigned)loose.size()); int c = loose[q]; key[c] = Val<T>::norm(key[c] + 3); op("set_data", c); n[c]->data = Val<T>::make(key[c]);
        }
        if (ch.unseen()) verify();
    }
};
template <class T, class L, bool D> static void emb(Chooser &ch) {
    Emb<T, L, D> d(ch, ch.choose(2) == 0, 1 + (int)ch.choose(3), 1 + (int)ch.choose(30));
    int k = 20 + (int)ch.choose(100); while (k--) d.step();
}
template <class T, class L, bool D> static void emb_ex(Chooser &ch) {
    Emb<T, L, D> d(ch, ch.choose(2) == 0, 1 + (int)ch.choose(2), 3);
    int k = 5 + O().depth_bonus; while (k--) d.step();
}

// ---------------------------------------------------------------- binary tree of links
typedef dstruct::tree::EmbeddedBinaryTreeNode<int> TN;
typedef dstruct::tree::BinaryTreeLink_ BL;
struct TreeShape {
    enum { MX = 4096 };
    TN nodes[MX]; int n; int L[MX], R[MX], P[MX]; int root;
    Seq pre, in, post;
    int h(int i) { if (i < 0) return 0; int a = h(L[i]), b = h(R[i]); return (a > b ? a : b) + 1; }
    void walk(int i) { if (i < 0) return; pre.push_back(i); walk(L[i]); in.push_back(i); walk(R[i]); post.push_back(i); }
    int leftmost(int i) { while (L[i] >= 0) i = L[i]; return i; }
    void link() {
        for (int i = 0; i < n; i++) {
            nodes[i].data = i;
            nodes[i].link.left = L[i] < 0 ? 0 : TN::to_link(&nodes[L[i]]);
            nodes[i].link.right = R[i] < 0 ? 0 : TN::to_link(&nodes[R[i]]);
            nodes[i].link.parent = P[i] < 0 ? 0 : TN::to_link(&nodes[P[i]]);
        }
        seqs();
    }
    void seqs() { pre.clear(); in.clear(); post.clear(); walk(root); }
    int id(BL *l) { return l ? (int)(TN::to_node(l) - nodes) : -1; }
    void read_back() { for (int i = 0; i < n; i++) { L[i] = id(nodes[i].link.left); R[i] = id(nodes[i].link.right); P[i] = id(nodes[i].link.parent); } }
    // build: nodes inserted one by one at free child positions (random), or Catalan enumeration
    int build(Chooser &ch, int count) {
        if (count == 0) return -1;
        int me = n++; int l = (int)ch.choose((unsigned)count);
        int a = build(ch, l), b = build(ch, count - 1 - l);
        L[me] = a; R[me] = b; if (a >= 0) P[a] = me; if (b >= 0) P[b] = me;
        return me;
    }
    void sequence(const char *what, BL *first, BL *(*next)(BL *), const Seq &want) {
        size_t k = 0; BL *l = first;
        for (; l; k++) { EXPECT(C_MODEL, what, k < want.size(), "%s visits more nodes than the tree has", what); EXPECT_EQ(C_MODEL, what, id(l), want[k]); LIB(l = next(l)); }
        EXPECT_EQ(C_MODEL, what, k, want.size());
    }
    struct Rec { Seq *s; TreeShape *t; void operator()(BL *l) { s->push_back(t->id(l)); } };
    void trav(const char *what, const Seq &got, const Seq &want) { EXPECT(C_MODEL, what, got == want, "%s visits %zu of %zu nodes or in another order", what, got.size(), want.size()); }
    void check() {
        using namespace dstruct::tree;
        BL *r = TN::to_link(&nodes[root]); int hh; LIB(hh = dstruct::tree::height(r)); EXPECT_EQ(C_MODEL, "height", hh, h(root));
        sequence("next_preorder", r, dstruct::tree::next_preorder, pre);
        sequence("next_inorder", TN::to_link(&nodes[in[0]]), dstruct::tree::next_inorder, in);
        BL *f = TN::to_link(&nodes[post[0]]);
        sequence("next_postorder", f, dstruct::tree::next_postorder, post);
        { Seq s; Rec rc = { &s, this }; LIB(dstruct::tree::preorder_traversal(r, rc)); trav("preorder_traversal", s, pre); }
        { Seq s; Rec rc = { &s, this }; LIB(dstruct::tree::inorder_traversal(r, rc)); trav("inorder_traversal", s, in); }
        { Seq s; Rec rc = { &s, this }; LIB(dstruct::tree::postorder_traversal(r, rc)); trav("postorder_traversal", s, post); }
        EXPECT(C_MODEL, "next-null", !dstruct::tree::next_preorder(0) && !dstruct::tree::next_inorder(0) && !dstruct::tree::next_postorder(0), "the successor of no node is a node");
    }
    void rotate(Chooser &ch) {
        int i = (int)ch.choose((unsigned)n); bool left = ch.choose(2) == 0;
        int c = left ? R[i] : L[i]; if (c < 0) { op("noop"); return; }
        op(left ? "left_rotate" : "right_rotate", i); removal();
        Seq before = in; int p = P[i];
        BL *nr; LIB(nr = left ? dstruct::tree::left_rotate(TN::to_link(&nodes[i])) : dstruct::tree::right_rotate(TN::to_link(&nodes[i])));
        EXPECT_EQ(C_MODEL, "rotate-root", id(nr), c);
        EXPECT_EQ(C_MODEL, "rotate-parent", id(nr->parent), p);
        if (p >= 0) { if (L[p] == i) nodes[p].link.left = nr; else nodes[p].link.right = nr; } else root = c;
        // the model of a rotation
        static int L0[MX], R0[MX], P0[MX]; memcpy(L0, L, sizeof L); memcpy(R0, R, sizeof R); memcpy(P0, P, sizeof P);
        if (left) { R0[i] = L[c]; if (L[c] >= 0) P0[L[c]] = i; L0[c] = i; } else { L0[i] = R[c]; if (R[c] >= 0) P0[R[c]] = i; R0[c] = i; }
        P0[i] = c; P0[c] = p; if (p >= 0) { if (L[p] == i) L0[p] = c; else R0[p] = c; }
        read_back();
        for (int k = 0; k < n; k++) EXPECT(C_MODEL, "rotate", L[k] == L0[k] && R[k] == R0[k] && P[k] == P0[k], "links of node %d are wrong after the rotation", k);
        seqs(); EXPECT(C_MODEL, "rotate-order", in == before, "a rotation changed the inorder sequence");
    }
};
static void shapes(Chooser &ch) {
    static TreeShape *t = new TreeShape();
    t->n = 0; for (int i = 0; i < TreeShape::MX; i++) { t->L[i] = t->R[i] = t->P[i] = -1; }
    int count = ch.ex ? 1 + (int)ch.choose(7u + O().depth_bonus) : 1 + (int)ch.choose(60);
    op("shape", count); t->root = t->build(ch, count); op("built", count); op("check", count); removal();
    t->link(); t->check(); note_size(count);
    uint64_t hh = 7; for (int i = 0; i < count; i++) { hh = mix(mix(hh, t->L[i]), t->R[i]); op("node", i, t->L[i], t->R[i]); } note_state(hh);
    if (ch.ex && count > 4) return;
    for (int k = 0; k < (ch.ex ? 2 : 12); k++) { t->rotate(ch); t->check(); }
}
// trees which are one long path, or two paths, with nodes hanging off them
static void deep(Chooser &ch) {
    static TreeShape *t = new TreeShape();
    t->n = 0; for (int i = 0; i < TreeShape::MX; i++) { t->L[i] = t->R[i] = t->P[i] = -1; }
    int count = 600 + (int)ch.choose(3400), f = (int)ch.choose(5), cur = 0; op("deep", f, count); removal();
    t->root = 0; t->n = 1;
    auto hang = [&](int p, bool left) { int k = t->n++; (left ? t->L : t->R)[p] = k; t->P[k] = p; return k; };
    int half = count / 2, a = -1;
    while (t->n < count) {
        bool left = f == 0 ? true : f == 1 ? false : f == 2 ? t->n % 2 == 0 : ch.choose(2) == 0;
        if (f == 3 && t->n >= half && a < 0) { a = cur; cur = 0; left = t->L[0] < 0; }
        if (f == 4 && t->n + 2 < count && ch.choose(3) == 0) hang(cur, !left);
        cur = hang(cur, left);
    }
    t->link(); t->check(); note_size(count); note_state(mix(f, count));
    for (int k = 0; k < 3; k++) { t->rotate(ch); t->check(); }
}
int main(int argc, char **argv) {
    watch_malloc();
    typedef dstruct::SinglyLink_ S; typedef dstruct::DoublyLink_ D;
    add("lists", "embedded-single<int>", 4000, emb<int, S, false>);
    add("lists", "embedded-double<int>", 4000, emb<int, D, true>);
    add("lists", "embedded-single<Big>", 800, emb<Big, S, false>);
    add("lists", "embedded-double<longdouble>", 1200, emb<long double, D, true>);
    add("lists", "embedded-double<Tracked>", 1200, emb<Tracked, D, true>);
    add("lists", "embedded-single<char>", 1200, emb<char, S, false>);
    add("lists-exhaustive", "embedded-single<int>/exhaustive", 0, emb_ex<int, S, false>);
    add("lists-exhaustive", "embedded-double<int>/exhaustive", 0, emb_ex<int, D, true>);
    add("tree", "link-tree", 4000, shapes);
    add("tree", "link-tree/deep", 60, deep);
    add("tree-exhaustive", "link-tree/exhaustive", 0, shapes);
    return vh_main(argc, argv);
}
