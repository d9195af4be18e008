/* The red-black tree of the sweep (rbtree_algorithms.hpp) over nodes that are
   only numbers. */
#include "common.hpp"
#include <poly_ops/sweep_set.hpp>
using I = long;
extern "C" {
I g_parent(I) noexcept; I g_left(I) noexcept; I g_right(I) noexcept; I g_color(I) noexcept;
void s_parent(I,I) noexcept; void s_left(I,I) noexcept; void s_right(I,I) noexcept; void s_color(I,I) noexcept;
I w_less(I,I) noexcept;
}
struct NP {
    I i;
    using element_type = I;
    constexpr NP() : i(0) {}
    constexpr explicit NP(I i) : i(i) {}
    explicit operator bool() const noexcept { return i != 0; }
    friend bool operator==(NP a,NP b) noexcept { return a.i == b.i; }
    friend auto operator<=>(NP a,NP b) noexcept { return a.i <=> b.i; }
    NP unconst() const noexcept { return *this; }
    static NP const_cast_from(NP x) noexcept { return x; }
};
struct NT {
    using node = I; using node_ptr = NP; using const_node_ptr = NP; using color = I;
    static NP get_parent(NP n) noexcept { return NP(g_parent(n.i)); }
    static NP get_left(NP n) noexcept { return NP(g_left(n.i)); }
    static NP get_right(NP n) noexcept { return NP(g_right(n.i)); }
    static I get_color(NP n) noexcept { return g_color(n.i); }
    static void set_parent(NP n,NP m) noexcept { s_parent(n.i,m.i); }
    static void set_left(NP n,NP m) noexcept { s_left(n.i,m.i); }
    static void set_right(NP n,NP m) noexcept { s_right(n.i,m.i); }
    static void set_color(NP n,I c) noexcept { s_color(n.i,c); }
    static constexpr I black() noexcept { return 0; }
    static constexpr I red() noexcept { return 1; }
};
using A = poly_ops::detail::rbtree_algorithms<NT>;
using D = A::insert_commit_data;
struct Less { bool operator()(NP a,NP b) const { return w_less(a.i,b.i); } };
extern "C" {
void w_link(I h,I n,I at,bool left) { D d; d.node = NP(at); d.link_left = left; A::insert_unique_commit(NP(h),NP(n),d); }
void w_before(I h,I pos,I n) { A::insert_before(NP(h),NP(pos),NP(n)); }
void w_erase(I h,I n) { A::erase(NP(h),NP(n)); }
I w_check(I h,I n,I *at,I *left) { D d; auto r = A::insert_unique_check(NP(h),NP(n),Less{},d); *at = r.second ? d.node.i : r.first.i; *left = d.link_left; return r.second; }
I w_min(I n) { return A::minimum(NP(n)).i; }
I w_max(I n) { return A::maximum(NP(n)).i; }
I w_next(I n) { return A::next_node(NP(n)).i; }
I w_prev(I n) { return A::prev_node(NP(n)).i; }
I w_begin(I h) { return A::begin_node(NP(h)).i; }
I w_end(I h) { return A::end_node(NP(h)).i; }
bool w_unique(I n) { return A::unique(NP(n)); }
void w_init(I n) { A::init(NP(n)); }
void w_init_header(I n) { A::init_header(NP(n)); }
/* instances of what the others call */
void w_use(I h,I n,I *r) { A::insert_before(NP(h),NP(n),NP(n)); A::erase(NP(h),NP(n)); }
}
