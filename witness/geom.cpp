/* Geometric primitives and decision functions of clip.hpp/base.hpp as
   functions of plain numbers. */
#include "common.hpp"
#include <poly_ops/clip.hpp>
using namespace poly_ops;
using namespace poly_ops::detail;
using C = int; using I = std::size_t;
using LP = std::pmr::vector<loop_point<I,C>>;

extern "C" {
bool w_event_cmp(const LP &lp,I a1,I b1,int t1,I a2,I b2,int t2) {
    event<I> e1(segment<I>{a1,b1},0,static_cast<event_type_t>(t1));
    event<I> e2(segment<I>{a2,b2},0,static_cast<event_type_t>(t2));
    return event_cmp<I,C>{lp}(e1,e2);
}
bool w_sweep_cmp(int x1,int y1,int x2,int y2,I a,I b,int x3,int y3,int x4,int y4,I c,I d) {
    cached_segment<I,C> s1(a,b,point_t<C>(x1,y1),point_t<C>(x2,y2)), s2(c,d,point_t<C>(x3,y3),point_t<C>(x4,y4));
    return sweep_cmp<I,C>{}(s1,s2);
}
bool w_line_bal_sweep_cmp(I a,I b,I c,I d) {
    cached_segment<I,C> s1(a,b,point_t<C>(0,0),point_t<C>(1,1)), s2(c,d,point_t<C>(0,0),point_t<C>(1,1));
    return line_bal_sweep_cmp<I>{}(s1,s2);
}
bool w_intersects(int x1,int y1,int x2,int y2,I a,I b,int x3,int y3,int x4,int y4,I c,I d,int *pxy,at_edge_t *e,rand_generator &r) {
    cached_segment<I,C> s1(a,b,point_t<C>(x1,y1),point_t<C>(x2,y2)), s2(c,d,point_t<C>(x3,y3),point_t<C>(x4,y4));
    point_t<C> p(pxy[0],pxy[1]);
    at_edge_t ee[2] = {e[0],e[1]};
    bool v = intersects(s1,s2,p,std::span<at_edge_t,2>(ee,2),r);
    pxy[0] = p[0]; pxy[1] = p[1];
    e[0] = ee[0]; e[1] = ee[1];
    return v;
}
bool w_rand_bool(rand_generator &r) { return rand_bool(r); }
/* three other edges with indices i0.. that are tested one after the other */
void w_balance(const loop_point<I,C> *pts,I p1,I a1,I b1,I a2,I b2,I a3,I b3,std::pmr::vector<I> &hits,line_state::type *out) {
    line_balance<I,C> lb(pts,p1,hits);
    lb.check(segment<I>(a1,b1));
    lb.check(segment<I>(a2,b2));
    lb.check(segment<I>(a3,b3));
    out[0] = lb.result(bool_op::union_);
    out[1] = lb.result(bool_op::intersection);
    out[2] = lb.result(bool_op::xor_);
    out[3] = lb.result(bool_op::difference);
    out[4] = lb.result(bool_op::normalize);
}
void w_balance1(const loop_point<I,C> *pts,I p1,I a1,I b1,std::pmr::vector<I> &hits) {
    line_balance<I,C> lb(pts,p1,hits);
    lb.check(segment<I>(a1,b1));
}
long w_triangle_winding(int x1,int y1,int x2,int y2,int x3,int y3) {
    return triangle_winding(point_t<C>(x1,y1),point_t<C>(x2,y2),point_t<C>(x3,y3));
}
#define P(n) point_t<C>(x##n,y##n)
#define A(n) int x##n,int y##n
long w_winding_sink1(A(1)) { winding_dir_sink<C> s(P(1)); return s.close(); }
long w_winding_sink2(A(1),A(2)) { winding_dir_sink<C> s(P(1)); s(P(2)); return s.close(); }
long w_winding_sink3(A(1),A(2),A(3)) { winding_dir_sink<C> s(P(1)); s(P(2)); s(P(3)); return s.close(); }
long w_winding_sink4(A(1),A(2),A(3),A(4)) { winding_dir_sink<C> s(P(1)); s(P(2)); s(P(3)); s(P(4)); return s.close(); }
long w_winding_dir0() { point_t<C> a[1]; return winding_dir<C>(std::span<point_t<C>>(a,std::size_t(0))); }
long w_winding_dir1(A(1)) { point_t<C> a[1] = {P(1)}; return winding_dir<C>(std::span<point_t<C>,1>(a)); }
long w_winding_dir2(A(1),A(2)) { point_t<C> a[2] = {P(1),P(2)}; return winding_dir<C>(std::span<point_t<C>,2>(a)); }
long w_winding_dir3(A(1),A(2),A(3)) { point_t<C> a[3] = {P(1),P(2),P(3)}; return winding_dir<C>(std::span<point_t<C>,3>(a)); }
long w_winding_dir4(A(1),A(2),A(3),A(4)) { point_t<C> a[4] = {P(1),P(2),P(3),P(4)}; return winding_dir<C>(std::span<point_t<C>,4>(a)); }
long w_winding_dir5(A(1),A(2),A(3),A(4),A(5)) { point_t<C> a[5] = {P(1),P(2),P(3),P(4),P(5)}; return winding_dir<C>(std::span<point_t<C>,5>(a)); }
}
