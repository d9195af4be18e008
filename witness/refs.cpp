/* Everything of the library that keeps points, events and results in vectors,
   with the vectors made visible, to follow references into them */
#include "vv.hpp"
#include <poly_ops/poly_ops.hpp>
#include <poly_ops/polydraw.hpp>
using namespace poly_ops;
using C = int; using P = point_t<C>;
template<typename T> using V = std::pmr::verif_vector<T>;
using Loop = V<P>; using Loops = V<V<P>>;
using PT = i_point_tracker<std::size_t>;
using R = draw::rasterizer<C>;
extern "C" {
void w_row(unsigned int x1,unsigned int x2,unsigned int y) noexcept;
void w_use(const void*) noexcept;
void w_clip(clipper<C> &c,const Loop &l,const Loops &ls,bool_op op,PT *pt) {
    c.add_loops(l,bool_set::subject,pt); c.add_loops(ls,bool_set::clip,pt);
    { auto s = c.add_loop(bool_set::subject,pt); s(P(1,2)); s(P(3,4),5); auto s2 = std::move(s); }
    auto r = c.execute<false>(op); w_use(&r); auto t = c.execute<true>(op); w_use(&t);
   
    auto r2 = std::move(c).execute<true>(op); w_use(&r2); c.reset();
}
void w_offset(clipper<C> &c,const Loop &l,const Loops &ls,double m,int a,bool closed) { add_offset(c,l,bool_set::subject,m,a,closed); add_offset(c,ls,bool_set::clip,m,a,closed); }
void w_call(const Loop &l,const Loops &ls,bool_op op,double m,int a,bool closed,std::pmr::memory_resource *mr) {
    auto r = boolean_op<true,C>(l,ls,op,mr); w_use(&r); auto r1 = normalize_op<false,C>(ls,mr); w_use(&r1);
    auto r3 = offset<true,C>(ls,m,a,closed,mr); w_use(&r3);
}
void w_raster(R &r,const Loop &l,const Loops &ls,unsigned int w,unsigned int h,draw::fill_rule_t f) {
    r.add_loops(l); r.add_loops(ls); { auto s = r.add_loop(); s(P(1,2)); }
    r.draw(w,h,[](unsigned int a,unsigned int b,unsigned int c) { w_row(a,b,c); },f);
    auto st = r.scan_lines(w,h); draw::scan_line sc; while(st(r,sc)) w_use(&sc); r.clear();
}
}
