/* The sweep and assembly of clip.hpp with the library's vectors made visible */
#include "vv.hpp"
#include <poly_ops/clip.hpp>
using namespace poly_ops;
using namespace poly_ops::detail;
using C = int; using I = std::size_t;
using LP = std::pmr::vector<loop_point<I,C>>;
using CL = clipper<C,I>;
using PT = i_point_tracker<I>;
extern "C" {
void w_edge(I a,I b) noexcept;
void w_fb_events(events_t<I,C> &e,const LP &lp,I a,I b,I node) { e.add_fb_events(lp,a,b,node); }
I w_split(CL &c,sweep_t<I,C> &sweep,I s,const point_t<C> &p,at_edge_t at,PT *pt) { return c.split_segment(sweep,s,p,at,pt); }
bool w_check_intersection(CL &c,sweep_t<I,C> &sweep,I s1,I s2,PT *pt) { return c.check_intersection(sweep,s1,s2,pt); }
void w_self_intersection(CL &c,PT *pt) { c.self_intersection(pt); }
void w_next(std::tuple<event<I>,bool> *out,events_t<I,C> &e,const LP &lp) { ::new(out) std::tuple<event<I>,bool>(e.next(lp)); }
void w_removed(events_t<I,C> &e,const LP &lp) { for(segment<I> s : e.touching_removed(lp)) w_edge(s.a,s.b); }
void w_pending(events_t<I,C> &e,const LP &lp) { for(segment<I> s : e.touching_pending(lp)) w_edge(s.a,s.b); }
void w_calc_line_bal(CL &c,bool_op op) { c.calc_line_bal(op); }
void w_follow(LP &lp,I intr,breaks_t<I,C> &b,PT *pt) { follow_balance<I,C>(lp,intr,b,pt); }
void w_find_loops(LP &lp,std::pmr::vector<temp_polygon<I>> &loops,std::pmr::memory_resource *m) { find_loops<I,C>(lp,loops,m); }
I w_anchor(CL &c,I i) { return c.insert_anchor_point(i); }
void w_do_op(CL &c,bool_op op,PT *pt,bool tree) { c.do_op(op,pt,tree); }
void w_reset(CL &c) { c.reset(); }
void w_sink_point(CL::point_sink &s,const point_t<C> &p,I orig) { s(p,orig); }
void w_sink_point1(CL::point_sink &s,const point_t<C> &p) { s(p); }
void w_sink_end(CL::point_sink &s) { s.~point_sink(); }
void w_add_loop(CL::point_sink *out,CL &c,bool_set cat,PT *pt) { ::new(out) CL::point_sink(c.add_loop(cat,pt)); }
}
extern "C" {
void w_unique(intr_array_t<I> *out,const LP &lp,intr_array_t<I> &samples,std::pmr::memory_resource *m) { ::new(out) intr_array_t<I>(unique_sorted_loop_points<I,C>(lp,samples,m)); }
void w_replace(const LP &lp,const std::pmr::vector<temp_polygon<I>> &loops,intr_array_t<I> &ordered,std::pmr::memory_resource *m) { replace_line_indices_with_loop_indices<I,C>(lp,loops,ordered,m); }
void w_arrange(const intr_array_t<I> &ordered,std::pmr::vector<temp_polygon<I>> &loops,std::pmr::vector<temp_polygon<I>*> &top) { arrange_loops<I>(ordered,loops,top); }
void w_hierarchy(LP &lp,std::pmr::vector<temp_polygon<I>> &loops,std::pmr::vector<temp_polygon<I>*> &top,intr_array_t<I> &samples,std::pmr::memory_resource *m) { loop_hierarchy<I,C>(lp,loops,top,samples,m); }
}
