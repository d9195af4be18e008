/* The rasterizer of polydraw.hpp with the library's vectors made visible */
#include "vv.hpp"
#include <poly_ops/polydraw.hpp>
using namespace poly_ops;
using namespace poly_ops::draw;
using namespace poly_ops::draw::detail;
using C = int; using I = std::size_t;
using R = rasterizer<C>; using S = scan_line_sweep_state<C>;
using LPS = std::vector<draw::detail::loop_point<C>>;
using EVS = events_t<C>; using SWP = draw::detail::sweep_t<C>; using WF = whole_and_frac<C,2>; using FR = fraction<C,2>; using CS = draw::detail::cached_segment<C>;
extern "C" {
void w_row(unsigned int x1,unsigned int x2,unsigned int y) noexcept;
bool w_should_fill(fill_rule_t r,long w) { return should_fill(r,w); }
void w_draw(R &r,unsigned int w,unsigned int h,fill_rule_t f) { r.draw(w,h,[](unsigned int a,unsigned int b,unsigned int c) { w_row(a,b,c); },f); }
bool w_scan(S &s,R &r,scan_line &sc) { return s(r,sc); }
void w_scan_lines(S *out,R &r,unsigned int w,unsigned int h) { ::new(out) S(r.scan_lines(w,h)); }
void w_check(R &r,I s1,I s2,C y) { r.check_intersection(s1,s2,y); }
void w_after(R &r,SWP &sweep,I s1,I s2,const WF &y) { r.check_intersection_after_swap(sweep,s1,s2,y); }
void w_swap(R &r,SWP &sweep,I s1,I s2,const WF &y) { r.swap_and_check(sweep,s1,s2,y); }
bool w_event_cmp(const LPS &p,const event<C> &a,const event<C> &b) { return event_cmp<C>{p}(a,b); }
bool w_event_le(const LPS &p,const event<C> &a,C b) { return less_than_or_equal<C>(p,a,b); }
bool w_sweep_cmp(C y,const CS &a,const CS &b) { return sweep_cmp<C>{y}(a,b); }
bool w_intersects(const CS &a,const CS &b,WF &y) { return intersects<C>(a,b,y); }
bool w_frac_lt(const FR &a,const FR &b) { return a < b; }
bool w_frac_gt(const FR &a,const FR &b) { return a > b; }
bool w_frac_eq(const FR &a,const FR &b) { return a == b; }
bool w_frac_lti(const FR &a,C b) { return a < b; }
bool w_frac_eqi(const FR &a,C b) { return a == b; }
bool w_wf_lt(const WF &a,const WF &b) { return a < b; }
bool w_wf_eq(const WF &a,const WF &b) { return a == b; }
bool w_wf_lti(const WF &a,C b) { return a < b; }
bool w_wf_gei(const WF &a,C b) { return a >= b; }
bool w_wf_eqi(const WF &a,C b) { return a == b; }
void w_frac_make(FR *o,long n,long d) { ::new(o) FR(n,d); }
C w_to_coord(const fraction<C,2,1> &x,C lo,C hi) { return to_coord(x,lo,hi); }
C w_clamp(C x,C lo,C hi) { return draw::detail::clamp(x,lo,hi); }
void w_clear(R &r) { r.clear(); }
void w_add_loop(R::point_sink *o,R &r) { ::new(o) R::point_sink(r.add_loop()); }
void w_sink_point(R::point_sink &s,const point_t<C> &p) { s(p); }
void w_sink_move(R::point_sink *o,R::point_sink &s) { ::new(o) R::point_sink(std::move(s)); }
void w_sink_end(R::point_sink &s) { s.~point_sink(); }
void w_add_loops(R &r,const std::vector<std::vector<point_t<C>>> &l) { r.add_loops(l); }
void w_next(EVS &e,const LPS &p) { e.next(p); }
void w_events_clear(EVS &e) { e.clear(); }
void w_fb(R &r,I a,I b) { r.add_fb_events(a,b); }
}
