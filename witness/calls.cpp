/* The documented ways to run an operation, down to the clipper they drive */
#include "vv.hpp"
#include <poly_ops/clip.hpp>
#include <poly_ops/offset.hpp>
using namespace poly_ops;
using namespace poly_ops::detail;
using C = int; using I = std::size_t;
using CL = clipper<C,I>;
using PT = i_point_tracker<I>;
using MR = std::pmr::memory_resource;
struct WT {
    long id;
    WT(WT &&b) noexcept : id{b.id} {}
    WT(const WT&) = delete;
    point_t<C> get_value(I,const point_t<C>&) const noexcept;
    PT *callbacks();
    void reset();
};
struct In {
    const point_t<C> *begin() const;
    const point_t<C> *end() const;
};
struct Ins {
    const In *begin() const;
    const In *end() const;
};
using TC = tclipper<C,I,WT>; using TR = tclipper<C,I,WT&>;
using QT = temp_polygon_proxy<C,I,WT>; using QN = temp_polygon_proxy<C,I>;
#define PUT(T) ::new(out) decltype(T)(T)
extern "C" {
/* one call */
void w_union_list(void *out,In &a,WT &t,MR *m) { PUT((union_op<false,C,I>(a,std::move(t),m))); }
void w_union_tree(void *out,In &a,WT &t,MR *m) { PUT((union_op<true,C,I>(a,std::move(t),m))); }
void w_union_many(void *out,Ins &a,WT &t,MR *m) { PUT((union_op<false,C,I>(a,std::move(t),m))); }
void w_union_ref(void *out,In &a,WT &t,MR *m) { PUT((union_op<false,C,I>(a,t,m))); }
void w_union_plain(void *out,In &a,MR *m) { PUT((union_op<false,C,I>(a,m))); }
void w_union_plaintree(void *out,In &a,MR *m) { PUT((union_op<true,C,I>(a,m))); }
void w_norm_list(void *out,In &a,WT &t,MR *m) { PUT((normalize_op<false,C,I>(a,std::move(t),m))); }
void w_norm_tree(void *out,In &a,WT &t,MR *m) { PUT((normalize_op<true,C,I>(a,std::move(t),m))); }
void w_norm_plain(void *out,In &a,MR *m) { PUT((normalize_op<false,C,I>(a,m))); }
void w_norm_plaintree(void *out,In &a,MR *m) { PUT((normalize_op<true,C,I>(a,m))); }
void w_bool_list(void *out,In &a,In &b,bool_op op,WT &t,MR *m) { PUT((boolean_op<false,C,I>(a,b,op,std::move(t),m))); }
void w_bool_tree(void *out,In &a,In &b,bool_op op,WT &t,MR *m) { PUT((boolean_op<true,C,I>(a,b,op,std::move(t),m))); }
void w_bool_mixed(void *out,Ins &a,In &b,bool_op op,WT &t,MR *m) { PUT((boolean_op<false,C,I>(a,b,op,std::move(t),m))); }
void w_bool_plain(void *out,In &a,In &b,bool_op op,MR *m) { PUT((boolean_op<false,C,I>(a,b,op,m))); }
void w_bool_plaintree(void *out,In &a,In &b,bool_op op,MR *m) { PUT((boolean_op<true,C,I>(a,b,op,m))); }
void w_offset_list(void *out,In &a,double mag,C step,WT &t,bool closed,MR *m) { PUT((offset<false,C,I>(a,mag,step,std::move(t),closed,m))); }
void w_offset_tree(void *out,In &a,double mag,C step,WT &t,bool closed,MR *m) { PUT((offset<true,C,I>(a,mag,step,std::move(t),closed,m))); }
void w_offset_plain(void *out,In &a,double mag,C step,bool closed,MR *m) { PUT((offset<false,C,I>(a,mag,step,closed,m))); }
/* variants that add */
void w_add_subject(CL &c,In &a,PT *pt) { c.add_loops_subject(a,pt); }
void w_add_clip(CL &c,In &a,PT *pt) { c.add_loops_clip(a,pt); }
void w_add_subject0(CL &c,In &a) { c.add_loops_subject(a); }
void w_add_clip0(CL &c,In &a) { c.add_loops_clip(a); }
void w_add0(CL &c,In &a,bool_set s) { c.add_loops(a,s); }
void w_tadd(TC &c,In &a,bool_set s) { c.add_loops(a,s); }
void w_tadd_subject(TC &c,In &a) { c.add_loops_subject(a); }
void w_tadd_clip(TC &c,In &a) { c.add_loops_clip(a); }
void w_radd(TR &c,In &a,bool_set s) { c.add_loops(a,s); }
void w_tadd_loop(void *out,TC &c,bool_set s) { PUT((c.add_loop(s))); }
void w_add_loop0(void *out,CL &c,bool_set s) { PUT((c.add_loop(s))); }
void w_treset(TC &c) { c.reset(); }
void w_off(CL &c,In &a,bool_set s,double mag,C step,bool closed,PT *pt) { add_offset(c,a,s,mag,step,closed,pt); }
void w_off_many(CL &c,Ins &a,bool_set s,double mag,C step,bool closed,PT *pt) { add_offset(c,a,s,mag,step,closed,pt); }
void w_off_subject(CL &c,In &a,double mag,C step,bool closed) { add_offset_subject(c,a,mag,step,closed); }
void w_off_clip(CL &c,In &a,double mag,C step,bool closed) { add_offset_clip(c,a,mag,step,closed); }
void w_toff(TC &c,In &a,bool_set s,double mag,C step,bool closed) { add_offset(c,a,s,mag,step,closed); }
void w_toff_subject(TC &c,In &a,double mag,C step,bool closed) { add_offset_subject(c,a,mag,step,closed); }
void w_toff_clip(TC &c,In &a,double mag,C step,bool closed) { add_offset_clip(c,a,mag,step,closed); }
/* what adding comes down to */
void w_loops(CL &c,std::span<const point_t<C>> &a,bool_set s,PT *pt) { c.add_loops(a,s,pt); }
void w_loops_many(CL &c,std::span<const In> &a,bool_set s,PT *pt) { c.add_loops(a,s,pt); }
/* running */
void w_texec_list(void *out,TC &c,bool_op op) { PUT((c.execute<false>(op))); }
void w_texec_tree(void *out,TC &c,bool_op op) { PUT((c.execute<true>(op))); }
void w_trexec_list(void *out,TC &c,bool_op op) { PUT((std::move(c).execute<false>(op))); }
void w_trexec_tree(void *out,TC &c,bool_op op) { PUT((std::move(c).execute<true>(op))); }
void w_exec_list(void *out,CL &c,bool_op op,WT &t) { PUT((c.execute<false>(op,t))); }
void w_exec_tree(void *out,CL &c,bool_op op,WT &t) { PUT((c.execute<true>(op,t))); }
void w_rexec_list(void *out,CL &c,bool_op op,WT &t) { PUT((std::move(c).execute<false>(op,t))); }
void w_rexec_tree(void *out,CL &c,bool_op op,WT &t) { PUT((std::move(c).execute<true>(op,t))); }
void w_rexec_own(void *out,CL &c,bool_op op,WT &t) { PUT((std::move(c).execute<false>(op,std::move(t)))); }
void w_rexec_owntree(void *out,CL &c,bool_op op,WT &t) { PUT((std::move(c).execute<true>(op,std::move(t)))); }
void w_exec_plain(void *out,CL &c,bool_op op) { PUT((c.execute<false>(op))); }
void w_exec_plaintree(void *out,CL &c,bool_op op) { PUT((c.execute<true>(op))); }
void w_rexec_plain(void *out,CL &c,bool_op op) { PUT((std::move(c).execute<false>(op))); }
void w_rexec_plaintree(void *out,CL &c,bool_op op) { PUT((std::move(c).execute<true>(op))); }
/* what a result refers to */
#define REFERS(name,CT,Q,...) void name(CT &c,bool_op op,WT &t,std::ptrdiff_t k,void *out,Q *o) { using R = decltype(__VA_ARGS__); R *r = ::new(out) R(__VA_ARGS__); ::new(o) Q(r->begin()[k]); }
REFERS(r_own_list,CL,QT,std::move(c).execute<false>(op,std::move(t)))
REFERS(r_own_tree,CL,QT,std::move(c).execute<true>(op,std::move(t)))
REFERS(r_ref_list,CL,QT,std::move(c).execute<false>(op,t))
REFERS(r_ref_tree,CL,QT,std::move(c).execute<true>(op,t))
REFERS(r_plain_list,CL,QN,std::move(c).execute<false>(op))
REFERS(r_plain_tree,CL,QN,std::move(c).execute<true>(op))
REFERS(r_town_list,TC,QT,std::move(c).execute<false>(op))
REFERS(r_town_tree,TC,QT,std::move(c).execute<true>(op))
REFERS(r_tref_list,TR,QT,std::move(c).execute<false>(op))
REFERS(r_tref_tree,TR,QT,std::move(c).execute<true>(op))
REFERS(l_own_list,CL,QT,c.execute<false>(op,std::move(t)))
REFERS(l_own_tree,CL,QT,c.execute<true>(op,std::move(t)))
REFERS(l_ref_list,CL,QT,c.execute<false>(op,t))
REFERS(l_ref_tree,CL,QT,c.execute<true>(op,t))
REFERS(l_plain_list,CL,QN,c.execute<false>(op))
REFERS(l_plain_tree,CL,QN,c.execute<true>(op))
REFERS(l_town_list,TC,QT,c.execute<false>(op))
REFERS(l_town_tree,TC,QT,c.execute<true>(op))
REFERS(l_tref_list,TR,QT,c.execute<false>(op))
REFERS(l_tref_tree,TR,QT,c.execute<true>(op))
#define MOVES(name,...) void name(decltype(__VA_ARGS__) &a,std::ptrdiff_t k,void *out,QT *o) { using R = decltype(__VA_ARGS__); R *r = ::new(out) R(std::move(a)); ::new(o) QT(r->begin()[k]); }
MOVES(m_own_list,std::declval<CL>().execute<false>(bool_op{},std::declval<WT>()))
MOVES(m_own_tree,std::declval<CL>().execute<true>(bool_op{},std::declval<WT>()))
MOVES(m_ref_list,std::declval<CL>().execute<false>(bool_op{},std::declval<WT&>()))
MOVES(m_ref_tree,std::declval<CL>().execute<true>(bool_op{},std::declval<WT&>()))
/* construction */
void w_clipper(void *out,MR *m) { ::new(out) CL(m); }
void w_clipper_move(void *out,CL &c) { ::new(out) CL(std::move(c)); }
}
