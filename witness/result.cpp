/* What users do with a result: iterate over polygons and their points */
#include "vv.hpp"
#include <poly_ops/clip.hpp>
using namespace poly_ops;
using namespace poly_ops::detail;
using C = int; using I = std::size_t;
using CL = clipper<C,I>;
struct WT {
    point_t<C> get_value(I,const point_t<C>&) const noexcept;
    i_point_tracker<I> *callbacks();
    void reset();
};
using P = temp_polygon_proxy<C,I,WT>;
using RL = decltype(std::declval<CL&>().template execute<false>(bool_op::union_,std::declval<WT&>()));
using RT = decltype(std::declval<CL&>().template execute<true>(bool_op::union_,std::declval<WT&>()));
using ML = decltype(std::declval<CL&&>().template execute<false>(bool_op::union_,std::declval<WT&>()));
using MT = decltype(std::declval<CL&&>().template execute<true>(bool_op::union_,std::declval<WT&>()));
template<int K,typename T> void step(T &i) { if constexpr(K > 0) { if constexpr(K%2) ++i; else i++; step<K-1>(i); } }
template<int K> bool at_end(const P &p) { auto i = p.begin(); step<K>(i); return i == p.end(); }
template<int K> std::ptrdiff_t from(const P &p) { auto i = p.begin(); step<K>(i); return i - p.begin(); }
template<int K> std::ptrdiff_t to(const P &p) { auto i = p.begin(); step<K>(i); return p.end() - i; }
extern "C" {
I w_size(const P &p) { return p.size(); }
bool w_end0(const P &p) { return at_end<0>(p); }
bool w_end1(const P &p) { return at_end<1>(p); }
bool w_end2(const P &p) { return at_end<2>(p); }
bool w_end3(const P &p) { return at_end<3>(p); }
bool w_end4(const P &p) { return at_end<4>(p); }
std::ptrdiff_t w_from0(const P &p) { return from<0>(p); }
std::ptrdiff_t w_from3(const P &p) { return from<3>(p); }
std::ptrdiff_t w_to0(const P &p) { return to<0>(p); }
std::ptrdiff_t w_to3(const P &p) { return to<3>(p); }
bool w_same12(const P &p) { auto i = p.begin(), j = p.begin(); step<1>(i); step<2>(j); return i == j; }
bool w_same03(const P &p) { auto i = p.begin(), j = p.begin(); step<3>(j); return i == j; }
bool w_same22(const P &p) { auto i = p.begin(), j = p.begin(); step<2>(i); ++j; j++; return i == j; }
bool w_post(const P &p) { auto i = p.begin(), j = p.begin(); auto o = i++; return o == j; }
void w_value0(const P &p,point_t<C> *o) { o[0] = *p.begin(); }
void w_values(const P &p,point_t<C> *o) { auto i = p.begin(); o[0] = *i; ++i; o[1] = *i; o[2] = *i++; o[3] = *i; auto j = ++i; o[4] = *j; }
I w_index2(const P &p) { auto i = p.begin(); step<2>(i); return i.index(); }
void w_copy(const P &p,point_t<C> *o) { auto i = p.begin(); ++i; auto j = i; ++i; o[0] = *j; }
/* ranges of polygons: each polygon where it is expected */
const void *w_rl_at(RL &r,std::ptrdiff_t k,P *o) { P p = r.begin()[k]; ::new(o) P(p); return o; }
void w_rl_plus(RL &r,std::ptrdiff_t k,P *o) { ::new(o) P(*(r.begin()+k)); }
void w_rl_index(RL &r,std::size_t k,P *o) { ::new(o) P(r[k]); }
void w_rl_inc(RL &r,P *o) { auto i = r.begin(); ++i; i++; ::new(o) P(*i); }
void w_rl_dec(RL &r,P *o) { auto i = r.end(); --i; i--; ::new(o) P(*i); }
void w_rl_post(RL &r,P *o) { auto i = r.begin(); ++i; ++i; ::new(o) P(*i++); }
void w_rl_postdec(RL &r,P *o) { auto i = r.end(); --i; --i; ::new(o) P(*i--); }
std::size_t w_rl_size(RL &r) { return r.size(); }
std::ptrdiff_t w_rl_diff(RL &r) { return r.end() - r.begin(); }
void w_rt_at(RT &r,std::ptrdiff_t k,P *o) { ::new(o) P(r.begin()[k]); }
void w_rt_plus(RT &r,std::ptrdiff_t k,P *o) { ::new(o) P(*(r.begin()+k)); }
void w_rt_inc(RT &r,P *o) { auto i = r.begin(); ++i; i++; ::new(o) P(*i); }
std::ptrdiff_t w_rt_diff(RT &r) { return r.end() - r.begin(); }
void w_ml_at(ML &r,std::ptrdiff_t k,P *o) { ::new(o) P(r.begin()[k]); }
void w_ml_inc(ML &r,P *o) { auto i = r.begin(); ++i; i++; ::new(o) P(*i); }
std::ptrdiff_t w_ml_diff(ML &r) { return r.end() - r.begin(); }
void w_mt_at(MT &r,std::ptrdiff_t k,P *o) { ::new(o) P(r.begin()[k]); }
std::ptrdiff_t w_mt_diff(MT &r) { return r.end() - r.begin(); }
void w_inner_at(const P &p,std::ptrdiff_t k,P *o) { auto r = p.inner_loops(); ::new(o) P(r.begin()[k]); }
std::ptrdiff_t w_inner_diff(const P &p) { auto r = p.inner_loops(); return r.end() - r.begin(); }
}
