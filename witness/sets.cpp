/* Sets of original points (mini_flat_set.hpp) and the tracker that keeps them. */
#include "common.hpp"
#include <poly_ops/offset.hpp>
using I = std::size_t;
extern "C" {
I *w_alloc(I n);
void w_free(I *p,I n);
}
struct al {
    using value_type = I;
    I *allocate(I n) { return w_alloc(n); }
    void deallocate(I *p,I n) { w_free(p,n); }
    bool operator==(const al&) const = default;
};
using S = poly_ops::detail::mini_flat_set<I,al>;
using PX = poly_ops::detail::mini_flat_set_alloc_proxy<I,al>;
extern "C" {
bool w_insert(S &s,I v,I **pos) { auto r = s.insert(al{},v); *pos = r.first; return r.second; }
void w_insert_range(S &s,const I *b,const I *e) { s.insert(al{},b,e); }
void w_merge(S &s,S &b) { s.merge(al{},b); }
void w_proxy_merge(S &s,S &b) { PX(s,al{}).merge(PX(b,al{})); }
bool w_proxy_insert(S &s,I v,I **pos) { auto r = PX(s,al{}).insert(v); *pos = r.first; return r.second; }
void w_assign(S &s,const S &b) { s.assign(al{},b); }
void w_assign_move(S &s,S &b) { s.assign(al{},std::move(b)); }
void w_copy(void *m,const S &b) { ::new(m) S(al{},b); }
void w_move(void *m,S &b) { ::new(m) S(al{},std::move(b)); }
void w_swap(S &a,S &b) { swap(a,b); }
void w_new(void *m) { ::new(m) S(al{}); }
void w_destroy(S &s) { s.destroy(al{}); }
I w_size(const S &s) { return s.size(); }
bool w_empty(const S &s) { return s.empty(); }
const I *w_begin(const S &s) { return s.begin(); }
const I *w_end(const S &s) { return s.end(); }
void w_t_merge(poly_ops::origin_point_tracker<I> &t,I from,I to) { t.poly_ops::origin_point_tracker<I>::point_merge(from,to); }
void w_t_added(poly_ops::origin_point_tracker<I> &t,I i) { t.poly_ops::origin_point_tracker<I>::point_added(i); }
void w_t_between(poly_ops::origin_point_tracker<I> &t,I a,I b) { t.poly_ops::origin_point_tracker<I>::new_point_between(a,b); }
void w_t_reset(poly_ops::origin_point_tracker<I> &t) { t.poly_ops::origin_point_tracker<I>::reset(); }
poly_ops::point_and_origin<int,I> w_t_value(const poly_ops::origin_point_tracker<I> &t,I i,const poly_ops::point_t<int> &p) { return t.get_value(i,p); }
}
