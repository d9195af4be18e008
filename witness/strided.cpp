/* Strided iterators (strided_itr.hpp) and the ranges made of them. */
#include "common.hpp"
#include <poly_ops/strided_itr.hpp>
using It = poly_ops::detail::strided_itr<const char>;
using L = long;
#define R(k) poly_ops::blob_to_point_range##k
extern "C" {
const char *w_sink(long);
void w_plus(It *r,const It *a,L n) { *r = *a+n; }
void w_nplus(It *r,const It *a,L n) { *r = n+*a; }
void w_minus(It *r,const It *a,L n) { *r = *a-n; }
void w_pluseq(It *r,const It *a,L n) { It x = *a; x += n; *r = x; }
void w_minuseq(It *r,const It *a,L n) { It x = *a; x -= n; *r = x; }
void w_inc(It *r,const It *a) { It x = *a; *r = ++x; }
void w_dec(It *r,const It *a) { It x = *a; *r = --x; }
void w_incd(It *r,const It *a) { It x = *a; ++x; *r = x; }
void w_decd(It *r,const It *a) { It x = *a; --x; *r = x; }
void w_pincr(It *r,const It *a) { It x = *a; *r = x++; }
void w_pdecr(It *r,const It *a) { It x = *a; *r = x--; }
void w_pinc(It *r,const It *a) { It x = *a; x++; *r = x; }
void w_pdec(It *r,const It *a) { It x = *a; x--; *r = x; }
const char *w_star(const It *a) { return **a; }
const char *w_at(const It *a,L n) { return (*a)[n]; }
L w_diff(const It *a,const It *b) { return *a-*b; }
bool w_eq(const It *a,const It *b) { return *a == *b; }
bool w_ne(const It *a,const It *b) { return *a != *b; }
bool w_lt(const It *a,const It *b) { return *a < *b; }
bool w_le(const It *a,const It *b) { return *a <= *b; }
bool w_gt(const It *a,const It *b) { return *a > *b; }
bool w_ge(const It *a,const It *b) { return *a >= *b; }
/* points */
L w_size(const void *d,L cs,L ps,L n) { return std::ranges::distance(R()<L>(d,cs,ps,n)); }
void w_front(const void *d,L cs,L ps,L n,L *o) { auto r = R()<L>(d,cs,ps,n); auto p = *r.begin(); o[0] = p.x(); o[1] = p.y(); }
void w_nth(const void *d,L cs,L ps,L n,L *o,L i) { auto r = R()<L>(d,cs,ps,n); auto p = r.begin()[i]; o[0] = p.x(); o[1] = p.y(); }
void w_last(const void *d,L cs,L ps,L n,L *o) { auto r = R()<L>(d,cs,ps,n); auto p = *--r.end(); o[0] = p.x(); o[1] = p.y(); }
void w_narrow(const void *d,L cs,L ps,L n,L *o,L i) { auto r = R()<L,int>(d,cs,ps,n); auto p = r.begin()[i]; o[0] = p.x(); o[1] = p.y(); }
L w_sizes(const void *d,L cs,L ps,L n,L ls,L k) { return std::ranges::distance(R(_range)<L>(d,cs,ps,ls,n,k)); }
L w_size2(const void *d,L cs,L ps,L n,L ls,L k,L j) { return std::ranges::distance(R(_range)<L>(d,cs,ps,ls,n,k).begin()[j]); }
void w_nth2(const void *d,L cs,L ps,L n,L *o,L i,L ls,L k,L j) { auto r = R(_range)<L>(d,cs,ps,ls,n,k); auto q = r.begin()[j]; auto p = q.begin()[i]; o[0] = p.x(); o[1] = p.y(); }
void w_step2(const void *d,L cs,L ps,L n,L *o,L ls,L k) { auto r = R(_range)<L>(d,cs,ps,ls,n,k); auto it = r.begin(); ++it; auto q = *it; auto jt = q.begin(); ++jt; auto p = *jt; o[0] = p.x(); o[1] = p.y(); }
}
