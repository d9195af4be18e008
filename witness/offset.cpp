/* Offsetting of single points and lines as functions of plain numbers; what a
   point_sink is given is the result (its call operator stays a call). */
#include "common.hpp"
#include "vv.hpp"
#include <poly_ops/offset.hpp>
using namespace poly_ops;
using namespace poly_ops::detail;
using C = int; using I = std::size_t;
using SK = clipper<C,I>::point_sink;

extern "C" {
void w_corner(SK &s,double m,C step,I i1,I i2,C x1,C y1,C x2,C y2,C x3,C y3) { add_offset_point<I,C>(s,m,step,i1,i2,point_t<C>(x1,y1),point_t<C>(x2,y2),point_t<C>(x3,y3)); }
void w_lone(SK &s,double m,C step,I i,C x,C y) { offset_lone_point<I,C>(s,m,step,i,point_t<C>(x,y)); }
double w_angle(C ax,C ay,C bx,C by) { return vangle<C>(point_t<C>(ax,ay),point_t<C>(bx,by)); }
void w_closed(clipper<C,I> &n,const point_t<C> *p,std::size_t k,bool_set set,double m,C step,i_point_tracker<I> *pt) { _add_offset_closed<C,I>(n,std::span<const point_t<C>>(p,k),set,m,step,pt); }
void w_open(clipper<C,I> &n,const point_t<C> *p,std::size_t k,bool_set set,double m,C step,i_point_tracker<I> *pt) { _add_offset_open<C,I>(n,std::span<const point_t<C>>(p,k),set,m,step,pt); }
}
