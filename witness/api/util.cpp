// strided_itr.hpp and the free functions of base.hpp
#include "api.hpp"
using P = point_t<int>;
template<typename R> concept ra_points = std::ranges::random_access_range<R> && std::ranges::sized_range<R> && point_range<R,int>;
void u1(const void *v,char *c,const char *cc) {
    auto a = blob_to_point_range<int>(v,4,8,5); static_assert(ra_points<decltype(a)>);
    auto b = blob_to_point_range<int,short>(v,-2,-4,5); static_assert(ra_points<decltype(b)>);
    auto d = blob_to_point_range_range<int,double>(v,8,16,64,5,2); static_assert(std::ranges::random_access_range<decltype(d)> && std::ranges::sized_range<decltype(d)> && point_range_range<decltype(d),int>);
    auto e = make_strided_range(c,3,4,[](char *p) { return *p; }); auto f = make_strided_range(cc,3,4,[](const char *p) { return *p; });
    (void)(e.end() - e.begin()); (void)(e.begin() < e.end()); (void)(e.begin() == e.end()); (void)e.begin()[1]; (void)*(f.begin()+1); (void)*(1+f.begin()); auto it = f.end(); --it; it--; it += 1; it -= 1; ++it; it++; (void)(it-1); (void)f.size(); (void)a.size(); (void)a[0]; (void)d[0][1];
    clipper<int> cl; cl.add_loops(a,bool_set::subject); cl.add_loops(d,bool_set::clip);
}
template<typename T> void pts(point_t<T> a,point_t<T> b,point_t<double> d) {
    (void)(a+b); (void)(a-b); (void)(a*b); (void)(a/b); (void)(a*T(2)); (void)(T(2)*a); (void)(d*1.5); (void)(1.5*d); (void)(a == b); (void)(a != b); (void)vdot(a,b); (void)square(a); (void)vcast<double>(a); (void)vmag<T>(a); (void)vangle<T>(a,b); (void)triangle_winding(a,b,a);
    (void)(a+d); (void)(a-d); (void)(a*d);
    swap(a,b); a += b; a -= b; a *= T(2); (void)-a; (void)a.size(); for(T x : a) (void)x; (void)a.data(); (void)a.x(); (void)a.y();
    std::vector<point_t<T>> v; (void)winding_dir<T>(v); (void)winding_dir<T>(std::vector<point_t<T>>()); winding_dir_sink<T> s(a); s(b); (void)s.close(); (void)winding_dir<T>(std::list<point_t<T>>());
}
void u2() { pts<int>({1,2},{1,2},{1,2}); pts<long>({1,2},{1,2},{1,2}); pts<short>({1,2},{1,2},{1,2}); }
