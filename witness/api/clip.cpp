// member templates and functions of clip.hpp
#include "api.hpp"
using P = point_t<int>;
using Loop = std::vector<P>; using Loops = std::vector<Loop>;
template<typename R> concept bool_result = requires(R r) { r.begin(); r.end(); r.size(); (*r.begin()).begin(); };
template<typename Cl,typename Tr> void use_clipper(Cl &c,Loop &l,Loops &ls,const Loops &cls,Tr *pt) {
    c.add_loops(l,bool_set::subject,pt); c.add_loops(ls,bool_set::clip,pt); c.add_loops(cls,bool_set::clip,pt); c.add_loops(Loops(ls),bool_set::subject);
    c.add_loops_subject(l,pt); c.add_loops_subject(ls); c.add_loops_clip(l,pt); c.add_loops_clip(cls);
    std::array<int[2],3> a = {}; c.add_loops(a,bool_set::subject);
    std::list<P> li; c.add_loops(li,bool_set::subject);
    std::forward_list<P> fl; c.add_loops(fl,bool_set::subject);
    c.add_loops(l | std::views::transform([](P p) { return p; }),bool_set::subject);
    int arr[4][2] = {}; c.add_loops(arr,bool_set::subject);
    { auto sink = c.add_loop(bool_set::subject,pt); sink(P(1,2)); sink(P(1,2),3); sink.next_orig_i() = 4; }
    { auto sink = c.add_loop(bool_set::clip); sink(P(1,2)); const auto &cs = sink; (void)cs.next_orig_i(); }
    (void)c.next_orig_i(); c.next_orig_i() = 1; const Cl &cc = c; (void)cc.next_orig_i(); std::pmr::memory_resource *m = cc.memory(); (void)m;
    for(bool_op op : {bool_op::union_,bool_op::intersection,bool_op::xor_,bool_op::difference,bool_op::normalize}) {
        auto r = c.template execute<false>(op); static_assert(bool_result<decltype(r)>);
        auto t = c.template execute<true>(op); static_assert(bool_result<decltype(t)>);
        auto d = c.execute(op); static_assert(std::same_as<decltype(d),decltype(r)>);
        for(auto p : t) { for(auto q : p.inner_loops()) for(P x : q) (void)x; }
        for(std::size_t i=0; i<r.size(); ++i) { auto p = r[i]; (void)p.size(); for(auto it = p.begin(); it != p.end(); it++) { (void)it.index(); P x = *it; (void)x; } (void)(p.end()-p.begin()); (void)p.empty(); (void)p.front(); }
    }
    origin_point_tracker<typename std::remove_cvref_t<decltype(c.next_orig_i())>> tr;
    auto r = c.template execute<false>(bool_op::union_,tr); (void)r; auto t = c.template execute<true>(bool_op::union_,tr); (void)t;
    c.reset();
    Cl moved(std::move(c));
    auto r2 = std::move(moved).template execute<false>(bool_op::union_); (void)r2;
    auto r3 = Cl{}.template execute<true>(bool_op::union_); (void)r3;
    auto r4 = Cl{}.template execute<true>(bool_op::union_,std::move(tr)); (void)r4;
    auto r5 = Cl{}.template execute<false>(bool_op::union_,tr); (void)r5;
    auto r6 = Cl{}.execute(bool_op::union_); (void)r6;
}
void u1(clipper<int> &c,Loop &l,Loops &ls,const Loops &cls,i_point_tracker<> *pt) { use_clipper(c,l,ls,cls,pt); }
void u2(clipper<int,int> &c,Loop &l,Loops &ls,const Loops &cls,i_point_tracker<int> *pt) { use_clipper(c,l,ls,cls,pt); }
template<typename T> void use_t(T &c,Loop &l,Loops &ls,const Loops &cls) {
    c.add_loops(l,bool_set::subject); c.add_loops(ls,bool_set::clip); c.add_loops(cls,bool_set::clip); c.add_loops(Loops(ls),bool_set::clip); c.add_loops(ls | std::views::reverse,bool_set::clip);
    c.add_loops_subject(l); c.add_loops_subject(cls); c.add_loops_subject(Loops(ls)); c.add_loops_clip(l); c.add_loops_clip(cls); c.add_loops_clip(Loops(ls));
    { auto s = c.add_loop(bool_set::subject); s(P(1,2)); s(P(1,2),7); }
    auto r = c.template execute<false>(bool_op::union_); auto t = c.template execute<true>(bool_op::xor_); auto d = c.execute(bool_op::union_); (void)d;
    static_assert(bool_result<decltype(r)> && bool_result<decltype(t)>);
    for(auto p : t) { for(auto v : p) (void)v; for(auto q : p.inner_loops()) for(auto v : q) (void)v; }
    for(auto p : r) for(auto it = p.begin(); it != p.end(); it++) (void)*it;
    (void)c.tracker; (void)c.base; c.reset();
    T m(std::move(c));
    auto r2 = std::move(m).template execute<true>(bool_op::normalize); (void)r2;
    auto r3 = T{}.template execute<false>(bool_op::normalize); (void)r3;
    auto r4 = T{}.execute(bool_op::normalize); (void)r4;
}
void u3(tclipper<int,std::size_t,null_tracker<int,std::size_t>> &c,Loop &l,Loops &ls,const Loops &cls) { use_t(c,l,ls,cls); }
void u4(origin_tracked_clipper<int> &c,Loop &l,Loops &ls,const Loops &cls) { use_t(c,l,ls,cls); }
void u5(origin_tracked_clipper<int,int> &c,Loop &l,Loops &ls,const Loops &cls) { use_t(c,l,ls,cls); }
template<bool Tree> void one_call(Loop &l,Loops &ls,const Loops &cls,std::pmr::memory_resource *m) {
    auto a = union_op<Tree,int>(l); auto b = union_op<Tree,int>(ls,m); auto c = union_op<Tree,int>(cls,m); auto c2 = union_op<Tree,int,int>(Loops(ls));
    auto d = normalize_op<Tree,int>(l); auto e = normalize_op<Tree,int>(cls,m); auto e2 = normalize_op<Tree,int,int>(Loops(ls));
    auto f = boolean_op<Tree,int>(ls,cls,bool_op::difference); auto g = boolean_op<Tree,int>(l,Loops(ls),bool_op::xor_,m);
    auto h = union_op<Tree,int>(ls,origin_point_tracker<>(),m); auto i = normalize_op<Tree,int>(ls,origin_point_tracker<>()); auto j = boolean_op<Tree,int>(ls,cls,bool_op::union_,origin_point_tracker<>(),m);
    static_assert(std::same_as<decltype(b),std::conditional_t<Tree,temp_polygon_tree_range<int>,temp_polygon_range<int>>>);
    static_assert(std::same_as<decltype(j),std::conditional_t<Tree,temp_polygon_tree_range<int,std::size_t,origin_point_tracker<>>,temp_polygon_range<int,std::size_t,origin_point_tracker<>>>>);
    for(auto p : j) for(auto v : p) { P x = v.p; (void)x; std::span<const std::size_t> o = v.original_points; (void)o; }
}
/* a pointer to any kind of memory resource will do */
struct own_memory : std::pmr::memory_resource {};
template<bool Tree,typename M> void memory_call(Loop &l,const Loops &ls,M *m) {
    auto a = union_op<Tree,int>(l,m); auto b = normalize_op<Tree,int>(ls,m); auto c = boolean_op<Tree,int>(l,ls,bool_op::xor_,m);
    auto d = union_op<Tree,int>(l,origin_point_tracker<>(m),m); auto e = normalize_op<Tree,int>(ls,origin_point_tracker<>(),m); auto f = boolean_op<Tree,int>(l,ls,bool_op::xor_,origin_point_tracker<>(),m);
    clipper<int> g(m); origin_tracked_clipper<int> h(m);
}
void u7(Loop &l,const Loops &ls,std::pmr::monotonic_buffer_resource *m,std::pmr::unsynchronized_pool_resource *p,own_memory *o) { memory_call<false>(l,ls,m); memory_call<true>(l,ls,p); memory_call<false>(l,ls,o); memory_call<true>(l,ls,std::pmr::new_delete_resource()); }
void u6(Loop &l,Loops &ls,const Loops &cls,std::pmr::memory_resource *m) { one_call<false>(l,ls,cls,m); one_call<true>(l,ls,cls,m); }
