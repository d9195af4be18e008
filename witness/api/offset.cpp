// functions of offset.hpp
#include "api.hpp"
using P = point_t<int>;
using Loop = std::vector<P>; using Loops = std::vector<Loop>;
template<typename T> void use(T &c,Loop &l,Loops &ls,const Loops &cls) {
    for(bool closed : {true,false}) {
        add_offset(c,l,bool_set::subject,5.0,3,closed); add_offset(c,ls,bool_set::clip,5.0,3,closed); add_offset(c,cls,bool_set::clip,5.0,3); add_offset(c,Loops(ls),bool_set::clip,5.0,3,closed);
        std::list<P> li; add_offset(c,li,bool_set::subject,1.0,1,closed);
        std::forward_list<P> fl; add_offset(c,fl,bool_set::subject,1.0,1,closed);
        int arr[4][2] = {}; add_offset(c,arr,bool_set::subject,1.0,1,closed);
        add_offset_subject(c,l,5.0,3,closed); add_offset_subject(c,cls,5.0,3); add_offset_clip(c,l,5.0,3,closed); add_offset_clip(c,cls,5.0,3);
        auto un = fl | std::views::take_while([](P p) { return p[0] > 0; }); add_offset(c,un,bool_set::subject,1.0,1,closed);
    }
}
void u1(clipper<int> &c,Loop &l,Loops &ls,const Loops &cls,i_point_tracker<> *pt) { use(c,l,ls,cls); add_offset(c,ls,bool_set::subject,1.0,1,true,pt); add_offset(c,l,bool_set::subject,1.0,1,false,pt); }
void u2(origin_tracked_clipper<int> &c,Loop &l,Loops &ls,const Loops &cls) { use(c,l,ls,cls); }
void u3(clipper<int,int> &c,Loop &l,Loops &ls,const Loops &cls) { use(c,l,ls,cls); }
template<bool Tree> void one(Loop &l,const Loops &ls,std::pmr::memory_resource *m) {
    auto a = offset<Tree,int>(l,5.0,3); auto b = offset<Tree,int>(ls,5.0,3,false,m); auto c = offset<Tree,int>(ls,5.0,3,origin_point_tracker<>(),true,m); auto d = offset<Tree,int>(Loops(ls),5.0,3,origin_point_tracker<>()); auto e = offset<Tree,int,int>(l,5.0,3);
    for(auto p : c) for(auto v : p) { P x = v.p; (void)x; (void)v.original_points.size(); }
}
void u5(Loop &l,const Loops &ls,std::pmr::monotonic_buffer_resource *m,int closed) { auto a = offset<false,int>(l,5.0,3,true,m); auto b = offset<true,int>(ls,5.0,3,false,m); auto c = offset<false,int>(ls,5.0,3,origin_point_tracker<>(m),true,m); auto d = offset<false,int>(l,5.0,3,closed); }
void u4(Loop &l,const Loops &ls,std::pmr::memory_resource *m) { one<false>(l,ls,m); one<true>(l,ls,m); }
void u5(origin_point_tracker<> &t) { t.point_added(1); t.new_point_between(1,2); t.point_merge(0,1); t.reset(); auto v = t.get_value<int>(0,P(1,2)); (void)v; i_point_tracker<> *p = t.callbacks(); (void)p; }
