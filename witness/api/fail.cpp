// everything the caller supplies may fail
#include "api.hpp"
[[noreturn]] void verif_fail();
bool verif_any();
inline void maybe() { if(verif_any()) verif_fail(); }
template<typename I> struct failing : i_point_tracker<I> {
    void new_point_between(I,I) override { maybe(); }
    void point_merge(I,I) override { maybe(); }
    void point_added(I) override { maybe(); }
    void reset() override { maybe(); }
    i_point_tracker<I> *callbacks() { maybe(); return this; }
    template<typename C> point_t<C> get_value(I,const point_t<C> &p) const { maybe(); return p; }
};
template<typename C> struct in {
    struct it {
        using value_type = point_t<C>; using difference_type = std::ptrdiff_t;
        int i;
        point_t<C> operator*() const { maybe(); return {}; }
        it &operator++() { maybe(); ++i; return *this; }
        it operator++(int) { maybe(); return {i++}; }
        friend bool operator==(const it &a,const it &b) { maybe(); return a.i == b.i; }
    };
    it begin() const { maybe(); return {0}; }
    it end() const { maybe(); return {9}; }
};
template<typename R> void use(R &&r) {
    for(auto &&l : r) {
        l.size();
        for(auto p : l) (void)p;
        for(auto &&k : l.inner_loops()) for(auto p : k) (void)p;
    }
}
template<typename R> void useflat(R &&r) { for(auto &&l : r) { l.size(); for(auto p : l) (void)p; } }
template<typename C,typename I> void one(std::pmr::memory_resource *m) {
    using T = failing<I>; using L = std::list<in<C>>;
    T t; clipper<C,I> c{m};
    c.add_loops(in<C>{},bool_set::subject,t.callbacks()); c.add_loops(L{},bool_set::clip,t.callbacks());
    { auto s = c.add_loop(bool_set::subject,t.callbacks()); s({1,2}); s({3,4},5); }
    add_offset(c,in<C>{},bool_set::subject,4.0,5,true,t.callbacks()); add_offset(c,L{},bool_set::subject,4.0,5,false,t.callbacks());
    use(c.template execute<true>(bool_op::union_,t)); useflat(c.template execute<false>(bool_op::union_,t));
    use(std::move(c).template execute<true>(bool_op::union_,t));
    tclipper<C,I,T> tc{T{},m};
    tc.add_loops(in<C>{},bool_set::subject); tc.add_loops(L{},bool_set::clip);
    use(tc.template execute<true>(bool_op::xor_)); useflat(tc.template execute<false>(bool_op::xor_));
    tc.reset();
    use(union_op<true,C,I>(L{},T{},m)); useflat(union_op<false,C,I>(L{},T{},m)); use(normalize_op<true,C,I>(L{},T{},m)); use(boolean_op<true,C,I>(L{},L{},bool_op::xor_,T{},m));
    draw::rasterizer<C> r; r.add_loops(in<C>{}); r.add_loops(L{}); r.draw(9,9,[](auto&&...) { maybe(); });
}
template void one<int,std::size_t>(std::pmr::memory_resource*);
template void one<long,int>(std::pmr::memory_resource*);
