// polydraw.hpp
#include "api.hpp"
using namespace poly_ops::draw;
template class poly_ops::draw::rasterizer<int>; template class poly_ops::draw::rasterizer<short>; template class poly_ops::draw::rasterizer<long>;
template struct poly_ops::draw::scan_line_sweep_state<int>; template struct poly_ops::draw::scan_line_sweep_state<long>;
template struct poly_ops::draw::detail::fraction<int>; template struct poly_ops::draw::detail::fraction<int,2>; template struct poly_ops::draw::detail::fraction<int,2,1>;
template struct poly_ops::draw::detail::whole_and_frac<int,2>; template struct poly_ops::draw::detail::event<int>; template class poly_ops::draw::detail::events_t<int>;
static_assert(std::is_default_constructible_v<rasterizer<int>> && std::is_move_constructible_v<rasterizer<int>>);
static_assert(std::same_as<decltype(std::declval<poly_ops::draw::detail::fraction<int,2>>() == 0),bool> && std::same_as<decltype(std::declval<poly_ops::draw::detail::fraction<int,2>>() == std::declval<poly_ops::draw::detail::fraction<int,2>>()),bool>);
using P = point_t<int>;
void u1(rasterizer<int> &r,std::vector<P> &l,const std::vector<std::vector<P>> &ls) {
    r.add_loops(l); r.add_loops(ls); r.add_loops(std::vector<P>(l)); int arr[4][2] = {}; r.add_loops(arr); r.add_loops(l | std::views::reverse);
    { auto s = r.add_loop(); s(P(1,2)); }
    for(fill_rule_t f : {fill_rule_t::non_zero,fill_rule_t::even_odd,fill_rule_t::positive,fill_rule_t::negative}) r.draw(10u,10u,[](unsigned int,unsigned int,unsigned int) {},f);
    r.draw(10u,10u,[](unsigned int,unsigned int,unsigned int) {});
    auto st = r.scan_lines(10u,10u); scan_line sc; while(st(r,sc)) { (void)sc.x1; (void)sc.x2; (void)sc.y; (void)sc.winding; }
    r.clear();
    rasterizer<int> m(std::move(r));
}
bool u2(poly_ops::draw::detail::fraction<int,2> a,poly_ops::draw::detail::fraction<int,2> b,poly_ops::draw::detail::whole_and_frac<int,2> c,poly_ops::draw::detail::whole_and_frac<int,2> d) {
    return (a < b) || (a <= 1) || (a == 2) || (a != b) || (c < d) || (c <= 3) || (c == 4) || (c == d) || (c != d) || c.round();
}
