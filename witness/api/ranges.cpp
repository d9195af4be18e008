// what results are documented to model
#include "api.hpp"
template<typename C,typename I,typename T,typename V> struct want {
    using proxy = temp_polygon_proxy<C,I,T>; using it = proto_loop_iterator<C,I,T>; using pt = point_t<C>;
    using flat = temp_polygon_range<C,I,T>; using tree = temp_polygon_tree_range<C,I,T>; using bflat = borrowed_temp_polygon_range<C,I,T>; using btree = borrowed_temp_polygon_tree_range<C,I,T>;
    static_assert(std::forward_iterator<it> && std::sized_sentinel_for<it,it>,"proto_loop_iterator models forward_iterator");
    static_assert(std::is_default_constructible_v<it> && std::is_copy_assignable_v<it>,"iterators are regular");
    static_assert(std::same_as<std::iter_value_t<it>,V> && std::same_as<std::iter_reference_t<it>,V>,"polygons yield the documented value type");
    static_assert(std::ranges::forward_range<proxy> && std::ranges::forward_range<const proxy>,"polygons are forward ranges");
    static_assert(std::ranges::sized_range<proxy> && std::ranges::sized_range<const proxy>,"polygons are sized ranges");
    static_assert(std::ranges::borrowed_range<proxy>,"polygons are borrowed ranges");
    static_assert(std::ranges::view<proxy> && std::is_copy_assignable_v<proxy>,"polygons are views");
    static_assert(std::same_as<std::ranges::iterator_t<proxy>,it>,"polygons are iterated with proto_loop_iterator");
    static_assert(std::integral<decltype(std::declval<const it&>().index())>,"iterators tell the index");
    template<typename R> static constexpr bool result = std::ranges::random_access_range<R> && std::ranges::random_access_range<const R> && std::ranges::sized_range<R> && std::ranges::sized_range<const R> && std::ranges::common_range<R>
        && std::same_as<std::ranges::range_reference_t<R>,proxy> && std::same_as<std::ranges::range_value_t<R>,proxy> && std::same_as<std::ranges::range_reference_t<const R>,proxy> && std::same_as<decltype(std::declval<const R&>()[0]),proxy> && std::same_as<decltype(std::declval<const R&>().empty()),bool> && std::is_move_constructible_v<R>;
    static_assert(result<flat>,"flat results are random access and sized"); static_assert(result<tree>,"tree results are random access and sized"); static_assert(result<bflat>,"borrowed flat results are random access and sized"); static_assert(result<btree>,"borrowed tree results are random access and sized");
    using kids = decltype(std::declval<const proxy&>().inner_loops());
    static_assert(result<kids>,"children are random access and sized ranges of polygons");
};
template<typename C,typename I> struct both {
    want<C,I,null_tracker<C,I>,point_t<C>> a;
    want<C,I,origin_point_tracker<I>,std::decay_t<decltype(std::declval<const origin_point_tracker<I>&>().template get_value<C>(I(),point_t<C>()))>> b;
};
template struct both<int,std::size_t>; template struct both<int,int>; template struct both<int,unsigned>; template struct both<short,std::size_t>; template struct both<long,std::size_t>; template struct both<long,short>;
template<typename C,typename I> constexpr bool value_ok = requires(const origin_point_tracker<I> &t) { { t.template get_value<C>(I(),point_t<C>()).p } -> std::convertible_to<point_t<C>>; { t.template get_value<C>(I(),point_t<C>()).original_points } -> std::convertible_to<std::span<const I>>; };
static_assert(value_ok<int,std::size_t> && value_ok<long,int>,"tracked points carry the point and its origins");
