// every member of the public class templates, for several coordinate and index types
#include "api.hpp"
static_assert(coordinate<int> && coordinate<short> && coordinate<long> && coordinate<long long> && coordinate<signed char>);
static_assert(point_like<point_t<int>,int> && point_like<int[2],int> && point_like<std::span<int,2>,int> && point_like<std::span<const int,2>,int>);
static_assert(std::same_as<long_coord_t<int>,large_ints::sized_int<8>> && std::same_as<real_coord_t<int>,double>);
template struct poly_ops::point_t<int>; template struct poly_ops::point_t<short>; template struct poly_ops::point_t<long>; template struct poly_ops::point_t<double>;
template class poly_ops::winding_dir_sink<int>; template class poly_ops::winding_dir_sink<short>; template class poly_ops::winding_dir_sink<long>;
template class poly_ops::clipper<int>; template class poly_ops::clipper<short>; template class poly_ops::clipper<long>; template class poly_ops::clipper<int,int>; template class poly_ops::clipper<int,unsigned int>;
template struct poly_ops::null_tracker<int,std::size_t>;
template class poly_ops::origin_point_tracker<std::size_t>; template class poly_ops::origin_point_tracker<int>;
template class poly_ops::tclipper<int,std::size_t,null_tracker<int,std::size_t>>;
template class poly_ops::tclipper<int,std::size_t,origin_point_tracker<std::size_t>>;
template class poly_ops::tclipper<int,int,origin_point_tracker<int>>;
template class poly_ops::proto_loop_iterator<int>; template class poly_ops::proto_loop_iterator<int,std::size_t,origin_point_tracker<std::size_t>>;
template class poly_ops::temp_polygon_proxy<int>; template class poly_ops::temp_polygon_proxy<int,std::size_t,origin_point_tracker<std::size_t>>;
template class poly_ops::i_point_tracker<int>;
static_assert(point_tracker<null_tracker<int>,int,std::size_t> && point_tracker<origin_point_tracker<>,int,std::size_t>);
static_assert(std::is_default_constructible_v<clipper<int>> && std::is_constructible_v<clipper<int>,std::pmr::memory_resource*>);
static_assert(std::is_move_constructible_v<clipper<int>>);
static_assert(std::is_default_constructible_v<origin_tracked_clipper<int>> && std::is_move_constructible_v<origin_tracked_clipper<int>>);
static_assert(std::is_constructible_v<origin_tracked_clipper<int>,origin_point_tracker<>&&,std::pmr::memory_resource*>);
static_assert(std::is_default_constructible_v<origin_point_tracker<>> && std::is_move_constructible_v<origin_point_tracker<>> && std::is_constructible_v<origin_point_tracker<>,std::pmr::memory_resource*>);
static_assert(std::is_default_constructible_v<proto_loop_iterator<int>> && std::is_copy_constructible_v<proto_loop_iterator<int>>);
