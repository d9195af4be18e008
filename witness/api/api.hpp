#include <poly_ops/poly_ops.hpp>
#include <poly_ops/polydraw.hpp>
#include <poly_ops/large_ints.hpp>
#include <poly_ops/strided_itr.hpp>
#include <poly_ops/mini_flat_set.hpp>
#include <array>
#include <list>
#include <forward_list>
#include <vector>
#include <concepts>
#include <ranges>
#include <iterator>
using namespace poly_ops;
