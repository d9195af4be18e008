/* where the resource given to constructors goes */
#include "common.hpp"
#include <poly_ops/poly_ops.hpp>
#include <new>
using namespace poly_ops;
extern "C" {
void w_mem_clipper(void *at,std::pmr::memory_resource *m) { ::new(at) clipper<int>(m); }
void w_mem_tracker(void *at,std::pmr::memory_resource *m) { ::new(at) origin_point_tracker<>(m); }
std::pmr::memory_resource *w_mem_of(const clipper<int> &c) { return c.memory(); }
}
