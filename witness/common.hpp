#include <vector>
#include <map>
#include <memory_resource>
#include <ranges>
#include <span>
#include <algorithm>
#include <random>
#include <cmath>
#include <tuple>
#include <utility>
#include <memory>
#include <functional>
#include <iterator>
#include <concepts>
#include <cassert>
#include <cstdint>
#include <cstring>
#include <limits>
#include <numbers>
#include <compare>
#include <type_traits>
#include <string>
#include <iosfwd>
#include <sstream>
#include <array>
#include <bit>
#include <cstddef>
#include <stdexcept>
#include <optional>
#include <numeric>
#include <set>
