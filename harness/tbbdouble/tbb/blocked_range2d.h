#pragma once
#include "blocked_range.h"
namespace tbb {
template <class T, class U = T> class blocked_range2d { blocked_range<T> r_; blocked_range<U> c_; public: blocked_range2d(T a, T b, U c, U d) : r_(a, b), c_(c, d) {} blocked_range2d(T a, T b, size_t g, U c, U d, size_t h) : r_(a, b, g), c_(c, d, h) {} const blocked_range<T>& rows() const { return r_; } const blocked_range<U>& cols() const { return c_; } bool empty() const { return r_.empty() || c_.empty(); } };
}
