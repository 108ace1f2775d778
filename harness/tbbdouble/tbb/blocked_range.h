#pragma once
#include "tbbd.hpp"
namespace tbb {
struct split {};
template <class T> class blocked_range { T b_, e_; size_t g_; public: using const_iterator = T; blocked_range(T b, T e, size_t g = 1) : b_(b), e_(e), g_(g) {} T begin() const { return b_; } T end() const { return e_; } size_t grainsize() const { return g_; } size_t size() const { return (size_t)(e_ - b_); } bool empty() const { return !(b_ < e_); } };
}
