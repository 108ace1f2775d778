#pragma once
#include "blocked_range2d.h"
namespace tbb {
// one to three elements a chunk, as many as a hundred for long ranges
template <class T, class B> void parallel_for(const blocked_range<T>& r, const B& body) { std::vector<blocked_range<T>> l; size_t n = r.empty() ? 0 : r.size(), step = std::max<size_t>(1, n / 64); for (size_t i = 0; i < n;) { size_t k = std::min(n - i, step + (i / step) % 2); l.emplace_back((T)(r.begin() + (T)i), (T)(r.begin() + (T)(i + k))); i += k; } tbbd::run(std::move(l), body); }
template <class T, class U, class B> void parallel_for(const blocked_range2d<T, U>& r, const B& body) { std::vector<blocked_range2d<T, U>> l; auto cut = [](auto q) { size_t n = q.empty() ? 0 : q.size(); return std::max<size_t>(1, n / 8); }; size_t sr = cut(r.rows()), sc = cut(r.cols()); if (!r.empty()) for (size_t i = 0; i < r.rows().size(); i += sr) for (size_t j = 0; j < r.cols().size(); j += sc) l.emplace_back((T)(r.rows().begin() + (T)i), (T)(r.rows().begin() + (T)std::min(r.rows().size(), i + sr)), (U)(r.cols().begin() + (U)j), (U)(r.cols().begin() + (U)std::min(r.cols().size(), j + sc))); tbbd::run(std::move(l), body); }
template <class I, class F> void parallel_for(I b, I e, const F& f) { parallel_for(blocked_range<I>(b, e), [&](const blocked_range<I>& r) { for (I i = r.begin(); i < r.end(); ++i) f(i); }); }
template <class F> void parallel_invoke_dummy(const F&) {}
}
