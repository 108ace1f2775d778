// Stand-in for oneTBB's parallel_for that race detectors understand: plain threads, chunks handed out in an order drawn from a seed.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <exception>
#include <mutex>
#include <thread>
#include <vector>
namespace tbbd {
inline std::atomic<int> threads{4}; inline std::atomic<unsigned> seed{1}; inline std::atomic<long> loops{0}, chunks{0}, switches{0};
inline unsigned mix(unsigned x) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; return x ^ (x >> 16); }
template <class Chunk, class Body> void run(std::vector<Chunk> list, const Body& body)
{
    unsigned s = seed.fetch_add(1); for (size_t i = list.size(); i > 1; --i) std::swap(list[i - 1], list[mix(s * 7919u + (unsigned)i) % i]); loops++; chunks += (long)list.size();
    int n = std::min<int>(threads, (int)list.size()); if (n <= 1) { for (auto& c : list) body(c); return; }
    std::atomic<size_t> next{0}; std::exception_ptr err; std::mutex m; std::atomic<int> last{-1};
    auto work = [&](int id) { try { for (;;) { size_t k = next++; if (k >= list.size()) return; if (last.exchange(id) != id) switches++; if (mix(s + (unsigned)k) % 3 == 0) std::this_thread::yield(); body(list[k]); } } catch (...) { std::lock_guard<std::mutex> g(m); if (!err) err = std::current_exception(); } };
    std::vector<std::thread> t; for (int i = 1; i < n; ++i) t.emplace_back(work, i); work(0); for (auto& x : t) x.join(); if (err) std::rethrow_exception(err);
}
}
