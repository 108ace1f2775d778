// C22: sampling maps against the closed forms of the densities they document; shading frames; samplers.
#include "vh.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "ld.hpp"
#include "huira/materials/sampling_utils.hpp"
#include "huira/render/interaction.hpp"
#include "huira/render/sampler.hpp"
namespace sm = huira::sampling; using F3 = Vec3<float>;
static const L PI_ = std::acos(-1.L); static const float LAST = 0x1.fffffep-1f;
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
enum { UNI, COS, POW, SIN, GGX, VN, KINDS };
static const char* kn[] = {"uniform_hemisphere", "cosine_hemisphere", "power_cosine_hemisphere", "sine_hemisphere", "ggx_sample_half_vector", "ggx_vndf_sample"};
struct Cfg { int k; float n, ro; F3 wo; L al, oz; };
struct Out { V d; L pdf; };
static Out draw(const Cfg& c, float a, float b)
{
    auto H = [](sm::HemisphereSample s) { return Out{fv(s.direction), s.pdf}; }; auto G = [](sm::MicrofacetSample s) { return Out{fv(s.half_vector), s.pdf}; };
    switch (c.k) { case UNI: return H(sm::uniform_hemisphere(a, b)); case COS: return H(sm::cosine_hemisphere(a, b)); case POW: return H(sm::power_cosine_hemisphere(a, b, c.n)); case SIN: return H(sm::sine_hemisphere(a, b)); case GGX: return G(sm::ggx_sample_half_vector(a, b, c.ro)); default: return G(sm::ggx_vndf_sample(c.wo, c.ro, a, b)); }
}
static L D(L al, L z, L s2) { L a2 = al * al; return a2 / (PI_ * std::pow(a2 * z * z + s2, 2)); }
static L G1(const Cfg& c) { L t2 = (1 - c.oz * c.oz) / (c.oz * c.oz); return 2 / (1 + std::sqrt(1 + c.al * c.al * t2)); }
static L density(const Cfg& c, const V& d)
{
    L z = d[2], s2 = d[0] * d[0] + d[1] * d[1];
    switch (c.k) { case UNI: return 1 / (2 * PI_); case COS: return z / PI_; case POW: return (c.n + 1.L) / (2 * PI_) * std::pow(z, (L)c.n); case SIN: return 2 * std::sqrt(s2) / (PI_ * PI_); case GGX: return D(c.al, z, s2) * z; default: return D(c.al, z, s2) * G1(c) * std::max(0.L, dot(un(fv(c.wo)), d)) / c.oz; }
}
// probability of a smaller polar angle
static L cdf(const Cfg& c, const V& d)
{
    L z = std::clamp(d[2], 0.L, 1.L), s2 = d[0] * d[0] + d[1] * d[1], th = std::atan2(std::sqrt(s2), z);
    switch (c.k) { case UNI: return 1 - z; case COS: return s2; case POW: return 1 - std::pow(z, c.n + 1.L); case SIN: return (2 * th - std::sin(2 * th)) / PI_; default: return s2 / (s2 + c.al * c.al * z * z); }
}
static Cfg cfg(int k)
{
    Cfg c{k, R.chance(.1) ? 0.f : (float)R.lu(.05, 200), R.chance(.15) ? 1.f : R.chance(.4) ? (float)R.lu(.01, .1) : (float)R.u(.1, 1), {0, 0, 1}, 0, 1}; c.al = (L)c.ro * c.ro;
    if (k == VN && !R.chance(.1)) { V o = un(rv(1)); o[2] = std::abs(o[2]); if (R.chance(.3)) o[2] *= .1L; if (R.chance(.1)) { o[0] *= 1e-4L; o[1] *= 1e-4L; } o = un(o); if (o[2] < 1e-3L) { o[2] = 1e-3L; o = un(o); } c.wo = ff(o); } c.oz = un(fv(c.wo))[2]; return c;
}
static void points(const Cfg& c)
{
    for (int j = 0; j < 40; ++j)
    {
        auto pick = [] { double x = R.f(); return x < .1 ? 0.f : x < .2 ? LAST : x < .3 ? (float)R.lu(1e-12, 1e-4) : x < .4 ? std::min(LAST, 1.f - (float)R.lu(1e-8, 1e-3)) : R.f(); };
        float a = pick(), b = pick(); vh::cur("%s u=(%.9g,%.9g) n=%g roughness=%g wo=(%.9g,%.9g,%.9g)", kn[c.k], a, b, c.n, c.ro, c.wo.x, c.wo.y, c.wo.z); auto [d, p] = draw(c, a, b); vh::ev();
        VH_CHECK(std::isfinite(d[0]) && std::isfinite(d[1]) && std::isfinite(d[2]) && std::isfinite(p) && p >= 0, "not-finite", "%s (%Lg,%Lg,%Lg) pdf %Lg", kn[c.k], d[0], d[1], d[2], p); if (!std::isfinite(p) || !std::isfinite(d[0])) continue;
        VH_CHECK(std::abs(len(d) - 1) < 2e-6L, "not-unit", "%s length %.9Lg", kn[c.k], len(d)); VH_CHECK(d[2] >= 0, "below", "%s z=%Lg", kn[c.k], d[2]);
        L q = density(c, d), s = std::sqrt(d[0] * d[0] + d[1] * d[1]), t = 2e-5L; if (c.k == POW) t += 2e-7L * (c.n + 1) * (d[2] < 1e-4L ? 10 : 1) + (d[2] > 0 ? 3e-7L * c.n / d[2] * 1e-1L : 0); if (c.k == UNI || c.k == COS) { } if (c.k >= GGX) t += 2e-5L + (s > 0 ? 1e-6L * std::min(1.L, s / c.al) : 0); if (c.k == VN) { L oh = dot(un(fv(c.wo)), d); t += 5e-7L / std::max(oh, 1e-12L) + 3e-7L / (c.oz * c.oz); }
        if (t < .3L) VH_CHECK(std::abs(p - q) <= t * q + (c.k == COS ? 1.5e-4L : 0) * (d[2] < 3e-3L) + 1.1e-8L, "pdf", "%s reports %.9Lg, density %.9Lg at (%Lg,%Lg,%Lg)", kn[c.k], p, q, d[0], d[1], d[2]);
        vh::distinct(vh::hash(a, b, c.n, c.ro, c.k));
    }
    vh::count(kn[c.k]);
}
// the image of equal areas of random numbers has equal probability under the density
static void spread(const Cfg& c)
{
    const int N = 192, B = 8; L got[B][B] = {}, want[B][B] = {}; vh::cur("histogram %s n=%g roughness=%g wo=(%.9g,%.9g,%.9g)", kn[c.k], c.n, c.ro, c.wo.x, c.wo.y, c.wo.z);
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { V d = draw(c, std::min(LAST, ((float)i + R.f()) / N), std::min(LAST, ((float)j + R.f()) / N)).d; L x = cdf(c, d), ph = std::atan2(d[1], d[0]) / (2 * PI_); if (ph < 0) ph += 1; got[std::clamp((int)(x * B), 0, B - 1)][std::clamp((int)(ph * B), 0, B - 1)] += 1.L / (N * N); }
    if (c.k == VN)
    { // weight relative to the plain half-vector density
        V o = un(fv(c.wo)); L g = G1(c); const int Q = 48;
        for (int i = 0; i < B; ++i) for (int q = 0; q < Q; ++q) for (int j = 0; j < B * Q; ++j)
        { L lo = (L)i / B, hi = (i + 1.L) / B, u = (q + .5L) / Q, w = 1, x; if (i == B - 1) { x = 1 - (1 - lo) * (1 - u) * (1 - u); w = 2 * (1 - u); } else x = lo + (hi - lo) * u; L tn = c.al * std::sqrt(x / (1 - x)), z = 1 / std::sqrt(1 + tn * tn), ph = 2 * PI_ * (j + .5L) / (B * Q); V h{tn * z * std::cos(ph), tn * z * std::sin(ph), z}; want[i][j / Q] += w * g * std::max(0.L, dot(o, h)) / (c.oz * z) / (B * Q * (L)(B * Q)); }
    }
    else for (auto& r : want) for (auto& x : r) x = 1.L / (B * B);
    for (int i = 0; i < B; ++i) for (int j = 0; j < B; ++j) VH_CHECK(std::abs(got[i][j] - want[i][j]) < 8e-4L + .02L * want[i][j], "density", "%s puts %.5Lg of its samples in region (%d,%d), its density %.5Lg", kn[c.k], got[i][j], i, j, want[i][j]);
    vh::count("histograms"); vh::ev();
}
static void frames()
{
    V n = un(rv(1)); double k = R.f(); if (k < .1) n = {0, 0, R.chance(.5) ? 1.L : -1.L}; else if (k < .3) { n = un(V{(L)R.lu(1e-12, .1) * (R.chance(.5) ? 1 : -1), (L)R.lu(1e-12, .1), R.chance(.5) ? 1.L : -1.L}); } else if (k < .4) n = un(V{n[0], n[1], R.chance(.5) ? 1e-9L : -1e-9L}); F3 f = ff(n); if (R.chance(.05)) { L a = R.u(-3, 3); f = {(float)std::cos(a), (float)std::sin(a), R.chance(.5) ? -0.f : 0.f}; } n = fv(f); if (std::abs(len(n) - 1) > 1e-6L) { f = ff(un(n)); n = fv(f); }
    vh::cur("frame of (%.9g,%.9g,%.9g)", f.x, f.y, f.z); F3 t, b; build_default_tangent_frame(f, t, b); V T = fv(t), B = fv(b), C = cross(T, B); L tol = 2e-6L; vh::ev();
    VH_CHECK(std::abs(len(T) - 1) < tol && std::abs(len(B) - 1) < tol && std::abs(dot(T, n)) < tol && std::abs(dot(B, n)) < tol && std::abs(dot(T, B)) < tol && len(C - n) < 2 * tol, "frame", "t=(%g,%g,%g) b=(%g,%g,%g) is no right-handed frame", t.x, t.y, t.z, b.x, b.y, b.z);
    // arbitrary frame: conversions are the rotation and its inverse
    V x = un(rv(1)), y = un(cross(n, x)); x = cross(y, un(n)); F3 fx = ff(x), fy = ff(y); V v = rv((L)R.lu(1e-3, 1e3)); F3 w = ff(v); v = fv(w); L s = len(v) * 3e-6L; V a = fv(sm::local_to_world(w, fx, fy, f)), e = v[0] * fv(fx) + v[1] * fv(fy) + v[2] * n; VH_CHECK(len(a - e) <= s, "local-to-world", "off by %Lg", len(a - e));
    V c = fv(sm::world_to_local(w, fx, fy, f)); VH_CHECK(len(c - V{dot(v, fv(fx)), dot(v, fv(fy)), dot(v, n)}) <= s, "world-to-local", "wrong"); V r = fv(sm::world_to_local(ff(a), fx, fy, f)); VH_CHECK(len(r - v) <= 2 * s, "round-trip", "local-world-local off by %Lg", len(r - v)); vh::distinct(vh::hash(f.x, f.y));
}
template <class T> static void sampler()
{
    auto sd = (std::uint32_t)R.next(); RandomSampler<T> a(sd), b(sd), c(sd + 1), r1, r2; const int N = 20000; int h[16] = {}, h2[8][8] = {}, same = 0, same2 = 0; double m = 0, lag = 0, prev = .5; vh::cur("sampler seed %u", sd);
    for (int i = 0; i < N; ++i)
    {
        bool two = R.chance(.4); if (two) { auto x = a.get_2d(), y = b.get_2d(); VH_CHECK(x == y, "reproducible", "equal seeds differ at draw %d", i); VH_CHECK(x.x >= 0 && x.x < 1 && x.y >= 0 && x.y < 1, "range", "(%.9g,%.9g)", (double)x.x, (double)x.y); VH_CHECK(x.x != x.y, "independent", "both components are %g", (double)x.x); ++h2[(int)(x.x * 8)][(int)(x.y * 8)]; c.get_2d(); vh::ev(); continue; }
        T x = a.get_1d(), y = b.get_1d(); same += x == c.get_1d(); same2 += r1.get_1d() == r2.get_1d(); VH_CHECK(x == y, "reproducible", "equal seeds differ at draw %d", i); VH_CHECK(x >= 0 && x < 1, "range", "%.9g", (double)x); ++h[(int)(x * 16)]; m += x; lag += (x - .5) * (prev - .5); prev = x; vh::ev();
    }
    double n1 = 0, n2 = 0, q1 = 0, q2 = 0; for (int x : h) n1 += x; for (auto& x : h2) for (int y : x) n2 += y; for (int x : h) q1 += std::pow(x - n1 / 16, 2) / (n1 / 16); for (auto& x : h2) for (int y : x) q2 += std::pow(y - n2 / 64, 2) / (n2 / 64);
    VH_CHECK(q1 < 15 + 8 * std::sqrt(30.) && q2 < 63 + 8 * std::sqrt(126.) && std::abs(m / n1 - .5) < 7 * .2887 / std::sqrt(n1) && std::abs(lag / n1) < 7 / 12. / std::sqrt(n1), "uniform", "chi2 %g/15 %g/63 mean %g lag %g", q1, q2, m / n1, lag / n1); VH_CHECK(same < 20 && same2 < 20, "seeds", "different seeds give %d / %d equal numbers", same, same2);
    T p = (T)R.u(), q = (T)R.u(), s = (T)R.u(); DeterministicSampler<T> d(p, Vec2<T>{q, s}), e; Sampler<T>& v = d; for (int i = 0; i < 3; ++i) VH_CHECK(v.get_1d() == p && v.get_2d() == (Vec2<T>{q, s}) && e.get_1d() == T(.5) && e.get_2d() == (Vec2<T>{T(.5), T(.5)}), "deterministic", "a deterministic sampler returns something else than it was given"); vh::count("samplers");
}
static void body()
{
    R = vh::Rng(vh::seed() * 31 + 22);
    for (int i = 0, N = vh::n(3000, 100000); i < N; ++i) points(cfg(i % KINDS));
    for (int i = 0, N = vh::n(120, 3000); i < N; ++i) { vh::watchdog(60); spread(cfg(i % KINDS)); }
    for (int i = 0, N = vh::n(20000, 500000); i < N; ++i) frames();
    for (int i = 0, N = vh::n(20, 400); i < N; ++i) { sampler<float>(); sampler<double>(); }
}
VH_MAIN(body())
