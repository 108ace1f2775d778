// C04: element access and sampling against an independent long-double sampler.
#include "vh.hpp"
#include "huira/core/types.hpp"
#include "huira/images/image.hpp"
using namespace huira;
using LD = long double;
static vh::Rng R(1);
template <class T> struct Ops { // arithmetic pixels
    static constexpr int C = 1;
    static T make(bool big) { if constexpr (std::is_integral_v<T>) { switch (R.below(5)) { case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); default: return (T)R.next(); } } else return (T)(big ? R.u(-1e6, 1e6) : R.u(0, 1)); }
    static LD ch(const T& p, int) { return (LD)p; }
    static const char* name() { return "scalar"; }
};
template <class S> struct Ops<Vec3<S>> { static constexpr int C = 3; static Vec3<S> make(bool) { return {(S)R.u(-1, 1), (S)R.u(0, 5), (S)R.u()}; } static LD ch(const Vec3<S>& p, int c) { return p[c]; } };
template <std::size_t N, auto... A> struct Ops<SpectralBins<N, A...>> { static constexpr int C = N; static SpectralBins<N, A...> make(bool) { SpectralBins<N, A...> s; for (size_t i = 0; i < N; ++i) s[i] = (float)R.u(0, 3); return s; } static LD ch(const SpectralBins<N, A...>& p, int c) { return p[(size_t)c]; } };

template <class T> static bool same(const T& a, const T& b) { for (int c = 0; c < Ops<T>::C; ++c) if (Ops<T>::ch(a, c) != Ops<T>::ch(b, c)) return false; return true; }
enum { CL, RE, MI };
static LD wrap(int m, float u)
{
    if (std::isnan(u)) return -1;
    LD x = u;
    if (m == CL) return std::min<LD>(1, std::max<LD>(0, x));
    if (std::isinf(u)) return -1;
    if (m == RE) { LD r = fmodl(x, 1); return r < 0 ? r + 1 : r; }
    LD r = fmodl(fabsl(x), 2); return r > 1 ? 2 - r : r;
}
static float coord()
{
    switch (R.below(12)) {
    case 0: return 0; case 1: return 1; case 2: return (float)R.u(-4, 5); case 3: { static const float s[] = {NAN, INFINITY, -INFINITY, 1e30f, -1e30f, 3e9f, -3e9f, -1e-9f, 1e-30f, -1e-40f, 0.99999994f, 1.0000001f, -0.0f, 2, -1, 3.4e38f, 2147483648.f, -2147483648.f, 0.5f}; return s[R.below(19)]; }
    case 4: return (float)R.lu(1e-6, 1e6) * (R.chance(.5) ? 1 : -1); case 5: return (float)R.i(-5, 5);
    default: return R.f(); }
}
template <class T, WrapMode W> void sample(const Image<T>& im, const char* tn, int m)
{
    float u = coord(), v = coord(); int w = im.width(), h = im.height();
    if (R.chance(.3)) u = w > 1 ? (float)R.i(0, w - 1) / (float)(w - 1) : u;
    if (R.chance(.3)) v = h > 1 ? (float)R.i(0, h - 1) / (float)(h - 1) : v;
    vh::cur("%s %dx%d mode %d u=%.9g v=%.9g", tn, w, h, m, u, v); vh::distinct(vh::hash(w, h, m, u, v)); vh::ev(2);
    T n = im.template sample_nearest_neighbor<W>(u, v), b = im.template sample_bilinear<W>(u, v);
    if (im.empty()) { VH_CHECK(same(n, T{}) && same(b, T{}), "empty-sample", "%s", tn); return; }
    bool exists = false; for (size_t i = 0; i < im.size() && !exists; ++i) exists = same(im[i], n);
    VH_CHECK(exists, "nearest-not-a-pixel", "%s %dx%d mode %d (%g,%g)", tn, w, h, m, u, v);
    LD x = wrap(m, u), y = wrap(m, v);
    for (int c = 0; c < Ops<T>::C; ++c) {
        LD lo = INFINITY, hi = -INFINITY; for (size_t i = 0; i < im.size(); ++i) { LD q = Ops<T>::ch(im[i], c); lo = std::min(lo, q); hi = std::max(hi, q); }
        LD g = Ops<T>::ch(b, c), sl = (std::fabs(lo) + std::fabs(hi)) * 1e-6L;
        VH_CHECK(g >= lo - sl && g <= hi + sl, "bilinear-range", "%s %dx%d mode %d (%g,%g): %Lg outside [%Lg,%Lg]", tn, w, h, m, u, v, g, lo, hi);
        if (hi == lo) VH_CHECK(std::is_integral_v<T> && sizeof(T) < 8 ? g == lo : std::fabs(g - lo) <= std::fabs(lo) * 1e-6L, "bilinear-constant", "%s constant %Lg gives %Lg", tn, lo, g);
        if (x < 0 || y < 0) continue;
        LD px = x * (w - 1), py = y * (h - 1); int x0 = std::min((int)px, w - 1), y0 = std::min((int)py, h - 1), x1 = std::min(x0 + 1, w - 1), y1 = std::min(y0 + 1, h - 1);
        LD fx = px - x0, fy = py - y0;
        auto P = [&](int X, int Y) { return Ops<T>::ch(im[(size_t)Y * w + X], c); };
        LD want = (P(x0, y0) * (1 - fx) + P(x1, y0) * fx) * (1 - fy) + (P(x0, y1) * (1 - fx) + P(x1, y1) * fx) * fy;
        LD tol = (hi - lo) * (w + h + 4) * 2.5e-7L + sl + (std::is_integral_v<T> ? 1.0L : 0);
        VH_CHECK(std::fabs(g - want) <= tol, "bilinear", "%s %dx%d mode %d (%.9g,%.9g) ch %d: %Lg want %Lg", tn, w, h, m, u, v, c, g, want);
        // integer pixels: nearest representable value when the exact answer is not on a rounding boundary
        if (std::is_integral_v<T> && sizeof(T) <= 2) { LD fr = std::fabs(want - std::floor(want) - .5L); if (fr > tol - 1) VH_CHECK(g == std::floor(want + .5L), "bilinear-integer-rounding", "%s %dx%d (%.9g,%.9g): %Lg want %Lg", tn, w, h, u, v, g, want); }
        if (c == 0) {
            LD ex = (w + 2) * 2.5e-7L, ey = (h + 2) * 2.5e-7L; bool okn = false;
            for (int X = std::max(0, x0 - 1); X <= std::min(w - 1, x0 + 2) && !okn; ++X) for (int Y = std::max(0, y0 - 1); Y <= std::min(h - 1, y0 + 2); ++Y)
                if (std::fabs(px - X) <= .5L + ex && std::fabs(py - Y) <= .5L + ey && same(im[(size_t)Y * w + X], n)) { okn = true; break; }
            VH_CHECK(okn, "nearest", "%s %dx%d mode %d (%.9g,%.9g) position (%Lg,%Lg)", tn, w, h, m, u, v, px, py);
        }
    }
}
template <class T> void type(const char* tn)
{
    for (long it = 0; it < vh::n(250, 12000); ++it) {
        int w = R.chance(.2) ? R.i(0, 2) : R.i(1, R.chance(.1) ? 300 : 12), h = R.chance(.2) ? R.i(0, 2) : R.i(1, R.chance(.1) ? 3 : 12);
        T fillv = Ops<T>::make(false);
        Image<T> im = R.chance(.5) ? Image<T>(w, h, fillv) : Image<T>(Resolution{w, h}, fillv);
        vh::cur("%s %dx%d", tn, w, h);
        VH_CHECK(im.width() == w && im.height() == h && im.size() == (size_t)w * h && im.empty() == (w * h == 0) && (bool)im == !im.empty() && im.resolution() == (Resolution{w, h}), "shape", "%s %dx%d", tn, w, h);
        for (size_t i = 0; i < im.size(); ++i) if (!same(im[i], fillv)) { VH_FAIL("fill-ctor", "%s", tn); break; }
        { Image<T> z = R.chance(.5) ? Image<T>(w, h) : Image<T>(Resolution{w, h}); VH_CHECK(z.size() == im.size(), "default-shape", "%s", tn); for (size_t i = 0; i < z.size(); ++i) if (!same(z[i], T{})) { VH_FAIL("default-pixel", "%s", tn); break; } }
        bool cst = R.chance(.15);
        if (!cst) { bool big = R.chance(.2); for (size_t i = 0; i < im.size(); ++i) im[i] = Ops<T>::make(big); }
        const Image<T>& ci = im;
        // addressing
        for (int k = 0; k < 6 && !im.empty(); ++k) {
            int x = R.i(0, w - 1), y = R.i(0, h - 1); size_t l = (size_t)y * w + x; Pixel p{(float)x, (float)y}; vh::ev();
            T* q = &im[l];
            VH_CHECK(&im(x, y) == q && &ci(x, y) == q && &im.at(x, y) == q && &ci.at(x, y) == q && &im.at(l) == q && &ci.at(l) == q && &im.at(p) == q && &ci.at(p) == q && &im(p) == q && &ci(p) == q && im.data() + l == q && ci.data() + l == q && &ci[l] == q, "addressing", "%s (%d,%d) of %dx%d", tn, x, y, w, h);
        }
        for (int k = 0; k < 8; ++k) {
            static const int e[] = {-1, INT_MIN, INT_MAX, -2, -65536, INT_MIN + 1};
            int bx = R.chance(.3) ? w : R.chance(.2) ? w + R.i(0, 1000) : e[R.below(6)], by = R.chance(.3) ? h : e[R.below(6)], gx = w ? R.i(0, w - 1) : 0, gy = h ? R.i(0, h - 1) : 0;
            int x = bx, y = by; switch (R.below(3)) { case 0: x = gx; break; case 1: y = gy; break; default: break; }
            vh::cur("%s at(%d,%d) of %dx%d", tn, x, y, w, h); vh::ev();
            VH_CHECK(vh::throws([&] { (void)im.at(x, y); }) && vh::throws([&] { (void)ci.at(x, y); }), "at-out-of-range", "%s at(%d,%d) of %dx%d accepted", tn, x, y, w, h);
            static const float f[] = {NAN, INFINITY, -INFINITY, 1e30f, -1e30f, -1, -5.5f, 3e9f};
            Pixel p{(float)gx, (float)gy}; p[(int)R.below(2)] = R.chance(.2) ? (float)std::max(w, h) : f[R.below(8)];
            vh::cur("%s at(Pixel %g,%g) of %dx%d", tn, (double)p.x, (double)p.y, w, h);
            VH_CHECK(vh::throws([&] { (void)im.at(p); }) && vh::throws([&] { (void)ci.at(p); }), "at-pixel-out-of-range", "%s at(%g,%g) of %dx%d accepted", tn, (double)p.x, (double)p.y, w, h);
            size_t l = R.chance(.5) ? im.size() : im.size() + R.next() % 1000; if (R.chance(.2)) l = (size_t)-1;
            VH_CHECK(vh::throws([&] { (void)im.at(l); }) && vh::throws([&] { (void)ci.at(l); }), "at-index-out-of-range", "%s at(%zu) of %dx%d accepted", tn, l, w, h);
        }
        for (int k = 0; k < 12; ++k) { sample<T, WrapMode::Clamp>(im, tn, CL); sample<T, WrapMode::Repeat>(im, tn, RE); sample<T, WrapMode::Mirror>(im, tn, MI); }
        // default wrap mode is Repeat
        { float u = (float)R.u(-3, 3), v = (float)R.u(-3, 3); VH_CHECK(same(im.sample_bilinear(u, v), im.template sample_bilinear<WrapMode::Repeat>(u, v)) && same(im.sample_nearest_neighbor(u, v), im.template sample_nearest_neighbor<WrapMode::Repeat>(u, v)), "default-wrap", "%s", tn); }
        // channels and sums
        for (int c = 0; c < Ops<T>::C; ++c) { auto ch = im.get_channel((size_t)c); VH_CHECK(ch.resolution() == im.resolution(), "channel-shape", "%s", tn); for (size_t i = 0; i < im.size(); ++i) VH_CHECK(ch[i] == (float)Ops<T>::ch(im[i], c), "channel-value", "%s", tn); }
        VH_CHECK(vh::throws([&] { (void)im.get_channel((size_t)Ops<T>::C); }), "channel-out-of-range", "%s", tn);
        if constexpr (!std::is_integral_v<T>) {
            Image<T> o(w, h); for (size_t i = 0; i < o.size(); ++i) o[i] = Ops<T>::make(false);
            auto s = im + o; for (size_t i = 0; i < o.size(); ++i) VH_CHECK(same(s[i], T(im[i] + o[i])), "sum", "%s", tn);
            Image<T> bad(w + 1, h); VH_CHECK(vh::throws([&] { (void)(im + bad); }), "sum-mismatch", "%s", tn);
        }
        { Image<T> c = im; c.fill(fillv); VH_CHECK(c.resolution() == im.resolution(), "fill-shape", "%s", tn); for (size_t i = 0; i < c.size(); ++i) VH_CHECK(same(c[i], fillv), "fill", "%s", tn);
          c.clear(); VH_CHECK(c.empty() && c.width() == 0 && c.height() == 0 && vh::throws([&] { (void)c.at(0, 0); }), "clear", "%s", tn); }
        int nw = R.chance(.5) ? -R.i(1, 100) : w, nh = nw < 0 && R.chance(.5) ? h : -R.i(1, 100);
        VH_CHECK(vh::throws([&] { Image<T> x(nw, nh); }) && vh::throws([&] { Image<T> x(Resolution{nw, nh}, fillv); }), "negative-size", "%s %dx%d accepted", tn, nw, nh);
        vh::count(std::string("images.") + tn);
    }
    vh::sample(std::string(tn) + ": random images up to 300x12, clamp/repeat/mirror, coordinates incl. NaN, inf, 3e9, -1e-40");
}
void body()
{
    R = vh::Rng(vh::seed());
    type<std::uint8_t>("u8"); type<std::uint16_t>("u16"); type<std::uint32_t>("u32"); type<std::uint64_t>("u64"); type<std::int16_t>("i16"); type<std::int64_t>("i64"); type<std::int8_t>("i8");
    type<float>("f32"); type<double>("f64"); type<Vec3<float>>("vec3"); type<Vec3<double>>("vec3d"); type<RGB>("RGB"); type<Visible8>("Visible8");
    // sizes whose pixel count overflows int
    VH_CHECK(vh::throws([&] { Image<std::uint64_t> x(2000000000, 2000000000); }), "huge-size", "2e9 x 2e9 accepted");
    { Image<std::uint8_t> x(65537, 32769); x(65536, 32768) = 7; VH_CHECK(x.size() == 65537ull * 32769 && x.at(65536, 32768) == 7 && x[x.size() - 1] == 7 && x.sample_nearest_neighbor<WrapMode::Clamp>(1, 1) == 7, "large-image", "65537x32769"); vh::ev(4); }
}
VH_MAIN(body())
