// C06: pixel and colour conversions against exact arithmetic.
#include "vh.hpp"
#include "huira/core/types.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/convert_pixel.hpp"
#include "huira/images/io/color_space.hpp"
#include "huira/images/color_map.hpp"
using namespace huira;
using LD = long double;
static vh::Rng R(1);
static float realv()
{
    static const float s[] = {0, -0.f, 1, -1, 2, NAN, INFINITY, -INFINITY, 1e-40f, 0.99999994f, 1.0000001f, 1e30f, -1e30f, 3.4028235e38f, -3.4028235e38f, 0.5f, 5e-8f, -5e-8f};
    switch (R.below(5)) { case 0: return s[R.below(18)]; case 1: return (float)R.u(-1, 2); case 2: return (float)R.lu(1e-12, 1); default: return R.f(); }
}
// level nearest to n in [0,1] of the full integer range; near ties both neighbours are allowed
template <class T> static void check_f2i(float v, float a, float b)
{
    vh::cur("float_to_integer<%zu%s>(%.9g,%g,%g)", sizeof(T) * 8, std::is_signed_v<T> ? "s" : "u", v, a, b); vh::ev(); vh::distinct(vh::hash(sizeof(T), v, a, b));
    T g = float_to_integer<T>(v, a, b);
    const LD lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    if (std::isnan(v)) { T g2 = float_to_integer<T>(v, a, b); VH_CHECK(g == g2, "nan-undefined", "%zu bits", sizeof(T) * 8); return; }
    LD n = ((LD)v - a) / ((LD)b - a); n = std::min<LD>(1, std::max<LD>(0, n));
    LD want = lo + n * (hi - lo), tol = .5L + (hi - lo) * 3e-7L; // float arithmetic is allowed for wide types
    if (sizeof(T) == 1) tol = .5L + 1e-3L; if (sizeof(T) == 2) tol = .5L + .04L;
    VH_CHECK(std::fabs((LD)g - want) <= tol, "float-to-integer", "%s%zu of %.9g in [%g,%g]: %Lg want %Lg", std::is_signed_v<T> ? "i" : "u", sizeof(T) * 8, v, a, b, (LD)g, want);
    if (n == 0) VH_CHECK((LD)g == lo, "clamp-low", "%.9g gives %Lg", v, (LD)g);
    if (n == 1) VH_CHECK((LD)g == hi, "clamp-high", "%s%zu of %.9g gives %Lg", std::is_signed_v<T> ? "i" : "u", sizeof(T) * 8, v, (LD)g);
}
template <class T> void integers(const char* tn)
{
    if constexpr (sizeof(T) <= 2) {
        float prev = -INFINITY;
        for (long v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v) {
            float f = integer_to_float<T>((T)v); vh::ev(); LD want = ((LD)v - std::numeric_limits<T>::min()) / ((LD)std::numeric_limits<T>::max() - std::numeric_limits<T>::min());
            VH_CHECK(std::fabs(f - want) <= 1.2e-7L && f > prev, "integer-to-float", "%s %ld: %g want %Lg", tn, v, f, want); prev = f;
            VH_CHECK((long)float_to_integer<T>(f) == v, "integer-round-trip", "%s %ld -> %.9g -> %ld", tn, v, f, (long)float_to_integer<T>(f));
            float a = -3, b = 5; float r = integer_to_float<T>((T)v, a, b); VH_CHECK(std::fabs(r - (a + want * (b - a))) <= 1.5e-6L && r >= a - 1e-6f && r <= b + 1e-6f, "integer-to-range", "%s %ld", tn, v);
            VH_CHECK((long)float_to_integer<T>(r, a, b) == v || sizeof(T) == 2, "range-round-trip", "%s %ld", tn, v);
        }
        vh::distinct(vh::hash(tn, 1)); vh::count("exhaustive-types");
    }
    VH_CHECK(integer_to_float<T>(std::numeric_limits<T>::min()) == 0 && integer_to_float<T>(std::numeric_limits<T>::max()) == 1, "integer-ends", "%s", tn);
    VH_CHECK(convert_pixel_to_float<T>(std::numeric_limits<T>::max()) == 1 && convert_float_to_pixel<T>(1.f) == std::numeric_limits<T>::max() && convert_float_to_pixel<T>(0.f) == std::numeric_limits<T>::min(), "pixel-ends", "%s", tn);
    for (long it = 0; it < vh::n(6000, 1000000); ++it) {
        float v = realv(); check_f2i<T>(v, 0, 1); check_f2i<T>(std::isfinite(v) ? v * 50 : v, -7.5f, 20);
        float w = realv(); if (!std::isnan(v) && !std::isnan(w)) { float x = std::min(v, w), y = std::max(v, w); VH_CHECK(float_to_integer<T>(x) <= float_to_integer<T>(y), "monotone", "%s %.9g %.9g", tn, x, y); float z = std::nextafter(x, 9e9f); VH_CHECK(float_to_integer<T>(x) <= float_to_integer<T>(z), "monotone", "%s %.9g next", tn, x); }
        Vec3<float> c{R.f(), R.f(), R.f()}; if (R.chance(.1)) c[(int)R.below(3)] = realv();
        vh::cur("vec3 to pixel %g %g %g", c.x, c.y, c.z);
        T p = convert_vec3_to_pixel<T>(c); LD gray = .2126L * c.x + .7152L * c.y + .0722L * c.z;
        if (std::isfinite((float)gray)) { gray = std::min<LD>(1, std::max<LD>(0, gray)); LD lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); LD scale = std::fabs(c.x) + std::fabs(c.y) + std::fabs(c.z); VH_CHECK(std::fabs((LD)p - (lo + gray * (hi - lo))) <= .51L + (hi - lo) * (3e-7L * (1 + scale)), "colour-to-mono", "%s %g %g %g", tn, c.x, c.y, c.z); }
        T q = (T)R.next(); auto v3 = convert_pixel_to_vec3<T>(q); float m = convert_pixel_to_float<T>(q);
        VH_CHECK(v3.x == m && v3.y == m && v3.z == m && m == integer_to_float<T>(q), "mono-to-colour", "%s", tn); vh::ev(2);
    }
}
void reals()
{
    for (long it = 0; it < vh::n(40000, 3000000); ++it) {
        float v = realv(); if (!std::isfinite(v)) v = R.f(); vh::ev();
        VH_CHECK(convert_float_to_pixel<float>(v) == v && convert_float_to_pixel<double>(v) == (double)v && convert_pixel_to_float<float>(v) == v && convert_pixel_to_float<double>(v) == v, "real-identity", "%g", v);
        auto a = convert_float_to_pixel<Vec3<float>>(v); auto b = convert_float_to_pixel<Vec3<double>>(v); auto c = convert_pixel_to_vec3<float>(v); auto d = convert_pixel_to_vec3<double>(v);
        bool ok = true; for (int i = 0; i < 3; ++i) ok &= a[i] == v && b[i] == (double)v && c[i] == v && d[i] == v; VH_CHECK(ok, "grey-to-colour", "%g", v);
        if (std::fabs(v) < 1e30f) VH_CHECK(vh::near(convert_pixel_to_float<Vec3<float>>(a), v, 3e-7, 1e-44) && vh::near(convert_pixel_to_float<Vec3<double>>(b), v, 3e-7, 1e-44), "grey-kept", "%g -> %g", v, convert_pixel_to_float<Vec3<float>>(a));
        Vec3<float> p{R.f(), R.f(), R.f()}, q{R.f(), R.f(), R.f()}; float k = R.f() * 3;
        LD gp = .2126L * p.x + .7152L * p.y + .0722L * p.z;
        VH_CHECK(std::fabs(convert_pixel_to_float<Vec3<float>>(p) - gp) < 3e-7L && std::fabs(convert_vec3_to_pixel<float>(p) - gp) < 3e-7L && std::fabs(convert_vec3_to_pixel<double>(p) - gp) < 3e-7L, "luminance", "%g %g %g", p.x, p.y, p.z);
        VH_CHECK(std::fabs(convert_pixel_to_float<Vec3<float>>(p * k + q) - (k * gp + (LD)convert_pixel_to_float<Vec3<float>>(q))) < 3e-6L, "luminance-linear", "%g", k);
        auto i3 = convert_vec3_to_pixel<Vec3<float>>(p); auto i3d = convert_vec3_to_pixel<Vec3<double>>(p); auto j3 = convert_pixel_to_vec3<Vec3<double>>(i3d); VH_CHECK(i3 == p && j3 == p, "colour-identity", "%g", p.x);
    }
}
static LD dec(LD s) { return s <= .04045L ? s / 12.92L : powl((s + .055L) / 1.055L, 2.4L); }
static LD enc(LD l) { return l <= .0031308L ? l * 12.92L : 1.055L * powl(l, 1 / 2.4L) - .055L; }
void colour()
{
    float pe = -INFINITY, pd = -INFINITY;
    for (long i = 0; i <= vh::n(40000, 4000000); ++i) {
        float x = (float)(i / (double)vh::n(40000, 4000000)); vh::ev();
        float d = srgb_to_linear(x), e = linear_to_srgb(x);
        VH_CHECK(std::fabs(d - dec(x)) <= 1e-6L && std::fabs(e - enc(x)) <= 1e-6L, "srgb-curve", "%.9g: dec %g enc %g", x, d, e);
        VH_CHECK(d >= pd && e >= pe, "srgb-monotone", "%.9g", x); pd = d; pe = e;
        // the published constants leave a step of ~2e-8..3e-6 at the junction
        VH_CHECK(std::fabs(linear_to_srgb(d) - x) <= 5e-6f && std::fabs(srgb_to_linear(e) - x) <= 5e-6f, "srgb-inverse", "%.9g", x);
        float g = (float)R.u(.5, 3); VH_CHECK(std::fabs(gamma_to_linear(x, g) - powl(x, g)) < 1e-5L, "gamma", "%g^%g", x, g);
    }
    VH_CHECK(srgb_to_linear(0) == 0 && linear_to_srgb(0) == 0 && std::fabs(srgb_to_linear(1) - 1) < 1e-6 && std::fabs(linear_to_srgb(1) - 1) < 1e-6, "srgb-ends", "ends");
    for (long it = 0; it < vh::n(200, 10000); ++it) {
        int w = R.i(0, 9), h = R.i(1, 9); Image<RGB> a(w, h); Image<float> m(w, h), al(w, h);
        for (size_t i = 0; i < a.size(); ++i) { a[i] = RGB{R.f(), R.f(), R.f()}; m[i] = R.f(); al[i] = R.f(); }
        vh::cur("bundle %dx%d", w, h); vh::distinct(vh::hash(w, h, it)); vh::ev();
        ImageBundle<RGB> b(a, al); ImageBundle<float> bm(m, al);
        auto l = srgb_to_linear(b), s = linear_to_srgb(b); auto lm = srgb_to_linear(bm), sm = linear_to_srgb(bm);
        VH_CHECK(l.color_space == ColorSpaceHint::Linear && s.color_space == ColorSpaceHint::sRGB && lm.color_space == ColorSpaceHint::Linear && sm.color_space == ColorSpaceHint::sRGB, "bundle-hint", "%dx%d", w, h);
        VH_CHECK(l.image.resolution() == a.resolution() && sm.image.resolution() == a.resolution() && s.alpha.resolution() == al.resolution() && lm.alpha.resolution() == al.resolution(), "bundle-shape", "%dx%d", w, h);
        for (size_t i = 0; i < a.size(); ++i) {
            bool ok = true; for (size_t c = 0; c < 3; ++c) ok &= std::fabs(l.image[i][c] - dec(a[i][c])) < 1e-6L && std::fabs(s.image[i][c] - enc(a[i][c])) < 1e-6L;
            ok &= std::fabs(lm.image[i] - dec(m[i])) < 1e-6L && std::fabs(sm.image[i] - enc(m[i])) < 1e-6L;
            VH_CHECK(ok, "bundle-pixels", "%dx%d pixel %zu", w, h, i);
            VH_CHECK(l.alpha[i] == al[i] && s.alpha[i] == al[i] && lm.alpha[i] == al[i] && sm.alpha[i] == al[i], "bundle-alpha", "alpha is not colour");
        }
        // colour maps
        Image<Vec3<float>> n(w, h); Image<float> dep(w, h); float dmin = INFINITY, dmax = 0; bool flat = R.chance(.15); float fd = (float)R.lu(.01, 1e8); double pinf = R.chance(.15) ? 1 : .2;
        for (size_t i = 0; i < n.size(); ++i) { Vec3<double> v{R.gauss(), R.gauss(), R.gauss()}; n[i] = Vec3<float>(glm::normalize(v)); if (R.chance(.2)) { n[i] = Vec3<float>(0); n[i][(int)R.below(3)] = R.chance(.5) ? 1.f : -1.f; } dep[i] = R.chance(pinf) ? INFINITY : flat ? fd : (float)R.lu(.01, 1e8); if (std::isfinite(dep[i])) { dmin = std::min(dmin, dep[i]); dmax = std::max(dmax, dep[i]); } }
        auto nm = normal_map(n); auto dm = depth_map(dep); VH_CHECK(nm.resolution() == n.resolution() && dm.resolution() == dep.resolution(), "map-shape", "%dx%d", w, h);
        for (size_t i = 0; i < n.size(); ++i) {
            for (size_t c = 0; c < 3; ++c) { VH_CHECK(std::fabs(nm[i][c] - ((LD)n[i][(int)c] + 1) / 2) < 1e-6L && nm[i][c] >= -1e-6f && nm[i][c] <= 1 + 1e-6f, "normal-map", "%g -> %g", n[i][(int)c], nm[i][c]);
                float g = dm[i][c], want = std::isinf(dep[i]) ? 1.f : dmax > dmin ? (float)(.8L * ((LD)dep[i] - dmin) / ((LD)dmax - dmin)) : 0.f;
                bool ok = std::isinf(dep[i]) || dmax > dmin ? std::fabs(g - want) < 2e-6f : g >= 0 && g <= .8f + 1e-6f;
                VH_CHECK(ok && g >= 0 && g <= 1, "depth-map", "depth %g in [%g,%g] -> %g want %g", dep[i], dmin, dmax, g, want); }
        }
        auto sp = rgb_to_spectral<Visible8>(a); VH_CHECK(sp.resolution() == a.resolution(), "spectral-shape", "%dx%d", w, h);
        for (size_t i = 0; i < a.size(); ++i) VH_CHECK(sp[i] == convert_rgb_to_spectral<Visible8>(a[i]), "spectral-map", "pixel %zu", i);
        if (w) { Image<RGB> gr(w, h); for (size_t i = 0; i < gr.size(); ++i) gr[i] = RGB(m[i]); auto sg = rgb_to_spectral<Visible8>(gr); for (size_t i = 0; i < gr.size(); ++i) for (auto x : sg[i]) VH_CHECK(std::fabs(x - m[i]) < 1e-6f, "spectral-grey", "%g -> %g", m[i], x); }
        auto id = rgb_to_spectral<RGB>(a); for (size_t i = 0; i < a.size(); ++i) VH_CHECK(id[i] == a[i], "spectral-rgb-identity", "pixel %zu", i);
        auto cus = rgb_to_spectral<Visible8>(a, [](RGB c) { return Visible8(c[0] * 2); }); for (size_t i = 0; i < a.size(); ++i) VH_CHECK(cus[i][3] == a[i][0] * 2, "spectral-custom", "pixel %zu", i);
    }
}
void body()
{
    R = vh::Rng(vh::seed());
    integers<std::uint8_t>("u8"); integers<std::int8_t>("i8"); integers<std::uint16_t>("u16"); integers<std::int16_t>("i16"); integers<std::uint32_t>("u32"); integers<std::int32_t>("i32"); integers<std::uint64_t>("u64"); integers<std::int64_t>("i64");
    reals(); colour();
    vh::sample("every u8/i8/u16/i16 value forth and back; reals incl. NaN, inf, 0.99999994, 1e-40 to all integer widths");
}
VH_MAIN(body())
