// C05: convolution against a direct long-double convolution, across both internal methods.
#include "vh.hpp"
#include "huira/core/types.hpp"
#include "huira/images/image.hpp"
using namespace huira;
using LD = long double;
static vh::Rng R(1);
template <class T> struct Ops { static constexpr int C = 1; static LD get(const T& p, int) { return p; } static void set(T& p, int, double v) { p = (T)v; } };
template <class S> struct Ops<Vec3<S>> { static constexpr int C = 3; static LD get(const Vec3<S>& p, int c) { return p[c]; } static void set(Vec3<S>& p, int c, double v) { p[c] = (S)v; } };
template <std::size_t N, auto... A> struct Ops<SpectralBins<N, A...>> { using P = SpectralBins<N, A...>; static constexpr int C = N; static LD get(const P& p, int c) { return p[(size_t)c]; } static void set(P& p, int c, double v) { p[(size_t)c] = (float)v; } };
static int ksize() { switch (R.below(6)) { case 0: return 1; case 1: return R.i(1, 5); case 2: return 2 * R.i(0, 6) + 1; case 3: return R.i(4, 7); default: return R.i(1, 14); } }
template <class T> Image<T> conv(const Image<T>& a, const Image<T>& k) { Image<T> r = a; r.convolve(k); return r; }
template <class T> void type(const char* tn)
{
    using O = Ops<T>;
    for (long it = 0; it < vh::n(300, 20000); ++it) {
        int w = R.chance(.1) ? R.i(1, 2) : R.i(1, 24), h = R.chance(.1) ? R.i(1, 2) : R.i(1, 24), kw = ksize(), kh = R.chance(.5) ? kw : ksize();
        if (R.chance(.1)) { kw = w + R.i(0, 6); kh = h + R.i(0, 6); }
        Image<T> a(w, h), b(w, h), k(kw, kh);
        bool sparse = R.chance(.3);
        for (int c = 0; c < O::C; ++c) {
            for (auto* im : {&a, &b}) for (size_t i = 0; i < im->size(); ++i) O::set((*im)[i], c, sparse && R.chance(.9) ? 0 : R.u(-1, 1));
            for (size_t i = 0; i < k.size(); ++i) O::set(k[i], c, R.u(-.2, 1));
            if (R.chance(.3)) for (size_t i = 0; i < k.size(); ++i) O::set(k[i], c, (double)(i + 1 + c) / (double)k.size()); // asymmetric ramp
        }
        vh::cur("%s %dx%d kernel %dx%d", tn, w, h, kw, kh); vh::distinct(vh::hash(w, h, kw, kh, (double)O::get(a[0], 0)));
        Image<T> r = conv(a, k); vh::count(kw * kh == 1 ? "method.1x1" : kw * kh <= 25 ? "method.small" : "method.large");
        VH_CHECK(r.width() == w && r.height() == h, "size-changed", "%s %dx%d -> %dx%d", tn, w, h, r.width(), r.height());
        for (int c = 0; c < O::C; ++c) {
            LD ks = 0; for (size_t i = 0; i < k.size(); ++i) ks += std::fabs(O::get(k[i], c)); LD tol = 3e-6L * ks + 1e-9L;
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                LD want = 0; for (int j = 0; j < kh; ++j) for (int i = 0; i < kw; ++i) { int sx = x - (i - kw / 2), sy = y - (j - kh / 2); if (sx >= 0 && sy >= 0 && sx < w && sy < h) want += O::get(a(sx, sy), c) * O::get(k(i, j), c); }
                LD g = O::get(r(x, y), c); vh::ev();
                VH_CHECK(std::fabs(g - want) <= tol, "convolution", "%s %dx%d kernel %dx%d ch %d at (%d,%d): %Lg want %Lg", tn, w, h, kw, kh, c, x, y, g, want);
            }
        }
        // linearity
        { Image<T> s(w, h); double al = R.u(-2, 2); for (int c = 0; c < O::C; ++c) for (size_t i = 0; i < s.size(); ++i) O::set(s[i], c, (double)(al * O::get(a[i], c) + O::get(b[i], c)));
          auto rs = conv(s, k), rb = conv(b, k); for (int c = 0; c < O::C; ++c) { LD ks = 0; for (size_t i = 0; i < k.size(); ++i) ks += std::fabs(O::get(k[i], c)); for (size_t i = 0; i < s.size(); ++i) VH_CHECK(std::fabs(O::get(rs[i], c) - al * O::get(r[i], c) - O::get(rb[i], c)) <= 2e-5L * ks + 1e-8L, "linearity", "%s kernel %dx%d", tn, kw, kh); } vh::ev(); }
        // centred impulse is the identity
        { Image<T> d(kw, kh); for (int c = 0; c < O::C; ++c) for (size_t i = 0; i < d.size(); ++i) O::set(d[i], c, 0); for (int c = 0; c < O::C; ++c) O::set(d(kw / 2, kh / 2), c, 1);
          auto ri = conv(a, d); for (int c = 0; c < O::C; ++c) for (size_t i = 0; i < a.size(); ++i) VH_CHECK(std::fabs(O::get(ri[i], c) - O::get(a[i], c)) <= 2e-6L, "identity", "%s %dx%d kernel %dx%d pixel %zu: %Lg want %Lg", tn, w, h, kw, kh, i, O::get(ri[i], c), O::get(a[i], c)); vh::ev(); }
        // total conserved away from the border
        { int W = w + 2 * kw, H = h + 2 * kh; Image<T> e(W, H); for (int c = 0; c < O::C; ++c) for (size_t i = 0; i < e.size(); ++i) O::set(e[i], c, 0); for (int c = 0; c < O::C; ++c) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) O::set(e(x + kw, y + kh), c, (double)std::fabs(O::get(a(x, y), c)));
          Image<T> kn = k; for (int c = 0; c < O::C; ++c) { LD s = 0; for (size_t i = 0; i < k.size(); ++i) s += std::fabs(O::get(k[i], c)); for (size_t i = 0; i < k.size(); ++i) O::set(kn[i], c, (double)(std::fabs(O::get(k[i], c)) / s)); }
          auto re = conv(e, kn); for (int c = 0; c < O::C; ++c) { LD s0 = 0, s1 = 0; for (size_t i = 0; i < e.size(); ++i) { s0 += O::get(e[i], c); s1 += O::get(re[i], c); } VH_CHECK(std::fabs(s0 - s1) <= 3e-6L * s0 + 1e-6L * std::sqrt((LD)W * H), "energy", "%s %dx%d kernel %dx%d: %Lg -> %Lg", tn, w, h, kw, kh, s0, s1); } vh::ev(); }
    }
    vh::sample(std::string(tn) + ": random images to 24x24, kernels 1x1..30x30, both methods");
}
void body()
{
    R = vh::Rng(vh::seed());
    type<float>("f32"); type<RGB>("RGB"); type<Visible8>("Visible8"); type<Vec3<float>>("vec3");
    { Image<std::uint8_t> a(3, 3), k(3, 3); VH_CHECK(vh::throws([&] { a.convolve(k); }), "integer-accepted", "u8"); vh::ev(); }
    { Image<float> a(200, 150, 0.f), k(101, 77, 0.f); for (int i = 0; i < 60; ++i) a(R.i(0, 199), R.i(0, 149)) = R.f(); for (size_t i = 0; i < k.size(); ++i) k[i] = R.f(); auto r = conv(a, k);
      for (int t = 0; t < 200; ++t) { int x = R.i(0, 199), y = R.i(0, 149); LD w = 0; for (int j = 0; j < 77; ++j) for (int i = 0; i < 101; ++i) { int sx = x - (i - 50), sy = y - (j - 38); if (sx >= 0 && sy >= 0 && sx < 200 && sy < 150) w += (LD)a(sx, sy) * k(i, j); } vh::ev(); VH_CHECK(std::fabs(r(x, y) - w) < 1e-4L, "convolution-large", "(%d,%d) %g want %Lg", x, y, r(x, y), w); } }
}
VH_MAIN(body())
