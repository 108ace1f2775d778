// C19: point-spread and defocus kernels and apertures against independent quadrature.
#include "cam.hpp"
#include <atomic>
#include <thread>
static thread_local vh::Rng R(1);
static D airy(D r, D lamN) { D a = 3.14159265358979323846 * r / lamN; if (a < 1e-8) return 1; D v = 2 * std::cyl_bessel_j(1.0, a) / a; return v * v; }
template <class T> static void psf_case(long idx, int radius)
{
    D N = R.lu(1.4, 40), px = R.lu(2e-6, 1.5e-5), py = R.chance(.5) ? px : px * R.u(.6, 1.6), f = R.lu(.01, 3); int banks = R.i(1, 4);
    vh::cur("airy N=%g px=%g py=%g radius=%d banks=%d", N, px, py, radius, banks);
    AiryDisk<T> p(units::Meter(f), units::Meter(px), units::Meter(py), units::Meter(f / N), radius, banks); constexpr size_t NB = T::size();
    VH_CHECK(p.get_radius() == radius && p.get_banks() == banks, "psf-size", "radius %d banks %d", p.get_radius(), p.get_banks());
    for (int k = 0; k < 60; ++k) { D x = R.u(-radius, radius), y = R.u(-radius, radius); if (k == 0) x = y = 0; if (k < 12) { x *= .05; y *= .05; } T v = p.evaluate((float)x, (float)y); vh::ev();
        for (size_t b = 0; b < NB; ++b) { D ref = airy(std::hypot((D)(float)x * px, (D)(float)y * py), (D)T::get_bin(b).center_wavelength * N); VH_CHECK(std::fabs(v[b] - ref) < 3e-6 + 4e-5 * ref, "airy", "intensity at (%g,%g) bin %zu: %.7g vs %.7g", x, y, b, v[b], ref); } }
    bool quad = radius <= 3 && idx % 2 == 0; int Q = 40, dim = 2 * radius + 1;
    for (int by = 0; by < banks; ++by) for (int bx = 0; bx < banks; ++bx) {
        auto sub = [&] { return R.chance(.3) ? (float)R.pick(std::vector<double>{1e-4, 2e-3, .9999, .998}) : (float)R.u(.02, .98); }; float u = ((float)bx + sub()) / (float)banks, v = ((float)by + sub()) / (float)banks; if (R.chance(.1) && bx == 0) u = -.3f; if (R.chance(.1) && by == banks - 1) v = 1.f;
        const Image<T>& k = p.get_kernel(u, v); vh::ev(); vh::distinct(vh::hash(N, px, py, bx, by, radius));
        VH_CHECK(k.width() == dim && k.height() == dim, "psf-dim", "kernel %dx%d for radius %d", k.width(), k.height(), radius);
        for (size_t b = 0; b < NB; ++b) {
            D s = 0, mx = 0, my = 0; bool neg = false; for (int y = 0; y < dim; ++y) for (int x = 0; x < dim; ++x) { D w = k(x, y)[b]; if (!(w >= 0)) neg = true; s += w; mx += w * (x - radius); my += w * (y - radius); }
            VH_CHECK(!neg, "psf-negative", "negative or NaN kernel value"); VH_CHECK(std::fabs(s - 1) < 2e-4, "psf-sum", "kernel bank (%d,%d) bin %zu sums to %.7g", bx, by, b, s);
            if (quad && ((bx + by) % 2 == 0 || banks < 3)) {
                D lamN = (D)T::get_bin(b).center_wavelength * N, core = 1.22 * lamN / std::max(px, py), ox = (D)bx / banks, oy = (D)by / banks; if (core < .3) { vh::count("psf-undersampled"); continue; }
                std::vector<D> ref((size_t)(dim * dim)); D tot = 0, rx = 0, ry = 0, peak = 0;
                for (int y = 0; y < dim; ++y) for (int x = 0; x < dim; ++x) { D a = 0; for (int j = 0; j < Q; ++j) for (int i = 0; i < Q; ++i) a += airy(std::hypot((x - radius - .5 + (i + .5) / Q - ox) * px, (y - radius - .5 + (j + .5) / Q - oy) * py), lamN); ref[(size_t)(y * dim + x)] = a; tot += a; rx += a * (x - radius); ry += a * (y - radius); }
                for (D& a : ref) { a /= tot; peak = std::max(peak, a); } rx /= tot; ry /= tot;
                D worst = 0; for (int y = 0; y < dim; ++y) for (int x = 0; x < dim; ++x) worst = std::max(worst, std::fabs(k(x, y)[b] - ref[(size_t)(y * dim + x)]));
                VH_CHECK(worst < .02 * peak, "psf-shape", "N=%g pitch %g %g radius %d bank (%d,%d)/%d bin %zu: kernel differs from the diffraction pattern by %.3g of the peak", N, px, py, radius, bx, by, banks, b, worst / peak);
                VH_CHECK(std::hypot(mx - rx, my - ry) < .02, "psf-centroid", "bank (%d,%d)/%d: centroid (%.4g,%.4g), diffraction pattern (%.4g,%.4g)", bx, by, banks, mx, my, rx, ry); vh::count("psf-quadrature");
            }
        }
    }
    auto all = p.get_all_kernels(); VH_CHECK((int)all.size() == banks * banks, "psf-banks", "%zu kernels for %d banks", all.size(), banks);
    vh::count("psf");
}
struct Fixed : Sampler<float> { Vec2<float> v; float get_1d() override { return v.x; } Vec2<float> get_2d() override { return v; } };
static void aperture_case()
{
    D dia = R.lu(1e-4, 5); CircularAperture<RGB> a{units::Meter(dia)};
    auto consistent = [&](D d) { D ar = 3.14159265358979 * d * d / 4; VH_CHECK(vh::near(a.get_diameter().to_si(), d, 3e-6) && vh::near(a.get_area().to_si(), ar, 3e-6) && vh::near(a.get_bounding_radius().to_si(), d / 2, 3e-6), "aperture-size", "diameter %g: reports %g, area %g (should be %g)", d, a.get_diameter().to_si(), a.get_area().to_si(), ar); vh::ev(); };
    consistent(dia); dia = R.lu(1e-4, 5); if (R.chance(.5)) a.set_diameter(units::Meter(dia)); else a.set_area(units::SquareMeter(3.14159265358979 * dia * dia / 4)); consistent(dia);
    D rad = dia / 2; Fixed F; auto at = [&](D x, D y) { F.v = {(float)x, (float)y}; auto s = a.sample(F); return P2{s.x / rad, s.y / rad}; };
    vh::cur("aperture diameter %g", dia);
    for (int k = 0; k < 40; ++k) { D x = R.u(), y = R.u(); if (R.chance(.2)) { static const D e[] = {0, .5, 1 - 1e-7, .25, .75}; x = e[R.below(5)]; } if (R.chance(.2)) { static const D e[] = {0, .5, 1 - 1e-7, .25, .75}; y = e[R.below(5)]; } P2 s = at(x, y); vh::ev();
        VH_CHECK(std::isfinite(s.x) && std::isfinite(s.y) && std::hypot(s.x, s.y) <= 1 + 1e-5, "aperture-outside", "u=(%.9g,%.9g) -> radius %.7g of the aperture", x, y, std::hypot(s.x, s.y));
        D h = 4e-3; D A = 2 * x - 1, B = 2 * y - 1; if (x < h || y < h || x > 1 - h || y > 1 - h || std::fabs(std::fabs(A) - std::fabs(B)) < 4 * h || std::fabs(A) < 4 * h || std::fabs(B) < 4 * h) continue; // smooth part of the map
        P2 px = at(x + h, y), mx = at(x - h, y), py = at(x, y + h), my = at(x, y - h); D det = ((px.x - mx.x) * (py.y - my.y) - (px.y - mx.y) * (py.x - my.x)) / (4 * h * h);
        VH_CHECK(std::fabs(std::fabs(det) / 3.14159265358979 - 1) < .02, "aperture-density", "sample density at u=(%g,%g) is %.4g of uniform", x, y, 3.14159265358979 / std::fabs(det)); vh::count("aperture-density"); }
}
static void aperture_hist(std::uint64_t seed)
{
    CircularAperture<RGB> a{units::Meter(2)}; RandomSampler<float> S((uint32_t)seed); int n = 64000; std::vector<int> h(64); D mr = 0;
    for (int i = 0; i < n; ++i) { auto s = a.sample(S); D r2 = (D)s.x * s.x + (D)s.y * s.y, t = std::atan2(s.y, s.x); mr += r2; int ring = std::min(7, (int)(r2 * 8)), sec = std::min(7, std::max(0, (int)((t + 3.14159265358979) / 6.283185307179586 * 8))); ++h[(size_t)(ring * 8 + sec)]; }
    D chi = 0; for (int c : h) chi += (c - n / 64.) * (c - n / 64.) / (n / 64.); vh::ev();
    VH_CHECK(chi < 63 + 8 * std::sqrt(126.), "aperture-uniform", "chi-square %.1f over 64 equal-area cells of the aperture", chi); VH_CHECK(std::fabs(mr / n - .5) < 8 * .2887 / std::sqrt((D)n), "aperture-moment", "mean r^2 %.5f", mr / n);
}
static void defocus_case()
{
    D f = R.lu(.01, 2), dia = f / R.lu(1.2, 20), px = R.lu(2e-6, 2e-5), py = R.chance(.5) ? px : px * R.u(.5, 2); int banks = R.i(1, 6);
    D target = R.chance(.15) ? R.u(.05, .6) : R.lu(.5, 22), dp = target * std::min(px, py) / (f * dia / 2) * (R.chance(.2) ? -1 : 1);
    CircularAperture<RGB> a{units::Meter(dia)}; if (R.chance(.3)) a.build_defocus_kernel(units::Diopter(3 * dp), units::Meter(f), units::Meter(px), units::Meter(py), 2); // stale cache first
    vh::cur("defocus f=%g D=%g px=%g py=%g diopters=%g banks=%d radius=%g px", f, dia, px, py, dp, banks, target);
    a.build_defocus_kernel(units::Diopter(dp), units::Meter(f), units::Meter(px), units::Meter(py), banks); vh::ev(); vh::distinct(vh::hash(f, dia, px, py, dp, banks));
    D rm = std::fabs(dp) * f * dia / 2, rx = rm / px, ry = rm / py;
    if (!a.has_defocus()) { VH_CHECK(std::max(rx, ry) < .51, "defocus-missing", "blur radius %.3g x %.3g px but no defocus kernel", rx, ry); VH_CHECK(vh::throws([&] { a.get_defocus_kernel(0, 0); }), "defocus-empty", "kernel returned without defocus"); vh::count("defocus-none"); return; }
    VH_CHECK(std::max(rx, ry) > .49, "defocus-extra", "blur radius %.3g px blurs", rx);
    int he = a.get_defocus_half_extent();
    for (int by = 0; by < banks; ++by) for (int bx = 0; bx < banks; ++bx) {
        const Image<float>& k = a.get_defocus_kernel(((float)bx + (float)R.pick(std::vector<double>{1e-4, .5, .9999})) / (float)banks, ((float)by + (float)R.pick(std::vector<double>{1e-4, .5, .9999})) / (float)banks); vh::ev(); int dim = k.width(); D ox = (D)bx / banks, oy = (D)by / banks;
        VH_CHECK(dim == 2 * he + 1 && k.height() == dim, "defocus-dim", "kernel %dx%d half extent %d", dim, k.height(), he);
        D s = 0, mx = 0, my = 0, qx = 0, qy = 0; bool neg = false; for (int y = 0; y < dim; ++y) for (int x = 0; x < dim; ++x) { D w = k(x, y); if (!(w >= 0)) neg = true; s += w; mx += w * (x - he); my += w * (y - he); }
        for (int y = 0; y < dim; ++y) for (int x = 0; x < dim; ++x) { D w = k(x, y); qx += w * (x - he - mx) * (x - he - mx); qy += w * (y - he - my) * (y - he - my); }
        VH_CHECK(!neg, "defocus-negative", "negative or NaN defocus kernel"); VH_CHECK(std::fabs(s - 1) < 2e-4, "defocus-sum", "defocus kernel sums to %.7g", s);
        D rmin = std::min(rx, ry), rmax = std::max(rx, ry);
        if (rmin >= .5) VH_CHECK(std::fabs(mx - ox) < .06 + .12 / rmin && std::fabs(my - oy) < .06 + .12 / rmin, "defocus-centroid", "radius %.3g x %.3g px, offset (%.3g,%.3g): centroid (%.4g,%.4g)", rx, ry, ox, oy, mx, my);
        if (rmin >= 2) { // a uniform disc: variance r^2/4 on each axis
            VH_CHECK(std::fabs(mx - ox) < .02 + .08 / rmin && std::fabs(my - oy) < .02 + .08 / rmin, "defocus-centroid", "radius %.3g x %.3g px, offset (%.3g,%.3g): centroid (%.4g,%.4g)", rx, ry, ox, oy, mx, my);
            VH_CHECK(std::fabs(std::sqrt(qx) / (rx / 2) - 1) < .05 + .12 / rx / rx && std::fabs(std::sqrt(qy) / (ry / 2) - 1) < .05 + .12 / ry / ry, "defocus-width", "radius %.4g x %.4g px: kernel spread %.4g x %.4g px", rx, ry, 2 * std::sqrt(qx), 2 * std::sqrt(qy));
            D area = 3.14159265358979 * rx * ry; for (int t = 0; t < 6; ++t) { int x = R.i(0, dim - 1), y = R.i(0, dim - 1); D e = std::hypot((x - he - ox) / rx, (y - he - oy) / ry); if (e < 1 - 1.2 / rmin) VH_CHECK(std::fabs(k(x, y) * area - 1) < .08, "defocus-flat", "inside the disc: %.4g of uniform", k(x, y) * area); if (e > 1 + 1.2 / rmin) VH_CHECK(k(x, y) == 0, "defocus-outside", "light outside the disc"); } vh::count("defocus-disc");
        }
        (void)rmax;
    }
    vh::count("defocus");
}
static void body()
{
    std::vector<std::function<void()>> jobs; std::uint64_t sd = vh::seed() * 31337;
    R = vh::Rng(sd); int few = getenv("VH_FEW") ? 1 : 0;
    for (long i = 0; i < (few ? vh::n(2, 10) : vh::n(24, 500)); ++i) { R = vh::Rng(sd + (std::uint64_t)i); int r = i == 5 ? 12 : i == 9 ? 24 : R.i(1, 4); if (i % 3 == 2) psf_case<Visible8>(i, std::min(r, 6)); else psf_case<RGB>(i, r); }
    { CircularAperture<RGB> a{units::Meter(.02)}; auto p = a.make_psf(units::Meter(.1), units::Meter(5e-6), units::Meter(5e-6), 2, 2); VH_CHECK(p && p->get_radius() == 2 && p->get_banks() == 2, "make-psf", "aperture psf"); for (float x : {.3f, 1.f, 1.7f}) { auto v = p->evaluate(x, 0); for (size_t b = 0; b < 3; ++b) VH_CHECK(std::fabs(v[b] - airy(x * 5e-6, (D)RGB::get_bin(b).center_wavelength * 5)) < 1e-5, "make-psf", "aperture psf is not the diffraction pattern of f/5"); } }
    for (long i = 0; i < (few ? vh::n(300, 3000) : vh::n(3000, 60000)); ++i) { R = vh::Rng(sd + 5000000 + (std::uint64_t)i); aperture_case(); }
    for (long i = 0; i < vh::n(3, 20); ++i) aperture_hist(sd + (std::uint64_t)i);
    for (long i = 0; i < (few ? vh::n(60, 600) : vh::n(900, 20000)); ++i) { R = vh::Rng(sd + 9000000 + (std::uint64_t)i); defocus_case(); }
    vh::sample(vh::fmt("%llu evaluations", (unsigned long long)vh::st().evals));
}
VH_MAIN(body())
