// C11: radiometric formulas against independent long-double evaluations.
#include "vh.hpp"
#include "huira/core/physics.hpp"
#include "huira/core/constants.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira;
using LD = long double;
static const LD h = 6.62607015e-34L, c = 299792458.0L, kB = 1.380649e-23L, PIL = 3.14159265358979323846264338327950288L;
static vh::Rng R(1);
static LD planck(LD T, LD l) { return 2 * h * c * c / (l * l * l * l * l) / std::expm1(h * c / (l * kB * T)); }
static LD simpson(LD T, LD a, LD b, int n = 400) { LD s = 0, d = (b - a) / n; for (int i = 0; i <= n; ++i) s += planck(T, a + i * d) * (i == 0 || i == n ? 1 : (i & 1 ? 4 : 2)); return s * d / 3; }
template <class S> void bb(const char* name)
{
    for (long it = 0; it < vh::n(60, 3000); ++it) {
        double T = R.lu(300, 40000); int steps = R.i(2, 300); vh::cur("%s T=%.17g steps=%d", name, T, steps); vh::ev(); vh::distinct(vh::hash(T, steps));
        auto r = black_body<S>(T); auto r2 = black_body<S>(T * R.u(1.01, 1.5)); auto rs = black_body<S>(T, (size_t)steps);
        LD wantT = 0;
        for (size_t i = 0; i < S::size(); ++i) {
            auto b = S::get_bin(i); LD w = simpson(T, b.min_wavelength, b.max_wavelength); wantT += w;
            LD lt = b.min_wavelength * T, tol = lt < 2e-3L ? (lt < 2e-4L ? 0.05L : 2e-2L) : 1e-3L; // trapezoid with 100 samples on a steep Wien tail
            if (w > 1e-30L) {
                LD e = std::fabs((LD)r[i] - w) / w;
                VH_CHECK(e < tol, "black-body-band", "%s T=%g bin %zu: %g want %Lg (rel %Lg)", name, T, i, r[i], w, e);
                VH_CHECK(r2[i] > r[i], "black-body-increasing", "%s T=%g bin %zu", name, T, i);
            }
            VH_CHECK(std::isfinite(rs[i]) && rs[i] >= 0, "black-body-steps", "%s T=%g steps=%d bin %zu: %g", name, T, steps, i, rs[i]);
            if (steps > 60 && w > 1e-30L) VH_CHECK(std::fabs((LD)rs[i] - w) / w < tol * 4, "black-body-steps", "%s T=%g steps %d bin %zu", name, T, steps, i);
        }
    }
    for (int st = 0; st < 2; ++st) { auto z = black_body<S>(5778.0, (size_t)st); for (auto x : z) VH_CHECK(std::isfinite(x), "black-body-steps", "%s steps=%d gives %g", name, st, x); }
    // magnitudes
    for (long it = 0; it < vh::n(60, 2000); ++it) {
        double m = R.u(-30, 25), dm = R.u(0.01, 10); vh::cur("%s mag %.17g", name, m); vh::ev();
        S alb; for (auto& x : alb) x = R.f();
        auto e0 = visual_magnitude_to_irradiance<S>(m), e1 = visual_magnitude_to_irradiance<S>(m + dm), ea = visual_magnitude_to_irradiance<S>(m, alb);
        for (size_t i = 0; i < S::size(); ++i) {
            VH_CHECK(e0[i] > 0 && std::isfinite(e0[i]), "magnitude-positive", "%s m=%g bin %zu %g", name, m, i, e0[i]);
            VH_CHECK(vh::near(e1[i] / e0[i], std::pow(10.0, -0.4 * dm), 3e-6), "magnitude-ratio", "%s m=%g dm=%g bin %zu ratio %g", name, m, dm, i, e1[i] / e0[i]);
            VH_CHECK(vh::near(ea[i], e0[i] * alb[i], 3e-6, 1e-37), "magnitude-albedo", "%s", name);
        }
    }
    { // zero point: sunlight, as much of it as gives the photon flux of magnitude zero in the V band
        auto e0 = visual_magnitude_to_irradiance<S>(0.0); LD wv = 0;
        for (int i = 0; i < 4000; ++i) { LD l = 350e-9L + (i + .5L) * 500e-9L / 4000, d = (l - 551e-9L) / 38e-9L; wv += planck(5778, l) / (h * c / l) * std::exp(-d * d / 2) * 500e-9L / 4000; }
        for (size_t i = 0; i < S::size(); ++i) { auto b = S::get_bin(i); LD want = 8.75e9L * simpson(5778, b.min_wavelength, b.max_wavelength, 2000) / wv; vh::ev(); VH_CHECK(std::fabs(e0[i] - want) / want < 3e-3L, "magnitude-zero-point", "%s bin %zu: %g W/m2 of a star like the Sun of magnitude 0, expected %Lg", name, i, e0[i], want); }
    }
}
void body()
{
    R = vh::Rng(vh::seed());
    for (long it = 0; it < vh::n(20000, 1000000); ++it) {
        double l = R.lu(1e-9, 1e-2); vh::ev(); VH_CHECK(vh::near(photon_energy(l), (double)(h * c / l), 1e-14), "photon-energy", "lambda %g", l);
        double T = R.lu(3, 50000); std::vector<double> ls{R.lu(1e-8, 1e-2), R.lu(1e-8, 1e-2), R.lu(1e-8, 1e-2)}; vh::cur("T=%.17g lambda=%.17g", T, ls[0]);
        auto r = plancks_law(T, ls), r2 = plancks_law(T * 1.001, ls);
        VH_CHECK(r.size() == 3, "planck-size", "%zu", r.size());
        for (int i = 0; i < 3; ++i) {
            LD w = planck(T, ls[i]); vh::ev(); vh::distinct(vh::hash(T, ls[i]));
            LD x = h * c / (ls[i] * kB * T);
            if (x < 690) { VH_CHECK(std::fabs(r[i] - w) <= w * (1e-13L + 4e-16L / x + 4e-16L * x), "planck", "T=%g l=%g: %.17g want %.17Lg", T, ls[i], r[i], w); VH_CHECK(r[i] > 0 && r2[i] > r[i], "planck-monotone", "T=%g l=%g", T, ls[i]); }
            else VH_CHECK(r[i] >= 0 && std::isfinite(r[i]), "planck-tail", "T=%g l=%g %g", T, ls[i], r[i]);
        }
    }
    for (long it = 0; it < vh::n(300, 5000); ++it) { // Wien and Stefan-Boltzmann from the code's own spectrum
        double T = R.lu(50, 50000); vh::cur("T=%.17g", T); vh::ev();
        double lp = 2.897771955e-3 / T; std::vector<double> ls; int n = 4000; for (int i = 0; i <= n; ++i) ls.push_back(lp * std::exp(std::log(0.05) + i * (std::log(2000.0) - std::log(0.05)) / n));
        auto r = plancks_law(T, ls); size_t k = std::max_element(r.begin(), r.end()) - r.begin();
        VH_CHECK(std::fabs(ls[k] / lp - 1) < 4e-3, "wien", "T=%g peak %g want %g", T, ls[k], lp);
        double tot = integrate(ls, r) * (double)PIL, sb = 5.670374419e-8 * T * T * T * T;
        VH_CHECK(vh::near(tot, sb, 2e-4), "stefan-boltzmann", "T=%g: %g want %g", T, tot, sb);
    }
    bb<RGB>("RGB"); bb<Visible8>("Visible8"); bb<SWIR8>("SWIR8"); bb<SpectralBins<3, 600, 700, 500, 600, 400, 500>>("Descending"); bb<SpectralBins<3, 400, 450, 500, 600, 800, 900>>("Gapped"); bb<SpectralBins<3, 800, 900, 400, 450, 520, 530>>("Shuffled"); bb<UniformSpectralBins<1, 400, 700>>("Uniform1");
    for (long it = 0; it < vh::n(2000, 50000); ++it) { // numeric helpers
        size_t n = R.chance(.2) ? (size_t)R.i(0, 2) : (size_t)R.i(3, 300); double a = R.u(-1e3, 1e3), b = R.u(-1e3, 1e3); vh::cur("linspace(%.17g,%.17g,%zu)", a, b, n); vh::ev();
        auto v = linspace(a, b, n); VH_CHECK(v.size() == n, "linspace-size", "%zu", n);
        for (size_t i = 0; i < n; ++i) { double w = n == 1 ? a : a + (b - a) * (double)i / (double)(n - 1); VH_CHECK(vh::near(v[i], w, 1e-12, 1e-10), "linspace", "N=%zu [%zu]=%g want %g", n, i, v[i], w); }
        std::vector<double> x, y; double t = R.u(-10, 10); size_t m = R.chance(.2) ? (size_t)R.i(0, 2) : (size_t)R.i(3, 40); LD want = 0;
        for (size_t i = 0; i < m; ++i) { x.push_back(t += R.lu(1e-3, 10)); y.push_back(R.gauss()); if (i) want += ((LD)x[i] - x[i - 1]) * ((LD)y[i] + y[i - 1]) / 2; }
        vh::cur("integrate of %zu points", m); double g = integrate(x, y); VH_CHECK(vh::near(g, (double)want, 1e-12, 1e-10), "integrate", "%zu points: %g want %Lg", m, g, want);
        double vb = R.u(-30, 30), dm = R.u(.1, 5); VH_CHECK(vh::near(v_band_irradiance(vb + dm) / v_band_irradiance(vb), std::pow(10, -.4 * dm), 1e-12), "v-band-ratio", "m=%g", vb);
    }
    VH_CHECK(vh::near(v_band_irradiance(0), 8.75e9, 1e-12), "v-band-zero", "%g", v_band_irradiance(0));
    { size_t n = 1000; std::vector<double> l; auto e = johnson_vband_approximation(n, l); VH_CHECK(l.size() == n && e.size() == n, "v-band-size", "x"); for (size_t i = 0; i < n; ++i) { double d = (l[i] - 551e-9) / 38e-9; VH_CHECK(vh::near(e[i], std::exp(-d * d / 2), 1e-9, 1e-300) && (i == 0 || l[i] > l[i - 1]), "v-band-response", "%zu", i); } VH_CHECK(vh::near(l[0], 350e-9, 1e-12) && vh::near(l[n - 1], 850e-9, 1e-12), "v-band-range", "%g %g", l[0], l[n - 1]); }
    // aberration
    for (long it = 0; it < vh::n(40000, 2000000); ++it) {
        auto un = [] { double x, y, z, n; do { x = R.gauss(); y = R.gauss(); z = R.gauss(); n = std::sqrt(x * x + y * y + z * z); } while (n < 1e-6); return Vec3<double>(x / n, y / n, z / n); };
        Vec3<double> u = un(), d = un(); if (R.chance(.1)) u = d; else if (R.chance(.05)) u = -d;
        double beta = R.chance(.1) ? 0 : R.chance(.3) ? R.u(0, .99) : R.lu(1e-7, .999); Vec3<double> v = d * (beta * 299792458.0);
        vh::cur("u=(%.17g,%.17g,%.17g) beta=%.17g d=(%.17g,%.17g,%.17g)", u.x, u.y, u.z, beta, d.x, d.y, d.z); vh::ev(); vh::distinct(vh::hash(u.x, d.x, beta));
        auto g = compute_aberrated_direction(u, v);
        LD ca = (LD)u.x * d.x + (LD)u.y * d.y + (LD)u.z * d.z, len = std::sqrt((LD)g.x * g.x + (LD)g.y * g.y + (LD)g.z * g.z);
        LD amp = 1 / (1 - (LD)beta); // conditioning when looking backwards at relativistic speed
        VH_CHECK(std::fabs(len - 1) < 1e-14L * amp * 4 + 1e-14L, "aberration-unit", "beta=%g: |u'|-1=%Lg", beta, len - 1);
        LD gam = 1 / std::sqrt((1 - (LD)beta) * (1 + (LD)beta)), par = ((ca + beta) / (1 + beta * ca)), gp = (LD)g.x * d.x + (LD)g.y * d.y + (LD)g.z * d.z;
        VH_CHECK(std::fabs(gp - par) < 1e-13L * amp, "aberration-angle", "beta=%g cos=%Lg: cos'=%.17Lg want %.17Lg", beta, ca, gp, par);
        LD k = 1 / (gam * (1 + beta * ca)); // transverse part keeps its direction
        for (int i = 0; i < 3; ++i) { LD w = k * ((LD)u[i] - ca * d[i]) + par * d[i]; VH_CHECK(std::fabs(g[i] - w) < 1e-13L * amp, "aberration-direction", "beta=%g", beta); }
        if (beta == 0) VH_CHECK(g == u, "aberration-identity", "x");
        double fast = R.chance(.3) ? 1.0 : R.lu(1.0, 1e3);
        VH_CHECK(vh::throws([&] { (void)compute_aberrated_direction(u, d * (fast * 1.0000001 * 299792458.0)); }), "aberration-superluminal-accepted", "beta=%g", fast);
        // invertible: undoing with -v seen from the moving frame
        if (beta < .99) { auto b2 = compute_aberrated_direction(g, -v); LD e = std::fabs(b2.x - u.x) + std::fabs(b2.y - u.y) + std::fabs(b2.z - u.z); VH_CHECK(e < 1e-12L * amp * amp, "aberration-inverse", "beta=%g: %Lg", beta, e); }
    }
    VH_CHECK(SPEED_OF_LIGHT<double>() == 299792458.0 && AU<double>() == 149597870700.0 && vh::near(H_PLANCK<double>(), 6.62607015e-34, 1e-15) && vh::near(K_BOLTZ<double>(), 1.380649e-23, 1e-15) && PI<double>() == M_PI && HALF_PI<double>() == M_PI / 2 && vh::near(INV_PI<double>(), 1 / M_PI, 1e-15), "constants", "x");
    vh::sample("beta 0.73 looking 140 deg off the velocity: direction against cos' = (cos+b)/(1+b cos)");
}
VH_MAIN(body())
