// C24: sphere lights against long-double geometry of the cone they subtend, at every distance.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using F3 = Vec3<float>;
static const L PI_ = std::acos(-1.L); static const float LAST = 0x1.fffffep-1f;
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
struct Two : Sampler<float> { float a, b; int k = 0; Two(float x, float y) : a(x), b(y) {} float get_1d() override { return k++ % 2 ? b : a; } Vec2<float> get_2d() override { return {a, b}; } };
template <class T> static T rspec() { T t{0.f}; float s = (float)R.lu(1e-6, 1e9); for (size_t i = 0; i < T::size(); ++i) t[i] = R.chance(.1) ? 0.f : s * (float)R.u(.01, 1); return t; }
template <class T> static void made(const SphereLight<T>& l, const T& want, const char* how) { T g = l.radiance({}, {}); for (size_t i = 0; i < T::size(); ++i) VH_CHECK(std::abs((L)g[i] - want[i]) <= 3e-6L * std::abs((L)want[i]), "radiance", "%s: bin %zu has radiance %g, expected %g", how, i, (double)g[i], (double)want[i]); vh::ev(); }
template <class T> static void light()
{
    auto sp = std::make_unique<Scene<T>>(); auto& s = *sp; double rr = R.lu(1e-3, 1e9); float r = (float)rr; L area = 4 * PI_ * (L)r * r; units::Meter rm(rr); T q = rspec<T>(); double pw = R.lu(1e-3, 1e26);
    auto in = [&](LightHandle<T> h) { return std::dynamic_pointer_cast<SphereLight<T>>(h.get()); }; std::vector<std::shared_ptr<SphereLight<T>>> ls; vh::cur("constructors radius %g power %g", rr, pw);
    bool viascene = R.chance(.5); using Rad = units::SpectralWattsPerMeterSquaredSteradian<T>; using Pow = units::SpectralWatts<T>;
    ls.push_back(viascene ? in(s.new_sphere_light(rm, Rad(q))) : std::make_shared<SphereLight<T>>(rm, Rad(q))); made(*ls.back(), q, "radiance");
    ls.push_back(viascene ? in(s.new_sphere_light(rm, Pow(q))) : std::make_shared<SphereLight<T>>(rm, Pow(q))); { T w{0.f}; for (size_t i = 0; i < T::size(); ++i) w[i] = (float)((L)q[i] / (PI_ * area)); made(*ls.back(), w, "spectral power"); }
    ls.push_back(viascene ? in(s.new_sphere_light(rm, units::Watt(pw))) : std::make_shared<SphereLight<T>>(rm, units::Watt(pw)));
    { T g = ls.back()->radiance({}, {}); L tot = 0, width = 0; for (size_t i = 0; i < T::size(); ++i) { tot += g[i]; width += T::get_bin(i).max_wavelength - T::get_bin(i).min_wavelength; } VH_CHECK(std::abs(tot * PI_ * area / pw - 1) < 1e-5L, "power", "a light of %g W emits %Lg W over all bins", pw, tot * PI_ * area); for (size_t i = 0; i < T::size(); ++i) { L f = (T::get_bin(i).max_wavelength - T::get_bin(i).min_wavelength) / width; VH_CHECK(std::abs(g[i] / tot - f) < 1e-5L, "power-split", "bin %zu carries %Lg of the power, its width is %Lg of the band", i, g[i] / tot, f); } vh::ev(); }
    double K = R.u(500, 12000); ls.push_back(std::make_shared<SphereLight<T>>(rm, units::Kelvin(K))); made(*ls.back(), black_body<T>(K, 1000), "temperature");
    for (double bad : {-1., (double)NAN, (double)INFINITY}) VH_CHECK(vh::throws([&] { SphereLight<T> x(rm, units::Watt(bad)); }), "invalid", "a light of %g W was accepted", bad);
    auto l = ls[R.below(ls.size())]; T rad = l->radiance({}, {}); VH_CHECK(std::abs(l->radius().to_si() / rr - 1) < 1e-6, "radius", "%g, set %g", l->radius().to_si(), rr);
    for (int j = 0; j < 12; ++j)
    {
        double ratio = R.chance(.15) ? 1 + R.lu(1e-4, .1) : R.chance(.1) ? R.u(0, .9999) : 1 + R.lu(.05, 1e7); Interaction<T> is{}; V pos = R.chance(.3) ? V{0, 0, 0} : rv((L)(ratio * rr * R.u(0, 1.5))); is.position = ff(pos); V w = un(rv(1)); if (R.chance(.1)) w = {0, 0, R.chance(.5) ? 1.L : -1.L}; if (R.chance(.1)) w = un(V{(L)R.u(-.05, .05), (L)R.u(-.05, .05), 1});
        Transform<float> tf; tf.position = ff(fv(is.position) + (L)(ratio * rr) * w); V c = fv(tf.position) - fv(is.position); L d = len(c), e = 1.2e-7L * (len(fv(tf.position)) + len(fv(is.position))) / d + 2e-7L; // rounding of the offset
        vh::cur("r=%g d/r=%.7g position (%g,%g,%g) light (%g,%g,%g)", rr, ratio, is.position.x, is.position.y, is.position.z, tf.position.x, tf.position.y, tf.position.z); L x = d / r; T irr = l->irradiance_at(is.position, tf); vh::ev();
        if (x < 1 - 4 * e) { VH_CHECK(irr == T{0.f}, "inside", "irradiance %g inside the light", (double)irr[0]); Two u(.3f, .4f); VH_CHECK(!l->sample_li(is, tf, u) && l->pdf_li(is, tf, ff(w)) == 0, "inside", "a point inside the light is lit"); vh::count("inside"); continue; }
        if (x < 1 + 40 * e) continue; L tol = 6e-6L + 4 * e; for (size_t i = 0; i < T::size(); ++i) { L want = rad[i] * PI_ / (x * x); VH_CHECK(std::abs(irr[i] - want) <= tol * want + 1e-37L, "irradiance", "%g at %Lg radii, expected %Lg", (double)irr[i], x, want); }
        L cm = std::sqrt((x - 1) * (x + 1)) / x, omc = 1 / (x * x) / (1 + cm), sa = 2 * PI_ * omc; tol += 4 * e / (x - 1) * omc / (1 + x) ; V cu = un(c);
        for (int k = 0; k < 10; ++k)
        {
            auto pick = [] { double z = R.f(); return z < .12 ? 0.f : z < .24 ? LAST : R.f(); }; Two u(pick(), pick()); auto sm = l->sample_li(is, tf, u); vh::ev(); if (!sm) { VH_FAIL("no-sample", "no sample %Lg radii from the light", x); continue; }
            V wi = fv(sm->wi); L ct = dot(wi, cu), off = len(cross(c, wi)); VH_CHECK(std::isfinite(ct) && std::abs(len(wi) - 1) < 2e-6L, "unit", "direction of length %Lg", len(wi)); L miss = 1 + 2e-5L + 5e-7L * x + e * x; VH_CHECK(ct > 0 && off <= r * miss, "misses", "sampled ray passes the centre at %Lg radii (u=%g,%g)", off / r, u.a, u.b);
            VH_CHECK(sm->Li == rad, "Li", "sample radiance differs from the light's"); VH_CHECK(std::abs(sm->pdf * sa - 1) < tol + 2e-5L + 8 * e * (x < 2 ? 1 / (x - 1) : 0) * omc, "pdf", "sample density %g, one over the solid angle is %Lg", (double)sm->pdf, 1 / sa);
            float pq = l->pdf_li(is, tf, sm->wi); if (off < r * (1 - 3e-5L - 8e-7L * x - e * x)) VH_CHECK(std::abs(pq - sm->pdf) <= 1e-5f * sm->pdf, "pdf-mismatch", "density query %g, sample %g at %Lg radii (u=%g,%g)", (double)pq, (double)sm->pdf, x, u.a, u.b);
            // the distance ends on the near side of the surface
            L D = sm->distance, near = d * ct, s2 = (L)r * r - off * off; L want = near - std::sqrt(std::max(0.L, s2)), slack = 3e-6L * d + e * d + r * std::sqrt(2 * (miss - 1)) + (s2 > 0 ? (e + 3e-7L) * d * off / std::sqrt(s2 + r * r * 1e-9L) : 0); slack = std::min(slack, 3e-6L * d + e * d + r * 1.01L); VH_CHECK(D > 0 && std::abs(D - want) <= slack, "distance", "%Lg, the surface is %Lg away (slack %Lg)", D, want, slack);
            // density query for arbitrary directions
            V z = R.chance(.5) ? un(cu + (L)R.lu(1e-2, 100) / x * un(rv(1))) : R.chance(.3) ? -1.L * cu : un(rv(1)); F3 zf = ff(z); z = un(fv(zf)); L o = len(cross(c, z)); bool hit = dot(c, z) > 0 && o < r; if (std::abs(o / r - 1) < miss - 1 + 1e-4L) continue; float pz = l->pdf_li(is, tf, zf); VH_CHECK(hit ? std::abs(pz * sa - 1) < tol + 4e-5L + 8 * e * (x < 2 ? 1 / (x - 1) : 0) * omc : pz == 0, "pdf-query", "density %g for a ray passing at %Lg radii, solid angle %Lg", (double)pz, o / r, sa);
        }
        vh::distinct(vh::hash(r, tf.position.x, is.position.y)); vh::count(x < 1.1L ? "close" : x < 1e3L ? "medium" : "far");
    }
    // samples fill the cone evenly and average to the irradiance of a facing and of a tilted surface
    double ratio = 1 + R.lu(1e-2, 1e4); Interaction<T> is{}; Transform<float> tf; V w = un(rv(1)); tf.position = ff((L)(ratio * rr) * w); V c = fv(tf.position); L d = len(c), x = d / r, cm = std::sqrt((x - 1) * (x + 1)) / x, omc = 1 / (x * x) / (1 + cm); V cu = un(c), side = un(cross(cu, un(rv(1)))), up = cross(cu, side); L tilt = (L)R.u(0, 1) * std::asin(cm); V n = std::cos(tilt) * cu + std::sin(tilt) * side;
    vh::cur("cone r=%g d/r=%g", rr, ratio); const int N = 64, B = 4; L bin[B][B] = {}, e0 = 0, e1 = 0; for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) { Two u(((float)a + R.f()) / N, ((float)b + R.f()) / N); auto m = l->sample_li(is, tf, u); if (!m) continue; V wi = fv(m->wi); L o = len(cross(cu, wi)), q1 = o * o / (1 + std::sqrt(std::max(0.L, 1 - o * o))) / omc, ph = std::atan2(dot(wi, up), dot(wi, side)) / (2 * PI_) + .5L; bin[std::clamp((int)(q1 * B), 0, B - 1)][std::clamp((int)(ph * B), 0, B - 1)] += 1.L / (N * N); e0 += dot(wi, cu) / m->pdf / (N * N); e1 += dot(wi, n) / m->pdf / (N * N); }
    if (ratio < 2e4) for (auto& row : bin) for (L y : row) VH_CHECK(std::abs(y * B * B - 1) < .12L, "spread", "a sixteenth of the cone gets %Lg of the samples at %Lg radii", y, x); L s2 = PI_ / (x * x); VH_CHECK(std::abs(e0 / s2 - 1) < 3e-3L, "average", "samples average to %Lg of the irradiance", e0 / s2); VH_CHECK(std::abs(e1 - s2 * std::cos(tilt)) < 5e-3L * s2, "average-tilted", "samples average to %Lg, tilted irradiance %Lg", e1, s2 * std::cos(tilt)); vh::count("cones");
}
template <class T> static void sun() { auto sp = std::make_unique<Scene<T>>(); auto l = std::dynamic_pointer_cast<SphereLight<T>>(sp->new_sun_light().get()); vh::cur("sun"); VH_CHECK(std::abs(l->radius().to_si() / 6.957e8 - 1) < 1e-6, "sun-radius", "%g", l->radius().to_si()); made(*l, black_body<T>(5800, 1000), "sun"); Transform<float> tf; tf.position = {0, 149597870700.f, 0}; T e = l->irradiance_at({0, 0, 0}, tf); L tot = 0; for (size_t i = 0; i < T::size(); ++i) tot += e[i]; VH_CHECK(tot > 400 && tot < 700, "sun-irradiance", "visible sunlight at one au is %Lg W/m2", tot); }
static void body()
{
    R = vh::Rng(vh::seed() * 31 + 24); sun<Visible8>();
    for (int i = 0, N = vh::n(400, 12000); i < N; ++i) { vh::watchdog(30); light<RGB>(); if (i % 4 == 0) light<Visible8>(); }
}
VH_MAIN(body())
