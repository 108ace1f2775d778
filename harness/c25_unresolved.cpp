// C25: irradiance received from unresolved objects against closed forms.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using F3 = Vec3<float>;
static const L PI_ = std::acos(-1.L);
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
static Time now() { return Time::from_et(0.); }
template <class T> static T rspec(float lo, float hi) { T t{0.f}; for (size_t i = 0; i < T::size(); ++i) t[i] = R.chance(.1) ? lo : (float)R.u(lo, hi); return t; }
static L lam(L a) { return (std::sin(a) + (PI_ - a) * std::cos(a)) / PI_; }
template <class T> static void same(const T& got, const T& per_unit, L k, L tol, const char* key, const char* what) { for (size_t i = 0; i < T::size(); ++i) { L w = per_unit[i] * k; VH_CHECK(std::isfinite(got[i]) && got[i] >= 0 && std::abs(got[i] - w) <= tol * w + 1e-37L, key, "%s: bin %zu receives %.8g, expected %.8Lg", what, i, (double)got[i], w); } vh::ev(); }
struct Geo { V obj, light; L d, r, phase; };
static Geo geo(L rs, bool far)
{
    Geo g; L d = (L)R.lu(far ? 1e8 : 1, 1e13), rl = (L)R.lu(far ? 1e9 : (double)rs * 1.01, 1e13); V o = un(rv(1)); L ph = R.chance(.12) ? 0 : R.chance(.12) ? PI_ : R.chance(.2) ? (L)R.lu(1e-6, .1) : R.chance(.2) ? PI_ - (L)R.lu(1e-6, .1) : (L)R.u(0, 3.14159); V s = un(cross(o, un(rv(1))));
    if (R.chance(.15)) { o = {0, 0, R.chance(.5) ? 1.L : -1.L}; s = {1, 0, 0}; } V l = std::cos(ph) * (-1.L * o) + std::sin(ph) * s; g.obj = fv(ff(d * o)); g.light = fv(ff(g.obj + rl * l)); V tl = fv(ff(g.light)) - g.obj; g.d = len(g.obj); g.r = len(tl); V a = -1.L * g.obj; g.phase = std::atan2(len(cross(a, tl)), dot(a, tl)); return g;
}
template <class T> struct W { std::unique_ptr<Scene<T>> s = std::make_unique<Scene<T>>(); std::shared_ptr<SphereLight<T>> light, other; std::unique_ptr<InstanceHandle<T>> li, oi; T rad{0.f}; L lr; };
template <class T> static std::vector<LightInstance<T>> lights(W<T>& w, const V& at) { std::vector<LightInstance<T>> v; auto add = [&](std::shared_ptr<Light<T>> l, F3 p) { Transform<float> t; t.position = p; v.push_back({l, {t}}); }; if (R.chance(.5)) add(w.other, ff(rv(1e9L))); add(w.light, ff(at)); if (R.chance(.5)) add(w.other, ff(rv(1e9L))); return v; }
template <class T> static Transform<float> tf(const V& p) { Transform<float> t; t.position = ff(p); return t; }
template <class T> static void cases()
{
    W<T> w; w.lr = (float)R.lu(.01, 1e9); w.rad = rspec<T>(.1f, 1.f) * (float)R.lu(1, 1e7); vh::cur("set-up"); units::SpectralWattsPerMeterSquaredSteradian<T> q(w.rad); auto lh = w.s->new_sphere_light(units::Meter((double)w.lr), q), oh = w.s->new_sphere_light(units::Meter(5.), q); w.light = std::dynamic_pointer_cast<SphereLight<T>>(lh.get()); w.other = std::dynamic_pointer_cast<SphereLight<T>>(oh.get()); w.li = std::make_unique<InstanceHandle<T>>(w.s->root.new_instance(lh)); w.oi = std::make_unique<InstanceHandle<T>>(w.s->root.new_instance(oh));
    auto via = [&](auto h, auto make) { return R.chance(.5) ? h().get() : std::shared_ptr<UnresolvedObject<T>>(make()); };
    for (int j = 0; j < 6; ++j)
    { // Lambertian sphere
        L rs = (float)R.lu(1e-2, 1e7); T al = rspec<T>(0, 1); bool gray = R.chance(.4); float ga = R.f(); if (gray) al = T{ga}; Geo g = geo(w.lr, false); vh::cur("sphere R=%Lg d=%Lg r=%Lg phase=%.9Lg", rs, g.d, g.r, g.phase); if (g.r < w.lr * 1.001L) continue; units::Meter rm((double)rs);
        std::shared_ptr<UnresolvedObject<T>> o = gray ? via([&] { return w.s->new_unresolved_sphere(rm, *w.li, ga); }, [&] { return new UnresolvedLambertianSphere<T>(rm, *w.li, ga); }) : via([&] { return w.s->new_unresolved_sphere(rm, *w.li, al); }, [&] { return new UnresolvedLambertianSphere<T>(rm, *w.li, al); });
        try { o->resolve_irradiance(tf<T>(g.obj), lights(w, g.light)); } catch (const std::exception& e) { VH_FAIL("sphere-throws", "%s", e.what()); continue; }
        L k = 2 / 3.L * PI_ * (w.lr / g.r) * (w.lr / g.r) * (rs / g.d) * (rs / g.d) * lam(g.phase), e = 3e-7L * (1 + len(g.obj) / g.r + len(g.light) / g.r), da = std::min(1e-3L, 4e-7L / std::max(1e-9L, std::sin(std::min(g.phase, PI_ - g.phase)))) + 2 * e; L f = lam(g.phase), slope = (PI_ - g.phase) * std::sin(g.phase) / PI_, df = slope * da + da * da + 3e-8L; T u = w.rad * al; T got = o->get_irradiance(now());
        for (size_t i = 0; i < T::size(); ++i) { L want = u[i] * k, t = (2e-5L + 8 * e) * want + (f > 0 ? u[i] * k / f * df : 0) + 1e-36L; if (f < 1e-9L) t += u[i] * 2 / 3.L * PI_ * std::pow(w.lr / g.r * (rs / g.d), 2) * df; VH_CHECK(std::isfinite(got[i]) && got[i] >= 0 && std::abs(got[i] - want) <= t, "sphere", "bin %zu receives %.8g, expected %.8Lg", i, (double)got[i], want); } vh::ev(); vh::distinct(vh::hash((float)g.phase, (float)g.d, 1)); vh::count("spheres");
    }
    { // energy sent in all directions is what fell on the sphere times the albedo
        L rs = (float)R.lu(.1, 1e3); T al = rspec<T>(.1f, 1.f); L d = (L)R.lu(1e4, 1e6), r = w.lr * (L)R.u(3, 100) + rs; UnresolvedLambertianSphere<T> o(units::Meter((double)rs), *w.li, al); vh::cur("energy of a sphere R=%Lg", rs); V ldir = un(rv(1)); T sum{0.f}; std::vector<L> s(T::size(), 0); const int N = 24, P = 24; V a = un(cross(ldir, un(rv(1)))), b = cross(ldir, a);
        for (int i = 0; i < N; ++i) for (int j = 0; j < P; ++j) { L z = -1 + 2 * (i + .5L) / N, ph = 2 * PI_ * (j + .5L) / P, q1 = std::sqrt(1 - z * z); V o1 = d * (z * ldir + q1 * std::cos(ph) * a + q1 * std::sin(ph) * b); std::vector<LightInstance<T>> ls; Transform<float> t; t.position = ff(o1 + r * ldir); ls.push_back({w.light, {t}}); o.resolve_irradiance(tf<T>(o1), ls); T e = o.get_irradiance(now()); V tl = fv(t.position) - fv(ff(o1)); L corr = std::pow(len(tl) / r, 2); for (size_t k = 0; k < T::size(); ++k) s[k] += e[k] * corr * d * d * 4 * PI_ / (N * P); }
        for (size_t k = 0; k < T::size(); ++k) { L in = w.rad[k] * PI_ * std::pow(w.lr / r, 2) * PI_ * rs * rs * al[k]; VH_CHECK(std::abs(s[k] / in - 1) < .02L, "energy", "a sphere of albedo %g sends out %Lg of what fell on it times albedo", (double)al[k], s[k] / in); } vh::ev(); vh::count("energy balances");
    }
    for (int j = 0; j < 4; ++j)
    { // emitters
        L d = (L)R.lu(1e-2, 1e14); V p = fv(ff(d * un(rv(1)))); d = len(p); T pw = rspec<T>(0, 1) * (float)R.lu(1e-6, 1e20); double tot = R.lu(1e-6, 1e20); bool t = R.chance(.5); vh::cur("emitter d=%Lg", d); using Pow = units::SpectralWatts<T>;
        auto o = t ? via([&] { return w.s->new_unresolved_emitter(units::Watt(tot)); }, [&] { return new UnresolvedEmitter<T>(units::Watt(tot)); }) : via([&] { return w.s->new_unresolved_emitter(Pow(pw)); }, [&] { return new UnresolvedEmitter<T>(Pow(pw)); });
        if (R.chance(.3)) { auto em = std::dynamic_pointer_cast<UnresolvedEmitter<T>>(o); if (t) { tot = R.lu(1e-3, 1e9); em->set_spectral_power(units::Watt(tot)); } else { pw = rspec<T>(0, 1); em->set_spectral_power(Pow(pw)); } }
        o->resolve_irradiance(tf<T>(p), lights(w, rv(1e9L))); T got = o->get_irradiance(now()); if (!t) same(got, pw, 1 / (4 * PI_ * d * d), 3e-6L, "emitter", "emitter"); else { L s = 0, wd = 0; for (size_t i = 0; i < T::size(); ++i) { s += got[i]; wd += T::get_bin(i).max_wavelength - T::get_bin(i).min_wavelength; } L want = tot / (4 * PI_ * d * d); VH_CHECK(std::abs(s / want - 1) < 1e-5L, "emitter-total", "%Lg over all bins, expected %Lg", s, want); for (size_t i = 0; i < T::size(); ++i) VH_CHECK(std::abs(got[i] / s - (T::get_bin(i).max_wavelength - T::get_bin(i).min_wavelength) / wd) < 1e-5L, "emitter-split", "bin %zu", i); vh::ev(); }
        vh::distinct(vh::hash((float)d, tot, 2)); vh::count("emitters");
    }
    for (int j = 0; j < 4; ++j)
    { // asteroids: H-G system
        double H = R.u(-5, 25), G = R.chance(.3) ? .15 : R.u(0, 1); T al = R.chance(.3) ? T{1.f} : rspec<T>(0, 1); bool gray = R.chance(.3); float ga = R.f(); if (gray) al = T{ga}; Geo g = geo(w.lr, true); vh::cur("asteroid H=%g G=%g d=%Lg r=%Lg phase=%Lg", H, G, g.d, g.r, g.phase);
        auto o = gray ? via([&] { return w.s->new_unresolved_asteroid(H, G, *w.li, ga); }, [&] { return new UnresolvedAsteroid<T>(H, G, *w.li, ga); }) : via([&] { return w.s->new_unresolved_asteroid(H, G, *w.li, al); }, [&] { return new UnresolvedAsteroid<T>(H, G, *w.li, al); });
        try { o->resolve_irradiance(tf<T>(g.obj), lights(w, g.light)); } catch (const std::exception& e) { VH_FAIL("asteroid-throws", "%s", e.what()); continue; }
        T zero = visual_magnitude_to_irradiance<T>(0., al); L au = 149597870700.L, t2 = std::tan(g.phase / 2), p1 = std::exp(-3.33L * std::pow(t2, .64L)), p2 = std::exp(-1.87L * std::pow(t2, 1.22L)), f = (1 - (L)G) * p1 + (L)G * p2, k = std::pow(10.L, -.4L * H) * f * std::pow(au / g.r * (au / g.d), 2); if (g.phase < PI_ - .05L && g.phase > 1e-4L) same(o->get_irradiance(now()), zero, k, 1e-4L + 1e-6L / g.phase + 4e-6L * (len(g.obj) + len(g.light)) / g.r, "asteroid", "asteroid"); else if (g.phase <= 1e-4L) same(o->get_irradiance(now()), zero, k, .05L, "asteroid", "asteroid at opposition"); else { T e = o->get_irradiance(now()); for (size_t i = 0; i < T::size(); ++i) VH_CHECK(std::isfinite(e[i]) && e[i] >= 0 && (g.phase > PI_ - .02L || e[i] <= zero[i] * k * 1.2L + 1e-30L) && e[i] <= zero[i] * std::pow(10.L, -.4L * H) * std::pow(au / g.r * (au / g.d), 2) * .01L + 1e-30L, "asteroid-new", "%g", (double)e[i]); }
        vh::distinct(vh::hash(H, G, (float)g.phase)); vh::count("asteroids");
    }
    { // objects of given irradiance keep it wherever they are, until it is set again
        T e = rspec<T>(0, 1) * (float)R.lu(1e-12, 1); double tot = R.lu(1e-12, 1), mag = R.u(-27, 20); using Irr = units::SpectralWattsPerMeterSquared<T>; vh::cur("constant object"); auto a = w.s->new_unresolved_object(Irr(e)), b = w.s->new_unresolved_object(units::WattsPerMeterSquared(tot)), c = w.s->new_unresolved_object_from_magnitude(mag), d = w.s->new_unresolved_object_from_magnitude(mag, e);
        for (auto* h : {&a, &b, &c, &d}) h->get()->resolve_irradiance(tf<T>(rv(1e9L)), lights(w, rv(1e9L))); same(a.get_irradiance(now()), e, 1, 1e-6L, "constant", "spectral"); same(b.get_irradiance(now()), T::from_total((float)tot), 1, 1e-6L, "constant", "total"); same(c.get_irradiance(now()), visual_magnitude_to_irradiance<T>(mag), 1, 1e-6L, "constant", "magnitude"); T v = visual_magnitude_to_irradiance<T>(mag, e); same(d.get_irradiance(now()), v, 1, 1e-6L, "constant", "magnitude and albedo");
        T e2 = rspec<T>(0, 1); a.set_irradiance(Irr(e2)); same(a.get_irradiance(now()), e2, 1, 1e-6L, "constant", "set again"); T neg = e2; neg[R.below(T::size())] = R.chance(.5) ? -1.f : NAN; VH_CHECK(vh::throws([&] { a.set_irradiance(Irr(neg)); }), "invalid", "irradiance %s accepted", neg.to_string().c_str()); same(a.get_irradiance(now()), e2, 1, 1e-6L, "rejected", "after a rejected value"); for (double bad : {-1., (double)NAN, (double)INFINITY}) { VH_CHECK(vh::throws([&] { b.set_irradiance(units::WattsPerMeterSquared(bad)); }), "invalid", "irradiance %g accepted", bad); VH_CHECK(vh::throws([&] { UnresolvedEmitter<T> x{units::Watt(bad)}; }), "invalid", "power %g accepted", bad); VH_CHECK(vh::throws([&] { UnresolvedLambertianSphere<T> x(units::Meter(bad), *w.li, .5f); }), "invalid", "radius %g accepted", bad); if (!(bad == -1)) VH_CHECK(vh::throws([&] { UnresolvedAsteroid<T> x(bad, .1, *w.li, .5f); }) && vh::throws([&] { UnresolvedAsteroid<T> x(1, bad, *w.li, .5f); }), "invalid", "H or G %g accepted", bad); }
        for (float bad : {-.1f, 1.1f, NAN}) VH_CHECK(vh::throws([&] { UnresolvedLambertianSphere<T> x(units::Meter(1.), *w.li, bad); }) && vh::throws([&] { UnresolvedAsteroid<T> x(1, .1, *w.li, bad); }), "invalid", "albedo %g accepted", (double)bad); for (double bad : {0., -1., 1e39, (double)INFINITY}) VH_CHECK(vh::throws([&] { UnresolvedLambertianSphere<T> x(units::Meter(bad), *w.li, .5f); }) && vh::throws([&] { UnresolvedLambertianSphere<T> x(units::Meter(bad), *w.li, T{.5f}); }), "invalid", "a sphere of radius %g accepted", bad); for (double bad : {(double)NAN, (double)INFINITY}) for (int k = 0; k < 4; ++k) VH_CHECK(vh::throws([&] { if (k & 1) UnresolvedAsteroid<T> x(k & 2 ? bad : 1., k & 2 ? .1 : bad, *w.li, .5f); else UnresolvedAsteroid<T> x(k & 2 ? bad : 1., k & 2 ? .1 : bad, *w.li, T{.5f}); }), "invalid", "an asteroid of H or G %g accepted", bad); auto ai = w.s->root.new_instance(a); VH_CHECK(vh::throws([&] { UnresolvedLambertianSphere<T> x(units::Meter(1.), ai, .5f); }) && vh::throws([&] { UnresolvedAsteroid<T> x(1, .1, ai, .5f); }), "invalid", "an instance that is no light lights an object"); std::vector<LightInstance<T>> none; UnresolvedLambertianSphere<T> x(units::Meter(1.), *w.li, .5f); UnresolvedAsteroid<T> y(1, .1, *w.li, .5f); VH_CHECK(vh::throws([&] { x.resolve_irradiance(tf<T>({0, 0, 5}), none); }) && vh::throws([&] { y.resolve_irradiance(tf<T>({0, 0, 5}), none); }), "no-light", "an object without its light was resolved"); vh::ev(); vh::count("constant objects and rejections");
    }
}
// One light placed at several places: an object is lit by the instance it was given
template <class T> static void places()
{
    still_frames(); Scene<T> sc; auto cm = sc.new_camera_model("c"); auto c = cm.get(); c->set_focal_length(units::Meter(.05)); c->configure_sensor_from_pitch(Resolution{4, 4}, units::Micrometer(5.)); auto ci = sc.root.new_instance(cm); double lr = R.lu(.1, 1e3); T rad = rspec<T>(.1f, 1.f) * (float)R.lu(1, 1e7);
    units::SpectralWattsPerMeterSquaredSteradian<T> q(rad); int nl = 1 + (int)R.below(2); std::vector<LightHandle<T>> lh; for (int i = 0; i < nl; ++i) lh.push_back(sc.new_sphere_light(units::Meter(lr), q)); struct P { InstanceHandle<T> h; V at; int l; }; std::vector<P> ps; int np = R.i(1, 4); vh::cur("a view of %d lights placed %d times", nl, np);
    std::vector<FrameHandle<T>> fr; for (int i = 0; i < np; ++i) { int l = (int)R.below((size_t)nl); V at = fv(ff((L)R.lu(1e5, 1e12) * un(rv(1)))); auto h = R.chance(.5) ? sc.root.new_instance(lh[(size_t)l]) : [&] { fr.push_back(sc.root.new_subframe()); return fr.back().new_instance(lh[(size_t)l]); }(); h.get()->set_position(Vec3<double>{(double)at[0], (double)at[1], (double)at[2]}); ps.push_back({h, at, l}); }
    struct O { std::shared_ptr<UnresolvedObject<T>> o; V at; int p; }; std::vector<O> os; int no = R.i(1, 5); for (int i = 0; i < no; ++i) { int p = (int)R.below((size_t)np); T al = rspec<T>(0.1f, 1); V at = fv(ff((L)R.lu(1e8, 1e13) * un(rv(1)))); auto h = R.chance(.5) ? sc.new_unresolved_sphere(units::Meter(R.lu(1, 1e4)), ps[(size_t)p].h, al) : sc.new_unresolved_asteroid(R.u(0, 20), .15, ps[(size_t)p].h, al); auto in = sc.root.new_instance(h); in.get()->set_position(Vec3<double>{(double)at[0], (double)at[1], (double)at[2]}); os.push_back({h.get(), at, p}); }
    SceneView<T> v(sc, Interval(Time::from_et(0.), Time::from_et(1.)), ci, ObservationMode::TRUE_STATE, R.i(1, 3)); VH_CHECK(v.unresolved_objects_.size() == os.size() && v.lights_.size() == ps.size(), "places", "%zu objects and %zu lights in the view instead of %zu and %zu", v.unresolved_objects_.size(), v.lights_.size(), os.size(), ps.size());
    for (auto& o : os) for (auto& u : v.unresolved_objects_) if (u.unresolved_object == o.o) { Transform<float> t; t.position = ff(ps[(size_t)o.p].at); LightInstance<T> li; li.light = lh[(size_t)ps[(size_t)o.p].l].get(); li.transforms = {t}; std::vector<T> got = u.irradiances; o.o->resolve_irradiance(tf<T>(o.at), std::vector<LightInstance<T>>{li}); T want = o.o->get_irradiance(now()); vh::ev(); for (auto& g : got) for (size_t k = 0; k < T::size(); ++k) VH_CHECK(std::abs(g[k] - want[k]) <= 1e-4f * want[k] + 1e-37f, "places", "band %zu of an object lit by instance %d of %d, of light %d, is %g instead of %g", k, o.p, np, ps[(size_t)o.p].l, (double)g[k], (double)want[k]); vh::distinct(vh::hash(want[0], o.p, 9)); vh::count("objects in views with several lights"); }
}
static void body() { R = vh::Rng(vh::seed() * 31 + 25); for (int i = 0, N = vh::n(250, 8000); i < N; ++i) { vh::watchdog(30); cases<RGB>(); if (i % 4 == 0) cases<Visible8>(); if (i % 3 == 0) places<RGB>(); if (i % 16 == 0) places<Visible8>(); } }
VH_MAIN(body())
