// C27: transmittance, free paths, scattering and nesting of participating media.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using F3 = Vec3<float>;
static const L PI_ = std::acos(-1.L);
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
template <class T> static T coef() { T t{0.f}; float s = R.chance(.05) ? 0.f : (float)R.lu(1e-12, 1e6); for (size_t i = 0; i < T::size(); ++i) t[i] = R.chance(.15) ? 0.f : s * (float)R.u(.2, 2); return t; }
template <class T> static L ext(const MediumProperties<T>& p, size_t i) { return (L)p.absorption[i] + (L)p.scattering[i]; }

template <class T> static void medium()
{
    T a = coef<T>(), s = R.chance(.3) ? T{0.f} : coef<T>(); auto df = std::make_shared<ConstantDensityField<T>>(a, s); auto pf = std::make_shared<IsotropicPhaseFunction<T>>(); Medium<T> m(df, pf); RandomSampler<float> smp((unsigned)R.below(1u << 30)); L avg = 0; for (size_t i = 0; i < T::size(); ++i) avg += ((L)a[i] + (L)s[i]) / T::size(); F3 o = ff(rv(1e3)), d = ff(un(rv(1))); Ray<T> ray(o, d); vh::cur("medium of mean extinction %Lg", avg);
    auto pr = m.get_properties(o); for (size_t i = 0; i < T::size(); ++i) VH_CHECK(pr.absorption[i] == a[i] && pr.scattering[i] == s[i], "properties", "band %zu", i); VH_CHECK(&m.get_phase_function() == pf.get(), "phase", "another scattering function");
    for (int j = 0; j < 12; ++j) { float t = j == 0 ? 0.f : j == 1 ? INFINITY : j == 2 ? -(float)R.lu(1e-3, 1) : (float)(R.lu(1e-3, 50) / (avg > 0 ? (double)avg : 1)); T Tr = m.evaluate_transmittance(ray, t, smp); for (size_t i = 0; i < T::size(); ++i) { L x = ext(pr, i), w = t <= 0 || x == 0 ? 1 : std::exp(-x * t); VH_CHECK(std::isfinite(Tr[i]) && std::abs(Tr[i] - w) <= 2e-6L * w * (1 + x * (std::isinf(t) ? 0 : std::max(0.f, t))) + 1e-37L, "transmittance", "band %zu passes %.8g over %g, expected %.8Lg", i, (double)Tr[i], (double)t, w); } vh::ev(); vh::count("transmittances"); }
    { float t1 = (float)(R.lu(.01, 5) / (avg > 0 ? (double)avg : 1)), t2 = t1 * R.f() * 3; T x = m.evaluate_transmittance(ray, t1, smp) * m.evaluate_transmittance(ray, t2, smp), y = m.evaluate_transmittance(ray, t1 + t2, smp); for (size_t i = 0; i < T::size(); ++i) VH_CHECK(std::abs(x[i] - y[i]) <= 1e-4f * y[i] + 1e-36f, "segments", "two segments pass %g, the whole %g", (double)x[i], (double)y[i]); }
    const int N = 1500; std::vector<double> f; double mean = 0; bool none = false; for (int j = 0; j < N && !none; ++j) { auto mi = m.sample_free_path(ray, smp); if (!mi) { none = true; VH_CHECK(avg == 0 || avg * 1e30L < 1, "no-scatter", "a medium of extinction %Lg never scatters", avg); break; } VH_CHECK(avg > 0, "scatter", "an empty medium scatters"); VH_CHECK(mi->t >= 0 && mi->is_valid() && mi->phase_function == pf.get() && len(fv(mi->wo) + fv(d)) == 0, "interaction", "wrong interaction"); L e = 1e-6L * (mi->t + len(fv(o))); VH_CHECK(len(fv(mi->p) - fv(o) - (L)mi->t * fv(d)) <= e, "point", "the scattering point is off the ray"); VH_CHECK(mi->properties.absorption[0] == a[0] && mi->properties.scattering[0] == s[0], "point-properties", "properties"); double F = (double)(1 - std::exp(-avg * mi->t)); f.push_back(F); mean += (double)(avg * mi->t) / N; vh::ev(); }
    if (!none) { std::sort(f.begin(), f.end()); double ks = 0; for (int j = 0; j < N; ++j) ks = std::max({ks, std::fabs(f[(size_t)j] - (double)j / N), std::fabs(f[(size_t)j] - (j + 1.) / N)}); VH_CHECK(ks * std::sqrt((double)N) < 2.9, "free-path-law", "free paths miss the exponential law by %g (mean %g mean free paths)", ks, mean); VH_CHECK(std::fabs(mean - 1) < 6.5 / std::sqrt((double)N), "free-path-mean", "mean free path is %g of one over the extinction", mean); vh::count("free-path laws"); }
    vh::distinct(vh::hash((double)avg, a[0], s[0]));
}
template <class T> static void phase()
{
    vh::cur("isotropic scattering"); IsotropicPhaseFunction<T> pf; RandomSampler<float> smp((unsigned)R.below(1u << 30)); F3 wo = ff(un(rv(1))); L tot = 0; const int N = 4000; V m{}; L q[6] = {}; for (int i = 0; i < N; ++i) { V w = un(rv(1)); tot += 4 * PI_ * pf.evaluate(wo, ff(w)) / N; auto s = pf.sample(wo, smp); V x = fv(s.wi); VH_CHECK(std::abs(len(x) - 1) < 1e-5L && s.p > 0 && std::abs(s.p / pf.evaluate(wo, s.wi) - 1) < 1e-6, "phase-sample", "direction of length %Lg, density %g", len(x), (double)s.p); m = m + (1.L / N) * x; int k = 0; for (size_t a = 0; a < 3; ++a) for (size_t b = a; b < 3; ++b) q[k++] += x[a] * x[b] / N; vh::ev(); }
    VH_CHECK(std::abs(tot - 1) < 1e-5L, "phase-norm", "scattering function integrates to %Lg", tot); L lim = 6.5L / std::sqrt((L)N); for (L c : m) VH_CHECK(std::abs(c) < lim * .578L, "phase-mean", "scattered directions lean by %Lg", len(m)); int k = 0; for (size_t a = 0; a < 3; ++a) for (size_t b = a; b < 3; ++b, ++k) VH_CHECK(std::abs(q[k] - (a == b ? 1 / 3.L : 0)) < lim * .3L, "phase-second", "second moment %Lg", q[k]); vh::distinct(vh::hash(wo.x)); vh::count("scattering laws");
}
template <class T> static void rejected() { vh::cur("rejected media"); for (float bad : {-1.f, -1e-30f, (float)NAN, INFINITY, -INFINITY}) for (int side = 0; side < 2; ++side) { T c = coef<T>(), b = c; b[R.below(T::size())] = bad; VH_CHECK(vh::throws([&] { ConstantDensityField<T> x(side ? c : b, side ? b : c); }), "invalid", "coefficient %g accepted", (double)bad); Scene<T> s; VH_CHECK(vh::throws([&] { s.new_constant_density_field(side ? c : b, side ? b : c); }), "invalid", "coefficient %g accepted by the scene", (double)bad); } vh::ev(); vh::count("rejections"); }

// a ray entering and leaving bodies in any order
template <class T> static void nesting()
{
    std::vector<std::unique_ptr<Primitive<T>>> ps; std::vector<int> in; int n = R.i(1, 9); for (int i = 0; i < n; ++i) { auto p = std::make_unique<Primitive<T>>(); if (!R.chance(.2)) p->medium = std::make_shared<Medium<T>>(std::make_shared<ConstantDensityField<T>>(coef<T>(), coef<T>()), std::make_shared<IsotropicPhaseFunction<T>>()); ps.push_back(std::move(p)); }
    MediumStack<T> st; std::string log; for (int j = 0; j < 40; ++j) { int i = R.i(0, n - 1); auto& p = ps[(size_t)i]; auto it = std::find(in.begin(), in.end(), i); if (R.chance(.03)) { st.toggle(nullptr); log += " null"; } else if (it != in.end()) { in.erase(it); st.toggle(p.get()); log += vh::fmt(" -%d", i); } else { if (p->medium && in.size() >= MediumStack<T>::CAPACITY) continue; st.toggle(p.get()); if (p->medium) in.push_back(i); log += vh::fmt(" +%d", i); } vh::cur("history%s", log.c_str()); const Medium<T>* want = in.empty() ? nullptr : ps[(size_t)in.back()]->medium.get(); VH_CHECK(st.size() == in.size() && st.is_empty() == in.empty(), "nesting-depth", "inside %zu media, expected %zu", st.size(), in.size()); VH_CHECK(st.top() == want, "nesting-top", "inside another medium than the last one entered and not left"); vh::ev(); }
    vh::distinct(vh::hash_bytes(log.data(), log.size())); vh::count("nesting histories");
}
// rays through overlapping and nested bodies in a scene
template <class T> static void through(int seq)
{
    static Scene<T>& cams = *new Scene<T>; static auto cm = cams.new_camera_model("cam"); vh::cur("scene %d", seq); auto sc = std::make_unique<Scene<T>>(); auto mat = sc->new_material(sc->new_bsdf_lambertian()); T tint{1.f}; bool alpha = R.chance(.4); if (alpha) mat.set_alpha_factor(0.f); else { for (size_t i = 0; i < T::size(); ++i) tint[i] = R.chance(.5) ? 1.f : (float)R.u(.2, 1); mat.set_transmission_factor(tint); }
    struct B { V c; L r; T e; }; std::vector<B> bs; int n = R.i(1, 5); L sz = (float)R.lu(.1, 1e5); auto ci = sc->root.new_instance(cm);
    for (int i = 0; i < n; ++i) { B b; b.r = (float)(sz * (L)R.u(.5, 2)); b.c = fv(ff(R.chance(.3) && i ? bs[0].c + rv(bs[0].r * .1L) : rv(sz))); if (R.chance(.3) && i) b.r = (float)(bs[0].r * (L)R.u(.2, .6)); b.e = T{0.f}; T a = b.e, s = b.e; for (size_t k = 0; k < T::size(); ++k) { a[k] = (float)(R.u(0, .4) / (double)sz); s[k] = (float)(R.u(0, .4) / (double)sz); } b.e = a + s; auto md = sc->new_medium(sc->new_constant_density_field(a, s), sc->new_isotropic_phase_function()); auto g = sc->add_ellipsoid(units::Meter((double)b.r), units::Meter((double)b.r), units::Meter((double)b.r)); bool empty = R.chance(.15); if (empty) b.e = T{0.f}; auto p = empty ? sc->add_primitive(g, mat) : sc->add_primitive(g, mat, md); auto in = sc->root.new_instance(p); in.set_position(units::Meter((double)b.c[0]), units::Meter((double)b.c[1]), units::Meter((double)b.c[2])); bs.push_back(b); }
    Interval iv(Time::from_et(0), Time::from_et(0)); SceneView<T> view(*sc, iv, ci, ObservationMode::TRUE_STATE, 1); RandomSampler<float> smp((unsigned)seq);
    for (int j = 0; j < 25; ++j)
    {
        V o = fv(ff(rv(1) )); o = fv(ff((12 * sz) * un(o))); V d = fv(ff(un(bs[(size_t)R.i(0, n - 1)].c + rv(sz * .4L) - o))); L tf = R.chance(.3) ? 40 * sz : (L)R.u(6, 18) * sz; Ray<T> ray(ff(o), ff(d));
        struct E { L t; int i; }; std::vector<E> es; bool amb = false; for (int i = 0; i < n; ++i) { V f = bs[(size_t)i].c - o; L b = dot(f, d), r = bs[(size_t)i].r, q = len(f - b * d); if (std::abs(q - r) < 2e-3L * r) amb = true; if (q >= r) continue; L h = std::sqrt(r * r - q * q); for (L t : {b - h, b + h}) { V x = o + t * d, nn = un(x - bs[(size_t)i].c); if (nn[0] * nn[0] * std::abs(x[0]) + nn[1] * nn[1] * std::abs(x[1]) + nn[2] * nn[2] * std::abs(x[2]) < .1L * r) amb = true; } es.push_back({b - h, i}); es.push_back({b + h, i}); } std::sort(es.begin(), es.end(), [](auto& x, auto& y) { return x.t < y.t; }); for (size_t i = 0; i < es.size(); ++i) { if (i && es[i].t - es[i - 1].t < 3e-3L * sz) amb = true; if (std::abs(es[i].t - tf) < 3e-3L * sz) amb = true; } if (amb) continue;
        std::vector<L> tau(T::size(), 0), tr(T::size(), 1); std::vector<int> in; L at = 0; size_t cross_ = 0; auto seg = [&](L to) { if (!in.empty()) for (size_t k = 0; k < T::size(); ++k) tau[k] += bs[(size_t)in.back()].e[k] * (to - at); at = to; }; for (auto& e : es) { if (e.t > tf) break; seg(e.t); ++cross_; if (!alpha) for (size_t k = 0; k < T::size(); ++k) tr[k] *= tint[k]; auto it = std::find(in.begin(), in.end(), e.i); if (it == in.end()) in.push_back(e.i); else in.erase(it); } seg(tf);
        vh::cur("scene %d ray %d: %d bodies, %zu crossings, size %Lg", seq, j, n, cross_, sz); T got = view.evaluate_transmittance(ray, (float)tf, MediumStack<T>{}, smp, 0.f); for (size_t k = 0; k < T::size(); ++k) { L w = tr[k] * std::exp(-tau[k]); VH_CHECK(std::isfinite(got[k]) && std::abs(got[k] - w) < 2e-3L * w + 1e-9L, "through", "band %zu: %.7g of the light passes, expected %.7Lg", k, (double)got[k], w); } vh::ev(); vh::distinct(vh::hash((float)tf, (float)d[0])); vh::count(vh::fmt("%zu crossings", cross_).c_str());
    }
}
static void body() { still_frames(); R = vh::Rng(vh::seed() * 41 + 27); rejected<RGB>(); rejected<Visible8>(); for (int i = 0, N = vh::n(300, 12000); i < N; ++i) { vh::watchdog(30); medium<RGB>(); if (i % 4 == 0) { medium<Visible8>(); phase<RGB>(); through<Visible8>(i); } nesting<RGB>(); nesting<Visible8>(); through<RGB>(i); } }
VH_MAIN(body())
