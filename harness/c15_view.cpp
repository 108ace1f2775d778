// C15: what an observed view shows of moving bodies, read through user-defined unresolved objects, light
// instances and rays, against a long-double light-time and aberration solution.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
static const L C = 299792458.L;
struct Got { Transform<float> self; std::vector<LightInstance<S>> lights; };
struct Probe : UnresolvedObject<S> { std::vector<Got>* out; Probe(std::vector<Got>* o) : out(o) {} void resolve_irradiance(const Transform<float>& s, const std::vector<LightInstance<S>>& l) override { out->push_back({s, l}); } };
// a body: an ephemeris orbit with a spinning frame, or a fixed/drifting node inside one
struct B { Move m; Spin s; bool man = false; int base = -1; V p{}, v{}, w{}; M r{}; L scale = 1; L vmax = 0; };
static std::vector<B> bs; static L EP = 0; // metres, seconds since EP
static V pos(const B& b, L t) { if (!b.man) return b.m.at(t, 0); V q = b.p + t * b.v; if (b.base < 0) return q; const B& a = bs[(size_t)b.base]; return pos(a, t) + app(a.s.at(t, 0), q); }
static M att(const B& b, L t) { if (!b.man) return b.s.at(t, 0); L a = len(b.w); M m = a == 0 ? b.r : mul(turn(b.w, a * t), b.r); return b.base < 0 ? m : mul(bs[(size_t)b.base].s.at(t, 0), m); }
static V vel(const B& b, L t) { L h = 1 / 64.L; return (1 / (12 * h)) * (8 * (pos(b, t + h) - pos(b, t - h)) - (pos(b, t + 2 * h) - pos(b, t - 2 * h))); }
static V aberr(const V& u, const V& v) { V b = (1 / C) * v; L g = 1 / std::sqrt(1 - dot(b, b)), d = dot(u, b); V n = u + (g + g * g / (1 + g) * d) * b; return (1 / (g * (1 + d))) * n; }
static B body_(L reach, L speed) { B b; b.m.w = (L)(double)R.lu(1e-9, R.chance(.3) ? 1e-3 : 1e-5); L amp = std::min((L)reach, (L)speed / b.m.w); b.m.c = rv(reach); b.m.a = rv(amp); b.m.b = rv(amp); b.s = rspin(); L k = (L)R.lu(1e-7, 1e-2); b.s.w *= k; return b; }
template <class W> static auto star_dirs(const W& w) { std::vector<std::vector<V>> o; if constexpr (requires { w.stars_[0][0].get_direction(); }) for (auto& a : w.stars_) { o.emplace_back(); for (auto& x : a) o.back().push_back(lv(x.get_direction())); } return o; }
static std::string cube() { static std::string p; if (p.empty()) { p = vh::scratch("cube.obj"); std::ofstream f(p); for (int i = 0; i < 8; ++i) f << "v " << (i & 1 ? 1 : -1) << " " << (i & 2 ? 1 : -1) << " " << (i & 4 ? 1 : -1) << "\n"; f << "o A\nf 1 3 4 2\nf 5 6 8 7\nf 1 2 6 5\no B\nf 3 7 8 4\nf 1 5 7 3\nf 2 4 8 6\n"; } return p; }
struct Exp { V p; M r; L d, tau; };
static Exp expect(const B& b, const V& O, const V& Ov, const M& Or, L t, int mode)
{
    L tau = 0; if (mode) for (int i = 0; i < 60; ++i) { L n = len(pos(b, t - tau) - O) / C; if (n == tau) break; tau = n; }
    V rel = pos(b, t - tau) - O; L d = len(rel); if (mode == 2 && d > 1e-8L) rel = d * aberr((1 / d) * rel, Ov); return {app(tr(Or), rel), mul(tr(Or), att(b, t - tau)), d, tau};
}
static void one()
{
    bs.clear(); Time e0 = Time::from_et(R.chance(.2) ? 0 : R.u(-5e8, 1e9)); for (int k = 0; k < 8; ++k) e0 = Time::from_et(e0.et()); EP = (L)e0.et();
    L reach = (L)R.lu(1e3, 3e12), sp = R.chance(.2) ? (L)R.lu(2e6, 3e7) : (L)R.lu(1, 2e6); if (sp > 2e6L) vh::count("fast bodies"); int nb = R.i(1, 4); for (int i = 0; i < nb + 1; ++i) bs.push_back(body_(reach, sp));
    int extra = R.i(0, 3); for (int i = 0; i < extra; ++i) { B b = bs[(size_t)R.i(0, nb)]; int base = R.i(0, nb); b.man = true; b.base = R.chance(.8) ? base : -1; b.p = rv(b.base < 0 ? reach : (L)R.lu(1, 1e7)); b.v = rv(R.chance(.3) ? 0 : std::min(sp, (L)R.lu(1e-3, 1e5))); b.w = rv(R.chance(.3) ? 0 : (L)R.lu(1e-6, .1)); b.r = rrot(); b.scale = R.chance(.5) ? 1 : (L)R.lu(.1, 10); bs.push_back(b); }
    int n = (int)bs.size(), cam = R.i(0, n - 1); bs[(size_t)cam].scale = 1;
    auto F = [](int i) { return vh::fmt("FR%d", i); }; auto O = [](int i) { return vh::fmt("ORB%d", i); };
    static Scene<S> cams; static auto cm = cams.new_camera_model("cam"); Scene<S> scene; std::vector<std::unique_ptr<FrameHandle<S>>> h; FrameHandle<S> root(std::weak_ptr<FrameNode<S>>(scene.root.get())); std::vector<std::vector<Got>> got((size_t)n); std::vector<Light<S>*> lp; std::vector<L> rad, lrad; std::vector<bool> isM; std::vector<V> sd;
    { std::vector<Star<S>> st; for (int k = R.i(0, 3); k > 0; --k) { V d = rv(1); sd.push_back((1 / len(d)) * d); st.push_back(Star<S>(dv(sd.back()), S{1.f, 1.f, 1.f})); sd.back() = lv(st.back().get_direction()); } scene.set_stars(st); }
    for (int i = 0; i < n; ++i) {
        B& b = bs[(size_t)i]; FrameHandle<S> par = b.man && b.base >= 0 ? *h[(size_t)b.base] : root; auto f = std::make_unique<FrameHandle<S>>(b.man || R.chance(.3) ? par.new_subframe() : par.new_spice_subframe(O(i), F(i)));
        if (!b.man) f->set_spice(O(i), F(i)); else { f->set_position(units::Meter((double)b.p[0]), units::Meter((double)b.p[1]), units::Meter((double)b.p[2])); f->set_velocity(units::MetersPerSecond((double)b.v[0]), units::MetersPerSecond((double)b.v[1]), units::MetersPerSecond((double)b.v[2])); f->set_rotation(dr(b.r)); f->set_angular_velocity(units::RadiansPerSecond((double)b.w[0]), units::RadiansPerSecond((double)b.w[1]), units::RadiansPerSecond((double)b.w[2])); f->set_scale((double)b.scale); }
        f->new_instance(scene.add_unresolved_object(std::make_shared<Probe>(&got[(size_t)i]))); lrad.push_back((L)R.lu(1e-3, .1) * reach); auto l = scene.new_sphere_light(units::Meter((double)lrad.back()), units::Watt(1.)); lp.push_back(l.get().get()); isM.push_back(i != cam && R.chance(.08)); if (isM.back()) { auto mi = f->new_instance(scene.load_model(cube(), vh::fmt("M%d", i))); mi.set_scale((double)lrad.back()); vh::count("models"); } else if (i != cam) f->new_instance(l); h.push_back(std::move(f));
    }
    auto ci = h[(size_t)cam]->new_instance(cm); bool mount = R.chance(.5); M mr = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; V mp{}; if (mount) { mr = rrot(); mp = rv((L)R.lu(.1, 100)); ci.set_rotation(dr(mr)); ci.set_position(units::Meter((double)mp[0]), units::Meter((double)mp[1]), units::Meter((double)mp[2])); }
    double turn = R.chance(.4) ? 0 : R.u(-7, 7); cm.set_sensor_rotation(units::Radian(turn)); const L ct = std::cos((L)turn), st = std::sin((L)turn); M sr = {{{ct, -st, 0}, {st, ct, 0}, {0, 0, 1}}}; // the sensor turns about the optical axis
   
    int N = R.chance(.4) ? 1 : R.i(2, 5), mode = R.i(0, 2); double dur = R.chance(.1) ? 0 : R.lu(1e-3, 1000); Interval iv(e0, e0 + units::Second(dur)); auto ts = iv.samples((size_t)N); Time first = ts[0]; L T1 = (L)first.et();
    // everything below is measured from the first sample, the instant manual states are given for
    L base = EP; EP = T1; auto eph = [&](int k, L t) { return std::pair{bs[(size_t)k].m.at(t - EP, 0), bs[(size_t)k].m.vel(t - EP, 0)}; };
    auto idx = [](const std::string& s, const char* p) { return s.rfind(p, 0) == 0 ? std::atoi(s.c_str() + std::strlen(p)) : -1; }; (void)base;
    cs::eph = [&](const std::string& t, L et, const std::string&, const std::string&, const std::string& ob, cs::State& s, L& lt) { int a = idx(t, "ORB"), b = idx(ob, "ORB"); s = {}; if (a >= 0) { auto [p, v] = eph(a, et); s.p = .001L * p; s.v = .001L * v; } if (b >= 0) { auto [p, v] = eph(b, et); s.p = s.p - .001L * p; s.v = s.v - .001L * v; } lt = 0; return true; };
    cs::att = [&](const std::string& f, const std::string& t, L et, cs::Attitude& o) { int a = idx(f, "FR"), b = idx(t, "FR"); M e = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; M ra = a < 0 ? e : bs[(size_t)a].s.at(et - EP, 0), rb = b < 0 ? e : bs[(size_t)b].s.at(et - EP, 0); V wa = a < 0 ? V{} : bs[(size_t)a].s.om(et - EP, 0), wb = b < 0 ? V{} : bs[(size_t)b].s.om(et - EP, 0); o.r = mul(tr(rb), ra); o.w = app(tr(ra), wb - wa); return true; };
    static const ObservationMode MD[] = {ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}; static const char* MN[] = {"true", "light-time", "aberrated"};
    vh::cur("%s N=%d dur=%g bodies=%d reach=%Lg speed=%Lg", MN[mode], N, dur, n, reach, sp); SceneView<S> view(scene, iv, ci, MD[mode], (size_t)N); vh::count(MN[mode]); vh::count(N == 1 ? "single sample" : "several samples");
    auto sdir = star_dirs(view); if (!sdir.empty()) VH_CHECK(sdir.size() == sd.size(), "stars", "%zu stars in the view of %zu", sdir.size(), sd.size());
    const B& cb = bs[(size_t)cam]; L ulp = std::nextafter((double)std::fabs(T1) + 1e3, 1e30) - ((double)std::fabs(T1) + 1e3); std::vector<std::vector<Exp>> ex((size_t)n, std::vector<Exp>((size_t)N)); std::vector<std::vector<L>> tol((size_t)n, std::vector<L>((size_t)N));
    for (int j = 0; j < N; ++j) {
        L t = (L)ts[(size_t)j].et() - EP; V cp = pos(cb, t) + cb.scale * app(att(cb, t), mp), cv; { L hh = 1 / 64.L; auto P = [&](L q) { return pos(cb, q) + cb.scale * app(att(cb, q), mp); }; cv = (1 / (12 * hh)) * (8 * (P(t + hh) - P(t - hh)) - (P(t + 2 * hh) - P(t - 2 * hh))); } M cr = mul(mul(att(cb, t), mr), sr);
        for (size_t k = 0; mode == 2 && k < sdir.size() && k < sd.size(); ++k) { V e = app(tr(cr), aberr(sd[k], cv)); vh::ev(); vh::count("star directions"); VH_CHECK(sdir[k].size() == (size_t)N, "stars", "%zu samples of a star, asked for %d", sdir[k].size(), N); if (sdir[k].size() != (size_t)N) continue; L off = len(sdir[k][(size_t)j] - e); VH_CHECK(off < 2e-9L + 3 * ulp * .1L, "star-direction", "sample %d of %d: a star appears %.3Lg rad from where rotation and aberration put it (observer at %.6Lg m/s)", j, N, off, len(cv)); }
        for (int i = 0; i < n; ++i) { Exp e = expect(bs[(size_t)i], cp, cv, cr, t, mode); L tp = 4e-7L * e.d + 6 * ulp * (len(vel(bs[(size_t)i], t)) + len(cv) + len(bs[(size_t)i].p) * .5L) + 1e-14L * (len(cp) + len(pos(bs[(size_t)i], t))) + 1e-6L; tol[(size_t)i][(size_t)j] = tp; ex[(size_t)i][(size_t)j] = e; }
    }
    auto cmp = [&](const Transform<float>& g, int i, int j, const char* who) {
        const Exp& e = ex[(size_t)i][(size_t)j]; V p = lv(g.position); L tp = tol[(size_t)i][(size_t)j]; vh::ev(); vh::distinct(vh::hash((double)e.d, (double)e.p[0], mode, N, j));
        VH_CHECK(len(p - e.p) <= tp, "apparent-position", "%s, %s state, sample %d of %d: body %d appears at (%.9Lg %.9Lg %.9Lg), solved (%.9Lg %.9Lg %.9Lg), %.3Lg m off, light time %.6Lg s, allowed %.3Lg", who, MN[mode], j, N, i, p[0], p[1], p[2], e.p[0], e.p[1], e.p[2], len(p - e.p), e.tau, tp);
        M m = lm(static_cast<Rotation<double>>(g.rotation)); L d = 0; for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) d = std::max(d, std::fabs(m[a][b] - e.r[a][b])); VH_CHECK(d <= 2e-6L, "apparent-attitude", "%s, %s state, sample %d of %d: attitude of body %d off by %.3Lg rad, light time %.6Lg s", who, MN[mode], j, N, i, d, e.tau);
        for (L k : {(L)g.scale.x, (L)g.scale.y, (L)g.scale.z}) VH_CHECK(std::fabs(k / bs[(size_t)i].scale - 1) < 1e-5L, "apparent-scale", "body %d of scale %Lg appears with scale %Lg", i, bs[(size_t)i].scale, k); };
    for (int i = 0; i < n; ++i) {
        VH_CHECK(got[(size_t)i].size() == 1, "collected", "unresolved object %d resolved %zu times, expected once", i, got[(size_t)i].size()); if (got[(size_t)i].empty()) continue; const Got& g = got[(size_t)i][0]; cmp(g.self, i, 0, "unresolved object"); const int nl = n - 1 - (int)std::count(isM.begin(), isM.end(), true); VH_CHECK((int)g.lights.size() == nl, "collected", "%zu lights in the view, %d in the scene", g.lights.size(), nl);
        for (auto& l : g.lights) { auto it = std::find(lp.begin(), lp.end(), l.light.get()); if (it == lp.end()) { VH_FAIL("collected", "unknown light in the view"); continue; } VH_CHECK(l.transforms.size() == (size_t)N, "collected", "%zu samples of a light, asked for %d", l.transforms.size(), N); for (int j = 0; j < N && j < (int)l.transforms.size(); ++j) cmp(l.transforms[(size_t)j], (int)(it - lp.begin()), j, "light"); }
    }
    // rays towards where each body was solved to be at a sample time meet its sphere there
    std::vector<int> mods; for (int i = 0; i < n; ++i) if (isM[(size_t)i]) mods.push_back(i);
    for (int k = 0; k < 6 + 3 * (int)mods.size(); ++k) {
        int i = k < 6 ? R.i(0, n - 1) : mods[(size_t)(k - 6) % mods.size()], j = R.i(0, N - 1); const Exp& e = ex[(size_t)i][(size_t)j]; if (e.d < 1e-3L * reach || i == cam) continue; V u = (1 / len(e.p)) * e.p; L best = INFINITY, margin = 0; bool skip = false; int who = -1;
        for (int q = 0; q < n; ++q) { if (q == cam) continue; const Exp& x = ex[(size_t)q][(size_t)j]; L r = lrad[(size_t)q] * bs[(size_t)q].scale * (bs[(size_t)q].man && bs[(size_t)q].base >= 0 ? bs[(size_t)bs[(size_t)q].base].scale : 1); L b = dot(u, x.p), c = len(x.p), dd = std::sqrt(std::max(c * c - b * b, 0.L)); L m = 1e-4L * c + tol[(size_t)q][(size_t)j] * 3; if (isM[(size_t)q]) { if (c < r * 1.8L + m) { skip = true; break; } V o = app(tr(x.r), -1.L * x.p), d = app(tr(x.r), u); auto slab = [&](L a) { L lo = -INFINITY, hi = INFINITY; for (size_t z = 0; z < 3; ++z) { L p = (-a - o[z]) / d[z], w = (a - o[z]) / d[z]; if (p > w) std::swap(p, w); lo = std::max(lo, p); hi = std::min(hi, w); } return lo < hi && lo > 0 ? lo : INFINITY; }; L tn = slab(r), ta = slab(r * .95L - m), tb = slab(r * 1.05L + m); if (std::isinf(ta) != std::isinf(tb)) { skip = true; break; } if (!std::isinf(ta) && tn < best) { best = tn; margin = std::fabs(tb - ta) * .1L + 4 * (m + 1e-4L * c); who = q; vh::count("rays at models"); } continue; } if (c < r * 1.01L + m) { skip = true; break; } if (std::fabs(dd - r) < .05L * r + m) { skip = true; break; } if (b > 0 && dd < r) { L t = b - std::sqrt(r * r - dd * dd); if (t < best) { best = t; margin = m + 1e-4L * c; who = q; } } }
        if (skip || who < 0) continue; float tm = N == 1 ? 0.f : (float)j / (float)(N - 1); HitRecord rec = view.intersect(Ray<S>(Vec3<float>{0, 0, 0}, Vec3<float>{(float)u[0], (float)u[1], (float)u[2]}), tm); vh::ev(); vh::count("rays");
        VH_CHECK(rec.hit() && std::fabs((L)rec.t - best) <= margin + 2e-3L * lrad[(size_t)who], "ray", "ray at body %d, sample %d of %d: %s at %.7g, the sphere of body %d is met at %.7Lg", i, j, N, rec.hit() ? "hit" : "miss", rec.t, who, best);
    }
    vh::sample(vh::fmt("%s, %d bodies, %d samples, reach %.2Lg m", MN[mode], n, N, reach));
}
static void body() { R = vh::Rng(vh::seed() * 104729 + 11); cs::action = "RETURN"; for (int i = 0, m = vh::n(3000, 60000); i < m; ++i) one(); }
VH_MAIN(body())
