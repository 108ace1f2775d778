// C32: histories of loading, replacing and moving a scene's stars, against the catalogue and the star type.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
struct Ref { Vec3<double> d; S e; };
template <class X> static std::vector<Ref> read(X& sc)
{
    std::vector<Ref> o;
    if constexpr (requires { sc.stars_[0].get_direction(); }) for (auto& s : sc.stars_) o.push_back({s.get_direction(), s.get_irradiance()});
    else {
        static Scene<S> cams; static auto cm = cams.new_camera_model("c"); auto ci = sc.root.new_instance(cm); SceneView<S> v(sc, Interval(Time::from_et(0), Time::from_et(0)), ci, ObservationMode::TRUE_STATE);
        if constexpr (requires { v.stars_[0][0].get_direction(); }) for (auto& s : v.stars_) o.push_back({s[0].get_direction(), s[0].get_irradiance()});
        sc.root.delete_instance(ci);
    }
    return o;
}
static StarData rstar() { StarData d; d.id = R.below(1u << 30); d.RA = R.u(0, 6.283185); d.DEC = std::asin(R.u(-1, 1)); if (R.chance(.8)) { float m = R.chance(.3) ? 5000.f : 100.f; d.pmRA = (float)R.u(-m, m); d.pmDEC = (float)R.u(-m, m); } d.visual_magnitude = (float)R.u(-1, 12); d.temperature = (float)R.lu(2000, 30000); d.solid_angle = R.lu(1e-20, 1e-14); return d; }
static void one(int h)
{
    Scene<S> sc; std::vector<Ref> want; bool dyn = false; std::vector<StarData> data; std::vector<double> times{0, 1e9}; for (int i = 0; i < 4; ++i) times.push_back(R.u(-3e9, 3e9)); int n = R.i(1, 12); std::string trail;
    for (int st = 0; st < n; ++st) {
        int op = R.i(0, 6); Time t = Time::from_et(R.pick(times)); double yr = t.julian_years_since_j2000(TimeScale::TT);
        if (op == 0) { std::vector<Star<S>> v; want.clear(); dyn = false; int k = R.chance(.3) && !data.empty() ? (int)data.size() : R.i(0, 12); for (int i = 0; i < k; ++i) { V d = rv(1); S e{(float)R.lu(1e-12, 1e-3), (float)R.lu(1e-12, 1e-3), (float)R.lu(1e-12, 1e-3)}; v.emplace_back(dv((1 / len(d)) * d), e); want.push_back({v.back().get_direction(), e}); } sc.set_stars(v); trail += vh::fmt("set(%d) ", k); }
        else if (op <= 3) {
            StarCatalog c; int k = R.i(0, R.chance(.1) ? 400 : 20); for (int i = 0; i < k; ++i) c.add_star(rstar()); auto p = vh::scratch(vh::fmt("s%d.hrsc", h % 5)); c.write_star_data(p); float lim = R.chance(.5) ? INFINITY : (float)R.u(-1, 12); auto kept = StarCatalog::read_star_data(p, lim).get_star_data();
            size_t cnt = 0; for (int i = 0; i < k; ++i) cnt += c[(size_t)i].visual_magnitude <= lim; VH_CHECK(kept.size() == cnt, "scene-limit", "%zu of %d stars within magnitude %g kept, expected %zu", kept.size(), k, lim, cnt);
            bool dy = op != 1; trail += vh::fmt("%s(%d,%g) ", dy ? "dynamic" : "load", k, t.et()); vh::cur("%s", trail.c_str()); if (dy) sc.load_dynamic_stars(p, t, lim); else sc.load_stars(p, t, lim);
            dyn = dy; data = kept; want.clear(); for (auto& d : kept) { Star<S> s(d, yr); want.push_back({s.get_direction(), s.get_irradiance()}); }
        }
        else if (op == 4 && R.chance(.4)) { trail += "missing "; vh::cur("%s", trail.c_str()); VH_CHECK(vh::throws([&] { R.chance(.5) ? sc.load_stars(vh::scratch("none.hrsc"), t, 9.f) : sc.load_dynamic_stars(vh::scratch("none.hrsc"), t, 9.f); }), "scene-missing", "loading a missing catalogue did not throw"); }
        else { trail += vh::fmt("epoch(%g) ", t.et()); vh::cur("%s", trail.c_str()); sc.update_star_epoch(t); if (dyn) for (size_t i = 0; i < data.size(); ++i) { Star<S> s(data[i], yr); want[i].d = s.get_direction(); } vh::count(dyn ? "epoch moved" : "epoch on fixed stars"); }
        auto got = read(sc); vh::ev(); vh::distinct(vh::hash(h, st, op)); VH_CHECK(got.size() == want.size(), "scene-stars", "after %s: %zu stars, expected %zu", trail.c_str(), got.size(), want.size()); if (got.size() != want.size()) return;
        for (size_t i = 0; i < got.size(); ++i) { bool e = true; for (size_t b = 0; b < 3; ++b) e &= got[i].e[b] == want[i].e[b]; VH_CHECK(e, "scene-irradiance", "after %s: star %zu of %zu has changed its light", trail.c_str(), i, got.size()); double off = glm::length(got[i].d - want[i].d); VH_CHECK(off < 1e-12, "scene-direction", "after %s: star %zu of %zu is %.3g rad from its place", trail.c_str(), i, got.size(), off); }
    }
    if (h < 4) vh::sample(trail);
}
static void body() { still_frames(); cs::leaps = {{-4e9L, 10}, {0, 32}, {2e8L, 33}}; R = vh::Rng(vh::seed() * 31337 + 5); for (int i = 0, n = vh::n(2500, 40000); i < n; ++i) { vh::watchdog(60); one(i); } }
VH_MAIN(body())
