// C29: renders repeat bit for bit whatever the threads and the history, and a race detector watches them.
#include "world.hpp"
#ifdef VH_TBBD
#include "tbb/tbbd.hpp"
static std::shared_ptr<void> limit(int n) { tbbd::threads = n; tbbd::seed = (unsigned)R.u(1, 1e9); return nullptr; }
#else
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
static std::shared_ptr<void> limit(int n) { return std::make_shared<tbb::global_control>(tbb::global_control::max_allowed_parallelism, (size_t)n); }
#endif
using namespace wd;
template <class W> static void same(const W& a, const W& b, const char* what)
{
    if (a.size() != b.size()) { VH_FAIL("buffers", "%s: other buffers", what); return; }
    for (size_t i = 0; i < a.size(); ++i) { if (a[i].second.size() != b[i].second.size()) { VH_FAIL("size", "%s: %s has another size", what, a[i].first.c_str()); continue; } size_t n = 0, at = 0; for (size_t k = 0; k < a[i].second.size(); ++k) if (a[i].second[k] != b[i].second[k]) { if (!n++) at = k; } if (n) { float x, y; std::memcpy(&x, &a[i].second[at], 4); std::memcpy(&y, &b[i].second[at], 4); VH_FAIL("not-repeatable", "%s: %zu of %zu words of the %s differ, first word %zu: %.9g and %.9g", what, n, a[i].second.size(), a[i].first.c_str(), at, x, y); } }
    vh::ev();
}
template <class T> static void scene_case(Optics<T>& o, int seq)
{
    static const std::vector<int> sizes{1, 5, 15, 16, 17, 31, 33, 48, 65, 80}; bool small = getenv("VH_FEW") != nullptr; int w = R.pick(sizes), h = R.pick(sizes); double half = R.u(.1, .5); o.field(w, h, half); bool motion = R.chance(.5); vh::cur("scene %d: %dx%d", seq, w, h);
    World<T> a, b; for (auto* x : {&a, &b}) { auto f = x->sc->root.new_subframe(); if (motion && R.chance(.5)) { Spin s = rspin(); s.r0 = M{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; s.w *= .2L; f.get()->template set_custom_state_callback<Cb>(Move{}, s); } x->ci = f.new_instance(o.cm); x->fill(half, motion); }
    if (R.chance(.3)) { o.c->set_focus_distance(units::Meter(R.u(4, 20))); o.c->enable_depth_of_field(true); } else { o.c->set_focus_distance(units::Meter(INFINITY)); o.c->enable_depth_of_field(false); } if (R.chance(.2)) o.c->set_veiling_glare((float)R.u(.01, .5)); else o.c->disable_veiling_glare(); o.cm.set_sensor_simulate_noise(false);
    size_t nt = motion ? (size_t)R.i(1, 4) : 1; double t0 = R.u(-50, 50), dur = R.u(.01, 2); auto iv = [&](double s) { return Interval(Time::from_et(t0 + s), Time::from_et(t0 + s + dur)); }; auto mode = motion ? R.pick(std::vector<ObservationMode>{ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE}) : ObservationMode::TRUE_STATE;
    unsigned mask = R.chance(.5) ? 511u : (unsigned)R.below(512); if (!mask) mask = 1; int spp = R.i(1, small ? 3 : 6), mb = R.i(1, 6); auto cfg = [&](Renderer<T>& r) { r.set_samples_per_pixel(spp); r.set_max_bounces(mb); if (seq % 3 == 0) { r.set_dynamic_sampling(true); r.set_min_samples(2); r.set_variance_threshold(.05f); } if (seq % 5 == 0) r.set_indirect_clamp(.5f); };
    vh::cur("scene %d: %dx%d, %d bodies (%d media), %d lights, %d point sources, %zu times, %d samples, %d bounces, buffers %u", seq, w, h, a.bodies, a.media, a.lights, a.points, nt, spp, mb, mask);
    SceneView<T> va(*a.sc, iv(0), *a.ci, mode, nt), vb(*b.sc, iv(0), *b.ci, mode, nt); Renderer<T> r; cfg(r); auto fb = o.c->make_frame_buffer(); choose(fb, mask);
    auto g = limit(1); r.render(va, fb); auto first = words(fb, true); g.reset(); vh::distinct(vh::hash_bytes(first[0].second.data(), first[0].second.size() * 4)); { uint32_t z = 0; for (auto& p : first) for (auto v : p.second) z |= v; if (z) vh::count("renders with something in them"); }
    for (int n : small ? std::vector<int>{8, 3} : std::vector<int>{8, 2, 5, 16}) { g = limit(n); r.render(va, fb); same(first, words(fb, true), vh::fmt("again with %d threads", n).c_str()); g.reset(); } g = limit(8);
    { auto f2 = o.c->make_frame_buffer(); choose(f2, mask); Renderer<T> r2; cfg(r2); r2.render(va, f2); same(first, words(f2, true), "new renderer and frame buffer"); }
    { auto f2 = o.c->make_frame_buffer(); choose(f2, 511); r.render(vb, f2); SceneView<T> vc(*a.sc, iv(R.u(-1, 1)), *a.ci, mode, nt); r.render(vc, f2); r.render(va, fb); same(first, words(fb, true), "after renders of other views"); }
    { SceneView<T> v2(*a.sc, iv(0), *a.ci, mode, nt); r.render(v2, fb); same(first, words(fb, true), "view taken again after rendering"); }
    if (seq % 2 == 0) { auto f1 = o.c->make_frame_buffer(), f2 = o.c->make_frame_buffer(); choose(f1, mask); choose(f2, mask); Renderer<T> r1, r2; cfg(r1); cfg(r2); auto g2 = limit(4); std::thread t([&] { r1.render(va, f1); }); SceneView<T> v2(*a.sc, iv(0), *a.ci, mode, nt); r2.render(v2, f2); t.join(); same(first, words(f1, true), "two renders at once, first"); same(first, words(f2, true), "two renders at once, second"); vh::count("pairs of renders at once"); }
    if (w > 16 || h > 16) vh::count("images of several tiles"); if (nt > 1) vh::count("exposures with motion");
}
template <class T> static void others(int seq)
{   // the other loops that run in parallel
    vh::cur("parallel loops %d", seq); int r = R.i(1, 5), n = R.i(1, 4); float s = (float)R.u(.4, 2); auto g = limit(1); Bell<T> a(s, r, n); g.reset(); g = limit(7); Bell<T> b(s, r, n); bool ok = true; for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) { auto &p = a.get_kernel(((float)x + .5f) / (float)n, ((float)y + .5f) / (float)n), &q = b.get_kernel(((float)x + .5f) / (float)n, ((float)y + .5f) / (float)n); for (size_t i = 0; i < p.size(); ++i) for (size_t k = 0; k < T::size(); ++k) ok &= p[i][k] == q[i][k]; } VH_CHECK(ok, "psf", "a kernel depends on the threads that build it"); vh::ev();
    std::vector<StarData> sd; for (int i = 0, m = R.i(1, 300); i < m; ++i) { StarData d; d.RA = R.u(0, 6.28); d.DEC = R.u(-1.5, 1.5); d.pmRA = (float)R.gauss(); d.pmDEC = (float)R.gauss(); d.temperature = (float)R.u(3000, 9000); d.solid_angle = R.lu(1e-19, 1e-16); d.visual_magnitude = 3; sd.push_back(d); }
    auto mk = [&](int th) { auto q = limit(th); auto sc = std::make_unique<Scene<T>>(); sc->dynamic_stars_ = true; sc->dynamic_star_data_ = sd; for (auto& d : sd) sc->stars_.push_back(Star<T>(d, 0)); sc->star_epoch_ = Time::from_et(0); sc->update_star_epoch(Time::from_et(3e8)); std::vector<double> v; for (auto& x : sc->stars_) { auto d = x.get_direction(); v.push_back((double)d.x); v.push_back((double)d.y); v.push_back((double)d.z); } return v; }; auto p = mk(1); VH_CHECK(p == mk(8), "stars", "star positions depend on the threads"); vh::ev();
    // rays in bulk
    World<T> wd_; static Optics<T>& o = *new Optics<T>; o.size(8, 8, 2e-3); wd_.ci = wd_.sc->root.new_instance(o.cm); wd_.fill(.4, false); SceneView<T> v(*wd_.sc, Interval(Time::from_et(0), Time::from_et(0)), *wd_.ci, ObservationMode::TRUE_STATE, 1); std::vector<Ray<T>> rays; for (int i = 0; i < 400; ++i) { V d = rv(1); d[2] = std::abs(d[2]) + 1; rays.push_back(Ray<T>({0, 0, 0}, glm::normalize(Vec3<float>{(float)d[0], (float)d[1], (float)d[2]}))); }
    auto h8 = v.intersect(rays); auto i8 = v.resolve_hits(rays, h8); for (size_t i = 0; i < rays.size(); ++i) { auto h = v.intersect(rays[i]); bool eq = h.hit() == h8[i].hit() && (!h.hit() || (h.t == h8[i].t && h.inst_id == h8[i].inst_id && h.prim_id == h8[i].prim_id)); if (eq && h.hit() && v.instance_mappings_[h.inst_id].type == GeometryType::Primitive) { auto s1 = v.resolve_hit(rays[i], h); eq = s1.position == i8[i].position && s1.normal_g == i8[i].normal_g; vh::count("bulk hits"); } if (!eq) { VH_FAIL("bulk", "ray %zu gives another hit in bulk than alone", i); break; } } vh::ev();
}
static void body()
{
    R = vh::Rng(vh::seed() * 31 + 29); still_frames(); vh::watchdog(200); Optics<RGB>& a = *new Optics<RGB>; Optics<Visible8>& b = *new Optics<Visible8>; bool few = getenv("VH_FEW") != nullptr;
    for (int i = 0, N = few ? vh::n(10, 150) : vh::n(30, 600); i < N; ++i) { vh::watchdog(120); if (i % 6 == 0) { a.blur(); b.blur(); } if (i % 4 == 3) scene_case(b, i); else scene_case(a, i); if (i % 5 == 0) { if (i % 2) others<Visible8>(i); else others<RGB>(i); } }
#ifdef VH_TBBD
    vh::count("parallel loops", (uint64_t)tbbd::loops); vh::count("chunks", (uint64_t)tbbd::chunks); vh::count("hand-overs between threads", (uint64_t)tbbd::switches);
#endif
}
VH_MAIN(body())
