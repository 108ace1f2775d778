// C18: after any history of setters a camera equals a fresh camera given the final settings once.
#include "cam.hpp"
#include "huira/handles/camera_handle.hpp"
#include <atomic>
#include <thread>
static thread_local vh::Rng R(1);
struct Cam : CameraModel<RGB> {
    using CameraModel<RGB>::aperture_; using CameraModel<RGB>::sensor_; using CameraModel<RGB>::psf_; using CameraModel<RGB>::pixel_solid_angles_;
    using CameraModel<RGB>::veiling_alpha_; using CameraModel<RGB>::veiling_glare_enabled_; using CameraModel<RGB>::scatter_enabled_; using CameraModel<RGB>::scatter_fraction_;
    using CameraModel<RGB>::scatter_falloff_exponent_; using CameraModel<RGB>::r0_; using CameraModel<RGB>::scatter_radius_; using CameraModel<RGB>::convolve_psf_; using CameraModel<RGB>::depth_of_field_; using CameraModel<RGB>::distortion_;
};
struct Intr { float fx, fy, cx, cy; Resolution res{1, 1}; double f; };
struct S {
    double f = .05; SimpleSensorConfig<RGB> cfg; std::optional<float> cx, cy; std::optional<Intr> intr; bool sensor_after_intr = false;
    double diameter = .05 / 2.8; Lens lens; bool blender = false; double focus = INFINITY;
    int psf = 0, prad = 1, pbanks = 1; double pN = 4; // 1 aperture, 2 fixed Airy disk
    bool convolve = false, dof = false; double glare = 0; bool scatter = false; float sf = 0, se = 2, sr0 = .5f, srad = 0;
};
static Cam* fresh(const S& s)
{
    Cam* c = new Cam; SimpleSensorConfig<RGB> small = s.cfg; c->set_sensor<SimpleSensor<RGB>>(small);
    c->set_focal_length(units::Meter(s.f)); c->set_aperture<CircularAperture<RGB>>(units::Meter(s.diameter));
    if (s.intr) { auto& k = *s.intr; c->set_intrinsics(k.fx, k.fy, k.cx, k.cy, k.res, units::Meter(k.f)); if (s.sensor_after_intr) c->set_sensor<SimpleSensor<RGB>>(s.cfg); }
    else if (s.cx || s.cy) { c->configure_sensor_from_pitch(s.cfg.resolution, s.cfg.pitch_x, s.cfg.pitch_y, s.cx, s.cy); }
    c->use_blender_convention(s.blender); s.lens.apply(*c); c->set_focus_distance(units::Meter(s.focus));
    if (s.psf == 1) c->use_aperture_psf(s.prad, s.pbanks);
    if (s.psf == 2) c->set_psf<AiryDisk<RGB>>(units::Meter(.1), units::Meter(1e-5), units::Meter(1e-5), units::Meter(.1 / s.pN), s.prad, s.pbanks);
    c->enable_psf_convolution(s.convolve); c->enable_depth_of_field(s.dof); if (s.glare > 0) c->set_veiling_glare((float)s.glare); if (s.scatter) c->set_harvey_shack_scatter(s.sf, s.se, s.sr0, s.srad);
    return c;
}
using Obs = std::vector<std::pair<std::string, std::vector<double>>>;
static Obs observe(const Cam& c, std::uint64_t seed)
{
    vh::Rng r(seed); Obs o; auto add = [&](const char* n, std::vector<double> v) { o.push_back({n, std::move(v)}); };
    auto res = c.resolution(); add("resolution", {(double)res.x, (double)res.y}); add("focal-length", {c.focal_length().to_si()}); add("fstop", {c.fstop()}); add("blender", {(double)c.is_blender_convention()});
    auto pitch = c.sensor_->pixel_pitch(); add("pitch", {pitch.x, pitch.y});
    { auto q = c.sensor_->quantum_efficiency(); add("sensor", {c.sensor_->gain_adu(), c.sensor_->full_well_capacity(), c.sensor_->read_noise(), c.sensor_->bias_level_dn(), (double)c.sensor_->bit_depth(), q[0], q[1], q[2], c.sensor_->rotation().to_si(), c.sensor_->dark_current(), c.sensor_->unity_db(), (double)c.sensor_->simulate_noise()});
      auto m = c.sensor_rotation(); Vec3<double> ex = m * Vec3<double>(1, 0, 0); add("sensor-rotation", {ex.x, ex.y, ex.z}); double an = c.sensor_->rotation().to_si(); vh::ev(); VH_CHECK(std::fabs(ex.x - std::cos(an)) + std::fabs(ex.y - std::sin(an)) + std::fabs(ex.z) < 1e-12, "sensor-rotation", "a sensor turned by %g rad has its x axis at (%g,%g,%g)", an, ex.x, ex.y, ex.z); }
    double sg = c.is_blender_convention() ? -1 : 1; std::vector<double> pr, ry, fv, pw, ar, tp;
    Pixel far = c.project_point({0.f, 0.f, (float)sg}), fx1 = c.project_point({.01f, .01f * (float)sg, (float)sg}); double hx = std::max(1e-6f, std::fabs(fx1[0] - far[0])) / .01, hy = std::max(1e-6f, std::fabs(fx1[1] - far[1])) / .01;
    (void)hx; (void)hy;
    for (int k = 0; k < 12; ++k) {
        Pixel p{(float)(res.x * (k == 0 ? 0 : k == 1 ? .9999 : r.u(0, .999))), (float)(res.y * (k == 0 ? .9999 : k == 2 ? .9999 : r.u(0, .999)))}; auto ray = c.cast_ray(p); auto d = ray.direction(); for (int a = 0; a < 3; ++a) ry.push_back(d[a]);
        // relative to the image: directions a little outside the border too
        Pixel e{p[0] + (float)(res.x * r.u(-.5, .5)), p[1] + (float)(res.y * r.u(-.5, .5))}; (void)e;
        Vec3<float> w = d * (float)r.lu(.5, 1e4); auto q = c.project_point(w); pr.push_back(q[0]); pr.push_back(q[1]);
        Vec3<float> off = w + Vec3<float>((float)r.u(-1, 1), (float)r.u(-1, 1), 0.f) * std::fabs(w.z) * (float)(.3 * res.x * pitch.x / c.focal_length().to_si());
        fv.push_back(c.in_fov(off)); fv.push_back(c.in_fov(-w)); auto t = c.try_project_point(off); tp.push_back(std::isnan(t[0]) ? -9999 : t[0]); tp.push_back(std::isnan(t[1]) ? -9999 : t[1]);
        int x = std::min((int)p[0], res.x - 1), y = std::min((int)p[1], res.y - 1); pw.push_back(c.pixel_radiance_to_power(x, y)); pw.push_back(c.pixel_solid_angles_(x, y)); ar.push_back(c.get_projected_aperture_area(d));
    }
    add("rays", ry); add("projection", pr); add("field-of-view", fv); add("visible", tp); add("solid-angle", pw); add("aperture-area", ar);
    add("solid-size", {(double)c.pixel_solid_angles_.width(), (double)c.pixel_solid_angles_.height()});
    std::vector<double> fn; for (auto& n : c.view_frustum().plane_normals()) for (int a = 0; a < 3; ++a) fn.push_back(n[a]); add("view-volume", fn);
    add("has-psf", {(double)c.has_psf(), (double)c.convolve_psf_, (double)c.depth_of_field_, (double)(c.distortion_ != nullptr)});
    if (c.has_psf()) { std::vector<double> k{(double)c.get_psf_radius()}; for (float u : {0.f, .6f}) { auto& im = c.get_psf_kernel(u, .3f); for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) for (int b = 0; b < 3; ++b) k.push_back(im(x, y)[b]); } add("psf", k); }
    add("focus", {c.get_diopters().to_si()});
    { std::vector<double> k{(double)c.aperture_->has_defocus(), c.aperture_->get_defocus_radius()}; if (c.aperture_->has_defocus()) { k.push_back(c.aperture_->get_defocus_half_extent()); for (float u : {0.f, .7f}) { auto& im = c.aperture_->get_defocus_kernel(u, .4f); for (int y = 0; y < im.height(); ++y) for (int x = 0; x < im.width(); ++x) k.push_back(im(x, y)); } } add("defocus", k); }
    add("stray", {c.veiling_alpha_, (double)c.veiling_glare_enabled_, (double)c.scatter_enabled_, c.scatter_fraction_, c.scatter_falloff_exponent_, c.r0_, c.scatter_radius_});
    auto fb = c.make_frame_buffer(); add("frame-buffer", {(double)fb.width(), (double)fb.height()});
    return o;
}
static bool agree(const Obs& a, const Obs& b, bool exact, std::string& what)
{
    if (a.size() != b.size()) { what = "different set of outputs"; return false; }
    for (size_t i = 0; i < a.size(); ++i) {
        auto &x = a[i].second, &y = b[i].second; if (x.size() != y.size()) { what = a[i].first + vh::fmt(": %zu vs %zu values", x.size(), y.size()); return false; }
        double sc = 0; for (double v : y) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v)); bool ang = a[i].first == "rays" || a[i].first == "view-volume";
        int bad = 0; size_t at = 0; bool flag = a[i].first == "visible" || a[i].first == "field-of-view";
        for (size_t k = 0; k < x.size(); ++k) {
            double t = exact ? 0 : ang ? 3e-7 : a[i].first == "projection" || a[i].first == "visible" ? 2e-4 * (1 + sc * 1e-2) : 3e-5 * std::fabs(y[k]) + 2e-6 * sc; if (a[i].first == "psf") t = 2e-4 * sc; if (a[i].first == "solid-angle") t = 1e-3 * std::fabs(y[k]);
            if (!(std::fabs(x[k] - y[k]) <= t || (std::isnan(x[k]) && std::isnan(y[k])) || x[k] == y[k])) { ++bad; at = k; }
        }
        if (bad > (flag && !exact ? 2 : 0)) { what = a[i].first + vh::fmt("[%zu] = %.9g, expected %.9g", at, x[at], y[at]); return false; }
    }
    return true;
}
static thread_local std::string hist;
static Resolution rres() { return Resolution{R.chance(.1) ? 1 : R.i(2, 20), R.chance(.1) ? 1 : R.i(2, 20)}; }
static double bad_number() { static const double b[] = {0, -1, -3e-5, NAN, INFINITY, -INFINITY}; return b[R.below(6)]; }
static float nonfinite() { static const float b[] = {NAN, INFINITY, -INFINITY}; return b[R.below(3)]; }
// one operation; returns false when it had to be rejected (and must have thrown)
template <class X> static void op(X& c, Cam& cam, S& s, bool psf_ok)
{
    auto note = [&](const std::string& t) { hist += t + "; "; vh::cur("%s", hist.substr(hist.size() > 3900 ? hist.size() - 3900 : 0).c_str()); };
    auto rejected = [&](const std::string& n, auto&& f) {
        note("!" + n); auto before = observe(cam, 77); bool threw = false; try { f(); } catch (const std::exception&) { threw = true; }
        VH_CHECK(threw, "accepted:" + n, "invalid setting accepted after: %s", hist.c_str());
        std::string w; if (threw && !agree(observe(cam, 77), before, true, w)) VH_FAIL("rejected:" + n, "a rejected setting changed %s; history %s", w.c_str(), hist.substr(hist.size() > 900 ? hist.size() - 900 : 0).c_str()); vh::count("rejected"); vh::ev();
    };
    double half = [&] { return .5 * std::hypot(s.cfg.resolution.x * s.cfg.pitch_x.to_si(), s.cfg.resolution.y * s.cfg.pitch_y.to_si()); }();
    auto blur_px = [&](double dia, double f, double d, double p) { return std::isinf(d) ? 0 : f * dia / 2 / d / p; };
    auto pmin = [&] { return std::min(s.cfg.pitch_x.to_si(), s.cfg.pitch_y.to_si()); };
    constexpr bool handle = !std::is_same_v<X, Cam>; if (handle) { hist += "h:"; vh::count("through-handle"); }
    switch (R.i(0, 29)) {
    case 0: case 1: { double f = half / R.lu(.01, .8); if (blur_px(s.diameter, f, s.focus, pmin()) > 15) break; note(vh::fmt("focal %g", f)); c.set_focal_length(units::Meter(f)); s.f = f; 
        if (s.intr) { s.cx = s.intr->cx; s.cy = s.intr->cy; } s.intr.reset(); break; }
    case 2: { double N = R.lu(1.2, 30); double dia = s.f / N; if (blur_px(dia, s.f, s.focus, pmin()) > 15) break; note(vh::fmt("fstop %g", N)); c.set_fstop((float)N); s.diameter = dia; break; }
    case 3: { double N = R.lu(1.2, 30); double dia = s.f / N; if (blur_px(dia, s.f, s.focus, pmin()) > 15) break; note(vh::fmt("aperture %g", dia)); c.template set_aperture<CircularAperture<RGB>>(units::Meter(dia)); s.diameter = dia; break; }
    case 4: case 5: case 6: case 7: {
        Resolution r = rres(); double px = R.lu(2e-6, 3e-5), py = R.chance(.5) ? px : px * R.u(.5, 2); std::optional<float> cx, cy; if (R.chance(.4)) cx = (float)(r.x * R.u(0, 1)); if (R.chance(.4)) cy = (float)(r.y * R.u(0, 1));
        if (blur_px(s.diameter, s.f, s.focus, std::min(px, py)) > 15) break;
        if (R.chance(.5)) { note(vh::fmt("pitch %dx%d %g %g cx%d cy%d", r.x, r.y, px, py, (bool)cx, (bool)cy)); c.configure_sensor_from_pitch(r, units::Meter(px), units::Meter(py), cx, cy); }
        else { bool h = R.chance(.6); if (!h) py = px; note(vh::fmt("size %dx%d %g %g h%d cx%d cy%d", r.x, r.y, px, py, h, (bool)cx, (bool)cy)); c.configure_sensor_from_size(r, units::Meter(px * r.x), h ? std::optional<units::Millimeter>(units::Meter(py * r.y)) : std::nullopt, cx, cy); }
        s.cfg.resolution = r; s.cfg.pitch_x = units::Meter(px); s.cfg.pitch_y = units::Meter(py); s.cx = cx; s.cy = cy; s.intr.reset(); break; }
    case 8: case 9: { SimpleSensorConfig<RGB> g; g.resolution = rres(); g.pitch_x = units::Meter(R.lu(2e-6, 3e-5)); g.pitch_y = R.chance(.5) ? g.pitch_x : units::Micrometer(units::Meter(R.lu(2e-6, 3e-5))); g.gain = (float)R.lu(.1, 10); g.bit_depth = R.i(6, 16); g.read_noise = (float)R.u(0, 20);
        if (blur_px(s.diameter, s.f, s.focus, std::min(g.pitch_x.to_si(), g.pitch_y.to_si())) > 15) break;
        note(vh::fmt("sensor %dx%d", g.resolution.x, g.resolution.y)); c.template set_sensor<SimpleSensor<RGB>>(g); s.cfg = g; if (s.intr) s.sensor_after_intr = true; break; }
    case 10: case 11: { Intr k; k.res = rres(); k.f = s.f * R.u(.5, 2); double px = R.lu(2e-6, 3e-5), py = R.chance(.5) ? px : px * R.u(.5, 2); k.fx = (float)(k.f / px); k.fy = (float)(k.f / py); k.cx = (float)(k.res.x * R.u(0, 1)); k.cy = (float)(k.res.y * R.u(0, 1));
        if (blur_px(s.diameter, k.f, s.focus, std::min(px, py)) > 15) break;
        note(vh::fmt("intrinsics %dx%d %g %g f=%g", k.res.x, k.res.y, k.fx, k.fy, k.f)); if (R.chance(.5)) c.set_intrinsics(k.fx, k.fy, k.cx, k.cy, k.res, units::Meter(k.f)); else { Mat3<float> K(1.f); K[0][0] = k.fx; K[1][1] = k.fy; K[2][0] = k.cx; K[2][1] = k.cy; c.set_intrinsic_matrix(K, k.res, units::Meter(k.f)); }
        s.intr = k; s.sensor_after_intr = false; s.f = k.f; s.cfg.resolution = k.res; s.cfg.pitch_x = units::Meter(k.f / k.fx); s.cfg.pitch_y = units::Meter(k.f / k.fy); s.cx = k.cx; s.cy = k.cy; break; }
    case 12: case 13: { int k = R.i(0, 3); Lens l = random_lens(R, k, 1.0, .3); note(vh::fmt("lens %d", k)); l.apply(c); s.lens = l; break; }
    case 14: { note("delete-lens"); c.delete_distortion(); s.lens = Lens{}; break; }
    case 15: { bool b = R.chance(.5); note(vh::fmt("blender %d", b)); c.use_blender_convention(b); s.blender = b; break; }
    case 16: { double d = R.chance(.3) ? INFINITY : R.lu(.3, 1e3); if (blur_px(s.diameter, s.f, d, pmin()) > 15) break; if (R.chance(.5) || std::isinf(d)) { note(vh::fmt("focus %g", d)); c.set_focus_distance(units::Meter(d)); } else { note(vh::fmt("diopters %g", 1 / d)); c.set_diopters(units::Diopter(1 / d)); } s.focus = d; break; }
    case 17: { note("focus inf"); c.set_diopters(units::Diopter(0)); s.focus = INFINITY; break; }
    case 18: if (psf_ok) { s.prad = R.i(1, 2); s.pbanks = R.i(1, 2); if (R.chance(.7)) { note("aperture-psf"); c.use_aperture_psf(s.prad, s.pbanks); s.psf = 1; } else { s.pN = R.u(2, 20); note("fixed-psf"); c.template set_psf<AiryDisk<RGB>>(units::Meter(.1), units::Meter(1e-5), units::Meter(1e-5), units::Meter(.1 / s.pN), s.prad, s.pbanks); s.psf = 2; } } break;
    case 19: if (R.chance(.4)) { note("delete-psf"); c.delete_psf(); s.psf = 0; } break;
    case 20: { s.convolve = R.chance(.5); s.dof = R.chance(.5); note(vh::fmt("convolve %d dof %d", s.convolve, s.dof)); c.enable_psf_convolution(s.convolve); c.enable_depth_of_field(s.dof); break; }
    case 21: { if (R.chance(.3)) { note("no-glare"); c.disable_veiling_glare(); s.glare = 0; } else { s.glare = (float)R.u(0, 1); note("glare"); c.set_veiling_glare((float)s.glare); } break; }
    case 22: { if (R.chance(.4)) { note("no-scatter"); c.disable_harvey_shack_scatter(); s.scatter = false; } else { s.scatter = true; s.sf = (float)R.u(0, .5); s.se = (float)R.u(1.5, 3); s.sr0 = (float)R.u(.2, 2); s.srad = (float)R.i(0, 30); note("scatter"); c.set_harvey_shack_scatter(s.sf, s.se, s.sr0, s.srad); } break; }
    case 23: rejected("focal-length", [&] { c.set_focal_length(units::Meter(bad_number())); }); break;
    case 24: { double b = bad_number(); int k = R.i(0, 3);
        if (k == 0) rejected("pitch", [&] { c.configure_sensor_from_pitch(rres(), units::Meter(b), R.chance(.5) ? std::optional<units::Micrometer>(units::Meter(1e-5)) : std::nullopt); });
        else if (k == 1) rejected("pitch-y", [&] { c.configure_sensor_from_pitch(rres(), units::Meter(1e-5), units::Micrometer(units::Meter(b))); });
        else if (k == 2) rejected("size", [&] { c.configure_sensor_from_size(rres(), units::Meter(b), R.chance(.5) ? std::optional<units::Millimeter>(units::Meter(1e-3)) : std::nullopt); });
        else rejected("size-y", [&] { c.configure_sensor_from_size(rres(), units::Meter(1e-3), units::Millimeter(units::Meter(b))); }); break; }
    case 25: { int k = R.i(0, 5); Resolution neg{R.chance(.5) ? -1 : 5, -7};
        if (k == 0) rejected("principal", [&] { c.configure_sensor_from_pitch(rres(), units::Meter(1e-5), std::nullopt, R.chance(.5) ? std::optional<float>(nonfinite()) : std::nullopt, nonfinite()); });
        else if (k == 1) rejected("principal-size", [&] { c.configure_sensor_from_size(rres(), units::Meter(1e-3), std::nullopt, nonfinite(), std::nullopt); });
        else if (k == 2) rejected("resolution", [&] { c.configure_sensor_from_pitch(neg, units::Meter(1e-5)); });
        else if (k == 3) rejected("resolution-size", [&] { c.configure_sensor_from_size(neg, units::Meter(1e-3)); });
        else if (k == 4) rejected("resolution-intrinsics", [&] { c.set_intrinsics(1000, 1000, 2, 2, neg, units::Meter(.05)); });
        else rejected("sensor", [&] { SimpleSensorConfig<RGB> g; if (R.chance(.5)) g.pitch_x = units::Meter(R.chance(.5) ? 0. : NAN); else g.resolution = Resolution{4, -4}; c.template set_sensor<SimpleSensor<RGB>>(g); }); break; }
    case 26: case 27: if constexpr (handle) { // the sensor's own settings; a change of geometry keeps them
        auto& g = s.cfg; int k = R.i(0, 10); note(vh::fmt("sensor-setting %d", k));
        if (k == 0) { float q = (float)R.u(0, 1); c.set_sensor_quantum_efficiency((double)q); g.quantum_efficiency = RGB(q); }
        if (k == 1) { RGB q{(float)R.u(0, 1), (float)R.u(0, 1), (float)R.u(0, 1)}; c.set_sensor_quantum_efficiency(q); g.quantum_efficiency = q; }
        if (k == 2) c.set_sensor_full_well_capacity(g.full_well_capacity = (float)R.lu(10, 1e5));
        if (k == 3) c.set_sensor_simulate_noise(g.simulate_noise = R.chance(.5));
        if (k == 4) c.set_sensor_read_noise(g.read_noise = (float)R.u(0, 30));
        if (k == 5) c.set_sensor_dark_current(g.dark_current = (float)R.u(0, 30));
        if (k == 6) c.set_sensor_bias_level(g.bias_level_dn = (float)R.u(0, 300));
        if (k == 7) c.set_sensor_bit_depth(g.bit_depth = R.i(1, 16));
        if (k == 8) { if (R.chance(.5)) c.set_sensor_gain(g.gain = (float)R.lu(.1, 10)); else { float db = (float)R.u(-30, 30); c.set_sensor_gain_db(db); g.gain = std::pow(10.f, (g.unity_db - db) / 20.f); } }
        if (k == 9) c.set_sensor_uinty_db(g.unity_db = (float)R.u(-10, 10));
        if (k == 10) { double a = R.u(-7, 7); c.set_sensor_rotation(units::Radian(a)); g.rotation = units::Radian(a); }
        } break;
    case 28: if constexpr (handle) { // removed setters refuse; the handle answers as the camera does
            int k = R.i(0, 5);
            if (k == 0) rejected("removed", [&] { c.set_sensor_resolution(Resolution{4, 4}); }); if (k == 1) rejected("removed", [&] { c.set_sensor_resolution(4, 5); });
            if (k == 2) rejected("removed", [&] { c.set_sensor_pixel_pitch(units::Meter(1e-5), units::Meter(2e-5)); }); if (k == 3) rejected("removed", [&] { c.set_sensor_pixel_pitch(units::Meter(1e-5)); });
            if (k == 4) rejected("removed", [&] { c.set_sensor_size(units::Meter(1e-2), units::Meter(2e-2)); }); if (k == 5) rejected("removed", [&] { c.set_sensor_size(units::Meter(1e-2)); });
            Vec3<float> w{(float)R.u(-1, 1), (float)R.u(-1, 1), cam.is_blender_convention() ? -2.f : 2.f}; Pixel a = c.project_point(w), b = cam.project_point(w); auto f1 = c.make_frame_buffer(); vh::ev();
            VH_CHECK(c.focal_length().to_si() == cam.focal_length().to_si() && c.fstop() == cam.fstop() && c.get_focus_distance().to_si() == cam.get_focus_distance().to_si() && c.get_diopters().to_si() == cam.get_diopters().to_si() && a[0] == b[0] && a[1] == b[1] && f1.width() == cam.resolution().x && f1.height() == cam.resolution().y && c.valid(), "handle-reads", "the handle of a camera answers differently from the camera");
        } break;
    default: { int k = R.i(0, 6);
        if (k == 0) rejected("intrinsics-fx", [&] { c.set_intrinsics((float)bad_number(), 1000, 3, 3, rres(), units::Meter(.05)); });
        else if (k == 1) rejected("intrinsics-fy", [&] { c.set_intrinsics(1000, (float)bad_number(), 3, 3, rres(), units::Meter(.05)); });
        else if (k == 2) rejected("intrinsics-center", [&] { c.set_intrinsics(1000, 1000, R.chance(.5) ? 3.f : nonfinite(), nonfinite(), rres(), units::Meter(.05)); });
        else if (k == 3) rejected("intrinsics-anchor", [&] { c.set_intrinsics(1000, 1000, 3, 3, rres(), units::Meter(bad_number())); });
        else if (k == 4) rejected("focus", [&] { c.set_focus_distance(units::Meter(R.chance(.5) ? 0. : NAN)); });
        else if (k == 5) rejected("diopters", [&] { c.set_diopters(units::Diopter(NAN)); });
        else rejected("glare", [&] { c.set_veiling_glare(R.chance(.5) ? -.1f : R.chance(.5) ? 1.01f : NAN); }); break; }
    }
    vh::count("ops");
}
static void sequence(long i)
{
    R = vh::Rng(vh::seed() * 977 + 3 + (std::uint64_t)i * 1000003);
    hist.clear(); S s; s.cfg.resolution = Resolution{6, 5}; std::shared_ptr<Cam> c(new Cam); CameraModelHandle<RGB> h{std::weak_ptr<CameraModel<RGB>>(c)}; c->set_sensor<SimpleSensor<RGB>>(s.cfg); bool psf = R.chance(.12);
    int len = R.i(3, 40), next = R.i(1, 6);
    for (int k = 0; k < len; ++k) {
        if (R.chance(.5)) op(*c, *c, s, psf); else op(h, *c, s, psf);
        if (k == len - 1 || --next == 0) { // compare part-way too: the fresh camera must agree at every point
            next = R.i(4, 15); std::unique_ptr<Cam> f(fresh(s)); std::uint64_t sd = R.next(); std::string w; vh::ev(); vh::distinct(vh::hash_bytes(hist.data(), hist.size()));
            if (!agree(observe(*c, sd), observe(*f, sd), false, w)) { VH_FAIL("stale:" + w.substr(0, w.find_first_of("[:")), "after %s: %s", hist.substr(hist.size() > 1200 ? hist.size() - 1200 : 0).c_str(), w.c_str()); break; }
            vh::count("compared"); if (s.psf) vh::count("compared-psf"); if (c->aperture_->has_defocus()) vh::count("compared-defocus"); if (s.lens.kind) vh::count("compared-lens"); if (s.intr) vh::count("compared-intrinsics");
        }
    }
    if (i < 4) vh::sample(hist.substr(0, 300));
}
static void body()
{
    long N = vh::n(400, 8000); if (getenv("VH_FEW")) N = vh::n(24, 240);
    std::atomic<long> next{0}; std::vector<std::thread> th;
    for (int t = 0; t < 6; ++t) th.emplace_back([&] { for (long i; (i = next++) < N;) sequence(i); });
    for (auto& t : th) t.join();
    // a camera nobody has set up: all that is documented for it, and the same as one given the default sensor
    R = vh::Rng(vh::seed() + 77); Cam d, e; e.set_sensor<SimpleSensor<RGB>>(); std::string w; std::uint64_t sd = R.next(); vh::cur("untouched camera"); vh::ev(); VH_CHECK(agree(observe(d, sd), observe(e, sd), false, w), "stale:untouched", "a camera nobody has set up differs from one given the default sensor: %s", w.c_str());
    auto q = d.project_point({0.f, 0.f, 1.f}); auto res = d.resolution(); VH_CHECK(std::fabs(q[0] - res.x * .5) < 1e-3 && std::fabs(q[1] - res.y * .5) < 1e-3, "stale:untouched-centre", "a new camera looks along pixel (%g,%g) of %d x %d", (double)q[0], (double)q[1], res.x, res.y);
    VH_CHECK(std::fabs(d.fstop() - 2.8) < 1e-4, "stale:untouched-fstop", "a new camera has f/%g", (double)d.fstop());
}
VH_MAIN(body())
