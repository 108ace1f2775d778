// Random scenes with everything a renderer meets: bodies, media, lights, point sources, motion, optics.
#pragma once
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
namespace wd {
struct Cb : StateCallback { Move m; Spin s; Cb(Move a, Spin b) : m(a), s(b) {} void evaluate(const Time& t) override { state.position = dv(m.at(t.et(), 0)); state.velocity = dv(m.vel(t.et(), 0)); state.rotation = dr(s.at(t.et(), 0)); state.angular_velocity = dv(s.om(t.et(), 0)); } };
template <class T> T spec(double lo, double hi) { T o{0}; for (size_t b = 0; b < T::size(); ++b) o[b] = (float)R.lu(lo, hi); return o; }
template <class T> T alb(double hi = .95) { T o{0}; for (size_t b = 0; b < T::size(); ++b) o[b] = (float)R.u(.02, hi); return o; }
template <class T, class P, class F> Image<P> texture(int w, int h, const F& f) { Image<P> im(w, h); for (size_t i = 0; i < im.size(); ++i) im[i] = f(); return im; }
template <class T> struct Bell : PSF<T> { float s; Bell(float a, int r, int n) : s(a) { this->build_polyphase_cache(r, n); } T evaluate(float x, float y) override { T o{0}; for (size_t b = 0; b < T::size(); ++b) o[b] = std::exp(-.5f * (x * x + y * y) / (s * s * (1 + .1f * (float)b))); return o; } };
template <class T> struct Optics { // the slow part of a camera
    Scene<T>& cams; CameraModelHandle<T> cm; std::shared_ptr<CameraModel<T>> c; double f = .05, pitch = 1e-5; int w = 8, h = 8;
    Optics() : cams(*new Scene<T>), cm(cams.new_camera_model("cam")), c(cm.get()) { c->set_focal_length(units::Meter(f)); size(8, 8, 2e-3); }
    void size(int W, int H, double p) { w = W; h = H; pitch = p; c->configure_sensor_from_pitch(Resolution{w, h}, units::Micrometer(units::Meter(p)), units::Micrometer(units::Meter(p))); }
    void field(int W, int H, double half) { size(W, H, f * std::tan(half) * 2 / std::max(W, H)); } // half angle of the longer side
    void blur() { c->delete_psf(); c->enable_psf_convolution(false); if (R.chance(.4)) { c->template set_psf<Bell<T>>((float)R.u(.4, 1.2), R.i(1, 4), R.i(1, 3)); if (R.chance(.5)) c->enable_psf_convolution(true); } }
};
template <class T> struct World { // bodies at 4 to 20 m around the boresight (+z)
    std::unique_ptr<Scene<T>> sc = std::make_unique<Scene<T>>(); int bodies = 0, lights = 0, points = 0, media = 0; bool moving = false; std::optional<InstanceHandle<T>> ci;
    FrameHandle<T> place(V p, bool move) { auto f = sc->root.new_subframe(); if (move && R.chance(.6)) { Move m; m.c = p; m.a = rv(.3L); m.b = {}; m.w = (L)R.u(.2, 2); Spin s = rspin(); f.get()->template set_custom_state_callback<Cb>(m, s); moving = true; } else { f.set_position(units::Meter((double)p[0]), units::Meter((double)p[1]), units::Meter((double)p[2])); f.set_rotation(dr(rrot())); if (R.chance(.3)) f.set_scale(R.u(.5, 1.6), R.u(.5, 1.6), R.u(.5, 1.6)); } return f; }
    V spot(double tan_half) { L z = (L)R.u(4, 20); return {z * (L)(tan_half * R.u(-1, 1)), z * (L)(tan_half * R.u(-1, 1)), z}; }
    MaterialHandle<T> material(bool media_ok, bool& null)
    {
        int k = R.i(0, media_ok ? 7 : 5); null = k == 6 || k == 7; auto b = k == 0 ? sc->new_bsdf_lambertian() : k == 1 ? sc->new_bsdf_oren_nayar() : k == 2 ? sc->new_bsdf_cook_torrance() : k == 3 ? sc->new_bsdf_lommel_seeliger() : k == 4 ? sc->new_bsdf_mcewen() : k == 5 ? sc->new_bsdf_hapke((float)R.u(.05, 1), (float)R.u(0, 1), (float)R.u(0, .5), (float)R.u(0, 1)) : sc->new_bsdf_null(); auto m = sc->new_material(b);
        if (null) { T one{1.f}; m.set_transmission_factor(one); return m; }
        m.set_albedo_factor(alb<T>()); m.set_roughness_factor((float)R.u(.05, 1)); m.set_metallic_factor(R.chance(.5) ? 0.f : (float)R.u(0, 1)); if (R.chance(.3)) m.set_alpha_factor((float)R.u(0, 1)); if (R.chance(.2)) m.set_emissive_factor(spec<T>(1e-3, 10)); if (R.chance(.2)) m.set_transmission_factor(alb<T>());
        if (R.chance(.4)) m.set_albedo_image(sc->add_texture(texture<T, T>(R.i(1, 9), R.i(1, 9), [] { return alb<T>(1); }))); if (R.chance(.2)) m.set_alpha_image(sc->add_texture(texture<T, float>(R.i(1, 9), R.i(1, 9), [] { return R.chance(.5) ? 1.f : (float)R.u(0, 1); }))); if (R.chance(.2)) m.set_normal_image(sc->add_normal_texture(texture<T, Vec3<float>>(R.i(1, 9), R.i(1, 9), [] { return Vec3<float>{(float)R.u(.3, .7), (float)R.u(.3, .7), 1.f}; })));
        return m;
    }
    GeometryHandle<T> shape()
    {
        if (R.chance(.5)) return sc->add_ellipsoid(units::Meter(R.u(.2, 2)), units::Meter(R.u(.2, 2)), units::Meter(R.u(.2, 2)));
        int n = R.i(3, 12); VertexBuffer<T> vb; IndexBuffer ib; for (int i = 0; i < 3 * n; ++i) { Vertex<T> v; v.position = {(float)R.u(-1.5, 1.5), (float)R.u(-1.5, 1.5), (float)R.u(-1.5, 1.5)}; v.uv = {(float)R.u(-1, 2), (float)R.u(-1, 2)}; vb.push_back(v); ib.push_back((uint32_t)i); } for (int i = 0; i < n; ++i) { auto &a = vb[(size_t)(3 * i)], &b = vb[(size_t)(3 * i + 1)], &c = vb[(size_t)(3 * i + 2)]; Vec3<float> nn = glm::normalize(glm::cross(b.position - a.position, c.position - a.position)); a.normal = b.normal = c.normal = nn; } return sc->add_mesh(ib, vb);
    }
    void fill(double half, bool move, bool everything = true)
    {
        double th = std::tan(half); for (int i = 0, n = R.i(1, 5); i < n; ++i) { bool null = false; auto m = material(everything, null); auto g = null ? GeometryHandle<T>(sc->add_ellipsoid(units::Meter(R.u(.5, 3)), units::Meter(R.u(.5, 3)), units::Meter(R.u(.5, 3)))) : shape(); auto f = place(spot(th), move); if (null) { auto md = sc->new_medium(sc->new_constant_density_field(spec<T>(1e-3, .5), spec<T>(1e-3, .8)), sc->new_isotropic_phase_function()); f.new_instance(sc->add_primitive(g, m, md)); ++media; } else { auto p = sc->add_primitive(g, m); f.new_instance(p); if (R.chance(.3)) place(spot(th), move).new_instance(p); } ++bodies; }
        for (int i = 0, n = R.i(0, 2); i < n; ++i) { auto l = sc->new_sphere_light(units::Meter(R.u(.1, 2)), units::Watt(R.lu(1, 1e4))); V p = R.chance(.5) ? spot(th) : rv(15); place(p, move).new_instance(l); ++lights; }
        if (R.chance(.5)) sc->set_background_radiance(spec<T>(1e-3, 1)); else if (R.chance(.5)) sc->set_background_radiance(texture<T, T>(R.i(1, 16), R.i(1, 8), [] { return spec<T>(1e-4, 1); }));
        if (everything && R.chance(.6)) { std::vector<Star<T>> st; for (int i = 0, n = R.i(1, 40); i < n; ++i) { V d = spot(th); st.push_back(Star<T>(dv((1 / len(d)) * d), spec<T>(1e-9, 1e-5))); ++points; } sc->set_stars(st); }
        if (everything && R.chance(.4)) for (int i = 0, n = R.i(1, 3); i < n; ++i) { place(spot(th), move).new_instance(sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(spec<T>(1e-9, 1e-5)))); ++points; }
    }
};
// every word of every buffer that is switched on
template <class T> std::vector<std::pair<std::string, std::vector<uint32_t>>> words(FrameBuffer<T>& fb, bool response = false)
{
    std::vector<std::pair<std::string, std::vector<uint32_t>>> o; auto add = [&](const char* n, bool has, auto& im) { if (!has) return; using P = std::decay_t<decltype(im[0])>; std::vector<uint32_t> v(im.size() * sizeof(P) / 4); for (size_t i = 0; i < im.size(); ++i) { P p = im[i]; std::memcpy(&v[i * (sizeof(P) / 4)], (const void*)&p, sizeof(P)); } o.push_back({n, v}); };
    add("received power", fb.has_received_power(), fb.received_power()); add("direct power", fb.has_received_direct_power(), fb.received_direct_power()); add("indirect power", fb.has_received_indirect_power(), fb.received_indirect_power()); add("depth", fb.has_depth(), fb.depth()); add("albedo", fb.has_albedo(), fb.albedo()); add("mesh ids", fb.has_geometry_ids(), fb.geometry_ids()); add("camera normals", fb.has_camera_normals(), fb.camera_normals()); add("world normals", fb.has_world_normals(), fb.world_normals()); if (response) add("sensor response", fb.has_sensor_response(), fb.sensor_response()); return o;
}
template <class T> void choose(FrameBuffer<T>& fb, unsigned m) { if (m & 1) fb.enable_received_power(); if (m & 2) fb.enable_received_direct_power(); if (m & 4) fb.enable_received_indirect_power(); if (m & 8) fb.enable_depth(); if (m & 16) fb.enable_albedo(); if (m & 32) fb.enable_geometry_ids(); if (m & 64) fb.enable_camera_normals(); if (m & 128) fb.enable_world_normals(); if (m & 256) fb.enable_sensor_response(); }
}
