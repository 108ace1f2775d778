// C31: rendered surfaces, lights, backgrounds and media against closed-form radiometry and brute-force geometry.
#include "world.hpp"
using namespace wd; using D = double;
struct Line : StateCallback { V p, v; M r; Line(V a, V b, M c) : p(a), v(b), r(c) {} void evaluate(const Time& t) override { state.position = dv(p + (L)t.et() * v); state.velocity = dv(v); state.rotation = dr(r); state.angular_velocity = {0, 0, 0}; } };
static const M FLIP{{{1, 0, 0}, {0, -1, 0}, {0, 0, -1}}}, ONE{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
static V un(V v) { return (1 / len(v)) * v; }

// a camera somewhere in the world; everything else is described in its optical frame (x right, y down, z ahead)
template <class T> struct Shot {
    Optics<T>& o; std::unique_ptr<Scene<T>> sc = std::make_unique<Scene<T>>(); V P{}; M W = ONE; bool bl = false; std::optional<InstanceHandle<T>> ci; D dur = 1; size_t nt = 1; int w, h; D half;
    Shot(Optics<T>& op, int W_, int H_, D hf, bool motion = false) : o(op), w(W_), h(H_), half(hf)
    {
        bl = R.chance(.3); o.c->use_blender_convention(bl); o.c->set_focus_distance(units::Meter(INFINITY)); o.c->enable_depth_of_field(false); o.c->disable_veiling_glare(); o.c->delete_psf(); o.c->enable_psf_convolution(false); if (R.chance(.3)) { o.f = R.lu(.01, .3); o.c->set_focal_length(units::Meter(o.f)); o.c->set_fstop((float)R.u(1.4, 11)); } o.field(w, h, half);
        P = rv(R.chance(.5) ? 0 : R.lu(1, 1e7)); M m = R.chance(.2) ? ONE : rrot(); auto f = sc->root.new_subframe(); f.set_position(units::Meter((D)P[0]), units::Meter((D)P[1]), units::Meter((D)P[2])); f.set_rotation(dr(m)); ci = f.new_instance(o.cm); double turn = R.chance(.7) ? 0 : R.u(-7, 7); o.cm.set_sensor_rotation(units::Radian(turn)); const L ct = std::cos((L)turn), st = std::sin((L)turn); W = mul(mul(m, M{{{ct, -st, 0}, {st, ct, 0}, {0, 0, 1}}}), bl ? FLIP : ONE); if (motion) { nt = (size_t)R.i(2, 6); dur = R.lu(.01, 10); }
    }
    D fx() const { return o.f / o.pitch; }
    V dir(D x, D y) const { return un({(L)((x - (D)o.c->cx_) / fx()), (L)((y - (D)o.c->cy_) / fx()), 1}); }
    FrameHandle<T> place(V p, M r, V scale, V move = {}) { auto f = sc->root.new_subframe(); V q = P + app(W, p); M m = mul(W, r); if (len(move) > 0) f.get()->template set_custom_state_callback<Line>(q, (1 / (L)dur) * app(W, move), m); else { f.set_position(units::Meter((D)q[0]), units::Meter((D)q[1]), units::Meter((D)q[2])); f.set_rotation(dr(m)); } if (scale[0] != 1 || scale[1] != 1 || scale[2] != 1) { auto g = f.new_subframe(); g.set_scale((D)scale[0], (D)scale[1], (D)scale[2]); return g; } return f; }
    SceneView<T> view() { return SceneView<T>(*sc, Interval(Time::from_et(0), Time::from_et(dur)), *ci, ObservationMode::TRUE_STATE, nt); }
    // watts per unit radiance: solid angle times projected aperture, with the range the cosine has over the pixel
    void gain(int x, int y, D& g, D& glo, D& ghi) const { D om = 0, p = 1 / fx(); const int K = p > .02 ? 40 : 6; D cl = 1e9, ch = 0; for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) { D c = (D)dir(x + (i + .5) / K, y + (j + .5) / K)[2]; om += p * p / (K * K) * c * c * c; } for (int i = 0; i <= 2; ++i) for (int j = 0; j <= 2; ++j) { D c = (D)dir(x + i * .5, y + j * .5)[2]; cl = std::min(cl, c); ch = std::max(ch, c); } D A = (D)o.c->aperture_->get_area().to_si(); glo = om * A * cl * (1 - 2e-4); ghi = om * A * ch * (1 + 2e-4); g = (glo + ghi) / 2; }
};
template <class T> struct Obj { int kind = 0; V c{}, semi{1, 1, 1}, move{}; M r = ONE; T E{0.f}, alb{0.f}, sig{0.f}; D alpha = 1; uint64_t id = 0; bool light = false, medium = false; 
    // entry and exit along o + t d at shutter time s
    bool span(const V& o, const V& d, D s, L& a, L& b) const
    {
        V q = app(tr(r), o - c - (L)s * move), e = app(tr(r), d); for (size_t i = 0; i < 3; ++i) { q[i] /= semi[i]; e[i] /= semi[i]; }
        if (kind == 0) { L A = dot(e, e), B = dot(q, e); V pe = q - (B / A) * e; L m = 1 - dot(pe, pe); if (m <= 0) return false; L k = std::sqrt(m / A); a = -B / A - k; b = -B / A + k; return true; }
        a = -1e30L; b = 1e30L; for (size_t i = 0; i < 3; ++i) { if (std::abs(e[i]) < 1e-18L) { if (std::abs(q[i]) > 1) return false; continue; } L t1 = (-1 - q[i]) / e[i], t2 = (1 - q[i]) / e[i]; a = std::max(a, std::min(t1, t2)); b = std::min(b, std::max(t1, t2)); } return a < b;
    }
    V normal(const V& p, D s) const { V q = app(tr(r), p - c - (L)s * move); for (size_t i = 0; i < 3; ++i) q[i] /= semi[i]; V n{}; if (kind == 0) for (size_t i = 0; i < 3; ++i) n[i] = q[i] / semi[i]; else { size_t k = 0; for (size_t i = 1; i < 3; ++i) if (std::abs(q[i]) > std::abs(q[k])) k = i; n[k] = q[k] > 0 ? 1 : -1; } return un(app(r, n)); }
};
template <class T> static GeometryHandle<T> cube(Scene<T>& sc) { VertexBuffer<T> vb; IndexBuffer ib; for (int f = 0; f < 6; ++f) { int ax = f / 2; float sg = f % 2 ? 1.f : -1.f; int u = (ax + 1) % 3, v = (ax + 2) % 3; for (int k = 0; k < 4; ++k) { Vertex<T> x; x.position[ax] = sg; x.position[u] = (k == 1 || k == 2 ? 1.f : -1.f) * sg; x.position[v] = k >= 2 ? 1.f : -1.f; x.normal = {0, 0, 0}; x.normal[ax] = sg; vb.push_back(x); } for (uint32_t q : {0u, 1u, 2u, 0u, 2u, 3u}) ib.push_back((uint32_t)(4 * f) + q); } return sc.add_mesh(ib, vb); }
template <class T> static void add(Shot<T>& s, Obj<T>& b)
{
    if (b.light) { auto l = s.sc->new_sphere_light(units::Meter((D)b.semi[0]), units::SpectralWattsPerMeterSquaredSteradian<T>(b.E)); if (R.chance(.4)) { D a = 0; a = 4 * PI<D>() * PI<D>() * (D)(b.semi[0] * b.semi[0]); T p = b.E * (float)a; l = s.sc->new_sphere_light(units::Meter((D)b.semi[0]), units::SpectralWatts<T>(p)); } s.place(b.c, b.r, {1, 1, 1}, b.move).new_instance(l); return; }
    V sc{1, 1, 1}; GeometryHandle<T> g = b.kind == 1 ? GeometryHandle<T>(cube(*s.sc)) : [&] { if (R.chance(.5)) { return GeometryHandle<T>(s.sc->add_ellipsoid(units::Meter((D)b.semi[0]), units::Meter((D)b.semi[1]), units::Meter((D)b.semi[2]))); } sc = b.semi; return GeometryHandle<T>(s.sc->add_ellipsoid(units::Meter(1), units::Meter(1), units::Meter(1))); }(); if (b.kind == 1) sc = b.semi; b.id = g.get()->id();
    auto m = s.sc->new_material(b.medium ? s.sc->new_bsdf_null() : s.sc->new_bsdf_lambertian()); if (b.medium) { m.set_transmission_factor(T{1.f}); auto md = s.sc->new_medium(s.sc->new_constant_density_field(b.sig, b.alb), s.sc->new_isotropic_phase_function()); s.place(b.c, b.r, sc, b.move).new_instance(s.sc->add_primitive(g, m, md)); return; }
    m.set_albedo_factor(b.alb); m.set_emissive_factor(b.E); if (b.alpha < 1) m.set_alpha_factor((float)b.alpha); s.place(b.c, b.r, sc, b.move).new_instance(s.sc->add_primitive(g, m));
}
// radiance of self-luminous scenes along one direction
template <class T, class BG> static std::vector<D> radiance(const std::vector<Obj<T>>& ob, const V& d, D s, const BG& bg, D refl_bg)
{
    struct H { L t; size_t i; bool in; }; std::vector<H> hs; for (size_t i = 0; i < ob.size(); ++i) { L a, b; if (!ob[i].span({0, 0, 0}, d, s, a, b)) continue; if (a > 0) hs.push_back({a, i, true}); if (b > 0) hs.push_back({b, i, false}); } std::sort(hs.begin(), hs.end(), [](auto& x, auto& y) { return x.t < y.t; });
    std::vector<D> w(T::size(), 1), o(T::size(), 0); std::vector<size_t> in; L at = 0; for (auto& x : hs) { auto& b = ob[x.i]; if (!in.empty() && ob[in.back()].medium) for (size_t k = 0; k < T::size(); ++k) w[k] *= std::exp(-(D)(x.t - at) * (D)ob[in.back()].sig[k]); at = x.t; auto it = std::find(in.begin(), in.end(), x.i); if (it == in.end()) in.push_back(x.i); else in.erase(it); if (b.medium) continue; D al = b.light ? 1 : b.alpha; for (size_t k = 0; k < T::size(); ++k) { o[k] += w[k] * al * ((D)b.E[k] + (D)b.alb[k] * refl_bg); w[k] *= 1 - al; } if (al >= 1) return o; }
    auto e = bg(d); for (size_t k = 0; k < T::size(); ++k) o[k] += w[k] * e[k]; return o;
}
template <class T> static void plain(Image<T>& im, const char* what, bool conv = false) { D m = 0; if (conv) for (size_t i = 0; i < im.size(); ++i) for (size_t k = 0; k < T::size(); ++k) m = std::max(m, (D)im[i][k]); for (size_t i = 0; i < im.size(); ++i) for (size_t k = 0; k < T::size(); ++k) if (!std::isfinite(im[i][k]) || im[i][k] < -1e-6 * m) { VH_FAIL("not-finite", "%s: pixel %zu band %zu is %g", what, i, k, im[i][k]); return; } }
// unbiased: residuals of all pixels, halves and quarters sum to zero within their own scatter
struct Resid { int w, h; std::vector<D> r, e; Resid(int a, int b) : w(a), h(b), r((size_t)(a * b), 0), e((size_t)(a * b), 0) {} void set(int x, int y, D got, D want) { r[(size_t)(y * w + x)] = got - want; e[(size_t)(y * w + x)] = want; }
    void check(const char* key, const char* what, D rel = 2e-3) { auto part = [&](int x0, int y0, int x1, int y1) { D s = 0, q = 0, m = 0; int n = 0; for (int y = y0; y < y1; ++y) for (int x = x0; x < x1; ++x) { size_t i = (size_t)(y * w + x); s += r[i]; q += r[i] * r[i]; m += e[i]; n += r[i] != 0 || e[i] != 0; } if (!(std::fabs(s) <= 6.5 * std::sqrt(q) + rel * m)) { VH_FAIL(key, "%s: pixels (%d,%d) to (%d,%d) receive %.6g W, expected %.6g (scatter %.2g)", what, x0, y0, x1, y1, m + s, m, std::sqrt(q)); return false; } return true; }; vh::ev(); if (!part(0, 0, w, h)) return; if (w > 3 && h > 3) { if (!part(0, 0, w / 2, h)) return; if (!part(w / 2, 0, w, h)) return; if (!part(0, 0, w, h / 2)) return; part(0, h / 2, w, h); } } };

// 1: lights, emitters, transparency, absorption and background, still or moving
template <class T> static void luminous(Optics<T>& op, int seq)
{
    bool motion = R.chance(.35); static const std::vector<int> sz{1, 3, 9, 16, 17, 25, 33, 40}; Shot<T> s(op, R.pick(sz), R.pick(sz), R.u(.02, .5), motion); int w = s.w, h = s.h; D th = std::tan(s.half); std::vector<Obj<T>> ob; int kind = R.i(0, 5); D refl = 0; T L0{0.f}; if (R.chance(.7) || kind == 1) L0 = spec<T>(1e-2, 10); s.sc->set_background_radiance(L0);
    int nb = kind == 1 ? 1 : kind == 0 ? 0 : R.i(1, 4); bool noisy = false; D far = 0;
    for (int i = 0; i < nb; ++i)
    {
        Obj<T> b; L z = (L)R.u(3, 30); b.c = {z * (L)(th * R.u(-1, 1) * w / std::max(w, h)), z * (L)(th * R.u(-1, 1) * h / std::max(w, h)), z}; L sz2 = z * (L)(th * R.u(.1, .6)); b.kind = R.i(0, 1); b.semi = {sz2 * (L)R.u(.3, 1), sz2 * (L)R.u(.3, 1), sz2 * (L)R.u(.3, 1)}; b.r = rrot(); b.light = kind != 1 && R.chance(.3); b.E = spec<T>(1e-2, 10); if (kind == 1) { b.E = R.chance(.5) ? T{0.f} : b.E; b.alb = alb<T>(); refl = 1; } else if (R.chance(.3) && !b.light) { b.alpha = R.u(.1, .9); noisy = true; }
        if (b.light) { b.kind = 0; b.semi = {b.semi[0], b.semi[0], b.semi[0]}; } if (motion && R.chance(.7)) { b.move = (L)(sz2 * R.u(.2, 3)) * un(rv(1)); if (b.move[2] < -z * .3L) b.move[2] = 0; noisy = true; } if (b.c[2] - len(b.semi) - len(b.move) < .5L) continue; bool clash = false; for (auto& q : ob) clash |= len(q.c - b.c) < len(q.semi) + len(b.semi) + len(q.move) + len(b.move); if (clash) continue; far = std::max(far, (D)len(b.c)); ob.push_back(b);
    }
    if (kind == 2) { Obj<T> m; m.medium = true; L z = (L)R.u(3, 30); m.c = {z * (L)(th * R.u(-.5, .5)), z * (L)(th * R.u(-.5, .5)), z}; L q = z * (L)(th * R.u(.3, 1.5)); q = std::min(q, z * .8L); m.semi = {q * (L)R.u(.6, 1), q * (L)R.u(.6, 1), q * (L)R.u(.6, 1)}; m.r = rrot(); m.kind = R.i(0, 1); if (m.kind == 1) m.semi = .5L * m.semi; D base = R.lu(.1, 1.5) / (2 * (D)q); for (size_t k = 0; k < T::size(); ++k) m.sig[k] = (float)(base * R.u(.5, 1.5)); bool clash = false; for (auto& b : ob) { L dd = len(b.c - m.c), mi = std::min({m.semi[0], m.semi[1], m.semi[2]}), lo = len(b.semi) + len(b.move), hi = len(m.semi); clash |= !(dd + lo < mi * .9L || dd > lo + hi); } if (!clash) { ob.push_back(m); noisy = true; vh::count("absorbing media"); } }
    for (auto& b : ob) add(s, b);
    int spp = R.pick(std::vector<int>{1, 2, 4, 16}), mb = refl > 0 ? R.i(2, 5) : R.i(1, 5); vh::cur("luminous %d: %dx%d, %zu bodies, %d samples, %d bounces, kind %d%s", seq, w, h, ob.size(), spp, mb, kind, motion ? ", motion" : ""); auto view = s.view(); auto fb = s.o.c->make_frame_buffer(); fb.enable_received_power(); bool geo = R.chance(.5); if (geo) { fb.enable_depth(); fb.enable_geometry_ids(); fb.enable_camera_normals(); fb.enable_world_normals(); fb.enable_albedo(); } if (R.chance(.5)) { fb.enable_received_direct_power(); fb.enable_received_indirect_power(); }
    Renderer<T> ren; ren.set_samples_per_pixel(spp); ren.set_max_bounces(mb); ren.render(view, fb); auto& im = fb.received_power(); plain(im, "received power"); vh::ev(); vh::distinct(vh::hash(seq, w, h, spp));
    const int K = 6, KT = motion ? 12 : 1; auto bg = [&](const V&) { std::vector<D> v(T::size()); for (size_t k = 0; k < T::size(); ++k) v[k] = (D)L0[k]; return v; }; std::vector<Resid> rs(T::size(), Resid(w, h)); bool bad = false; D eps = 2e-6 * (far + 1);
    for (int y = 0; y < h && !bad; ++y) for (int x = 0; x < w && !bad; ++x)
    {
        D g, gl, gh; s.gain(x, y, g, gl, gh); std::vector<D> lo(T::size(), 1e300), hi(T::size(), 0), mean(T::size(), 0); D dlo = 1e300, dhi = 0; int who = -2; V nsum{}; bool one = true, edge = false, veil = false; D nmin = 1;
        std::vector<V> ns; for (int i = 0; i <= K; ++i) for (int j = 0; j <= K; ++j) for (int q = 0; q < KT; ++q)
        {
            bool rim = i == K || j == K; V d = s.dir(x + (i + (rim ? 0 : .5)) / K - (rim ? .5 / K : 0), y + (j + (rim ? 0 : .5)) / K - (rim ? .5 / K : 0)); d = s.dir(x + (D)i / K, y + (D)j / K); D tm = KT == 1 ? 0 : q / (D)(KT - 1); auto v = radiance<T>(ob, d, tm, bg, refl > 0 ? 1. : 0.); if (refl > 0) for (size_t k = 0; k < T::size(); ++k) { L a, b; if (!ob.empty() && ob[0].span({0, 0, 0}, d, tm, a, b) && a > 0) v[k] = (D)ob[0].E[k] + (D)ob[0].alb[k] * (D)L0[k]; else v[k] = (D)L0[k]; } for (size_t k = 0; k < T::size(); ++k) { lo[k] = std::min(lo[k], v[k]); hi[k] = std::max(hi[k], v[k]); }
            int f = -1; L best = 1e30L; for (size_t n = 0; n < ob.size(); ++n) { L a, b; if (!ob[n].span({0, 0, 0}, d, tm, a, b) || a <= 0) continue; if (ob[n].medium) { veil = true; continue; } if (a < best) { best = a; f = (int)n; } } if (who == -2) who = f; one &= who == f; if (f >= 0) { dlo = std::min(dlo, (D)best); dhi = std::max(dhi, (D)best); ns.push_back(ob[(size_t)f].normal(best * d, tm)); nsum = nsum + ns.back(); }
        }
        for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) for (int q = 0; q < KT; ++q) { V d = s.dir(x + (i + .5) / K, y + (j + .5) / K); D tm = KT == 1 ? 0 : (q + .5) / KT; auto v = radiance<T>(ob, d, tm, bg, 0); if (refl > 0) { L a, b; bool hit = !ob.empty() && ob[0].span({0, 0, 0}, d, tm, a, b) && a > 0; for (size_t k = 0; k < T::size(); ++k) v[k] = hit ? (D)ob[0].E[k] + (D)ob[0].alb[k] * (D)L0[k] : (D)L0[k]; } for (size_t k = 0; k < T::size(); ++k) mean[k] += v[k] / (K * K * KT); }
        edge = !one; for (size_t k = 0; k < T::size(); ++k) { D got = (D)im(x, y)[k]; rs[k].set(x, y, got, mean[k] * g); if (!noisy && !edge && !(got >= lo[k] * gl * (1 - 1e-4) && got <= hi[k] * gh * (1 + 1e-4))) { VH_FAIL(who < 0 ? "background" : ob[(size_t)who].light ? "light" : refl > 0 ? "furnace" : "emitter", "pixel (%d,%d) band %zu receives %.7g W, expected %.7g to %.7g", x, y, k, got, lo[k] * gl, hi[k] * gh); bad = true; break; } }
        if (geo && !bad)
        {
            bool alpha = who >= 0 && ob[(size_t)who].alpha < 1, light = who >= 0 && ob[(size_t)who].light; D dep = (D)fb.depth()(x, y); uint64_t id = fb.geometry_ids()(x, y); auto cn = fb.camera_normals()(x, y), wn = fb.world_normals()(x, y); auto al = fb.albedo()(x, y);
            for (float q : {cn.x, cn.y, cn.z, wn.x, wn.y, wn.z, al[0]}) if (!std::isfinite(q)) { VH_FAIL("not-finite", "pixel (%d,%d): normals or albedo are %g", x, y, (D)q); bad = true; break; }
            V wn2 = app(s.bl ? mul(s.W, FLIP) : s.W, V{cn.x, cn.y, cn.z}); if (!bad && len(wn2 - V{wn.x, wn.y, wn.z}) > 1e-5L) { VH_FAIL("normals-frame", "pixel (%d,%d): world normal (%.5f %.5f %.5f), the camera's turned into the world (%.5Lf %.5Lf %.5Lf)", x, y, wn.x, wn.y, wn.z, wn2[0], wn2[1], wn2[2]); bad = true; }
            if (one && !bad && who == -1) { if (std::isfinite(dep) || id != std::numeric_limits<uint64_t>::max() || cn != Vec3<float>{0, 0, 0} || al[0] != 0.f) { VH_FAIL("empty-pixel", "pixel (%d,%d) sees nothing but has depth %g, mesh %llu, normal (%g %g %g), albedo %g", x, y, dep, (unsigned long long)id, cn.x, cn.y, cn.z, al[0]); bad = true; } else vh::count("empty pixels"); }
            if (one && !bad && who >= 0 && !light && !alpha && !(veil && !std::isfinite(dep) && id == std::numeric_limits<uint64_t>::max())) // every sample may be absorbed on the way
            {
                auto& b = ob[(size_t)who]; D tol = eps + 1e-5 * dhi + (b.kind == 1 ? 0. : .2 * (dhi - dlo)); if (!(dep >= dlo - tol - (dhi - dlo) * .2 && dep <= dhi + tol)) { VH_FAIL("depth", "pixel (%d,%d): depth %.7g, the surface is at %.7g to %.7g", x, y, dep, dlo, dhi); bad = true; }
                if (id != b.id) { VH_FAIL("mesh-id", "pixel (%d,%d): mesh %llu, the visible one is %llu", x, y, (unsigned long long)id, (unsigned long long)b.id); bad = true; }
                V m = un(nsum), c{cn.x, cn.y, cn.z}; if (s.bl) c = app(FLIP, c); for (auto& q : ns) nmin = std::min(nmin, (D)dot(m, q)); D ang = std::acos(std::clamp(nmin, -1., 1.)); if (std::acos(std::clamp((D)dot(un(c), m), -1., 1.)) > ang * 1.3 + 2e-3 || std::fabs((D)len(c) - 1) > 1e-4) { VH_FAIL("normal", "pixel (%d,%d): normal (%.4Lf %.4Lf %.4Lf) in the optical frame, the surface has (%.4Lf %.4Lf %.4Lf) within %.3g", x, y, c[0], c[1], c[2], m[0], m[1], m[2], ang); bad = true; }
                for (size_t k = 0; k < T::size(); ++k) if (!(std::fabs((D)al[k] - (D)b.alb[k]) < 1e-5)) { VH_FAIL("albedo", "pixel (%d,%d): albedo %g, the material has %g", x, y, al[k], b.alb[k]); bad = true; break; } vh::count("surface pixels");
            }
        }
    }
    if (!bad) for (size_t k = 0; k < T::size(); ++k) { rs[k].check(motion ? "exposure" : "bias", vh::fmt("band %zu", k).c_str(), 6e-3); }
    if (fb.has_received_direct_power()) { D e = 0, m = 0; for (size_t i = 0; i < im.size(); ++i) for (size_t k = 0; k < T::size(); ++k) { D a = (D)fb.received_direct_power()[i][k], b = (D)fb.received_indirect_power()[i][k], t = (D)im[i][k]; e = std::max(e, std::fabs(a + b - t)); m = std::max(m, t); if (refl == 0 && b > 1e-6 * t) { VH_FAIL("indirect", "pixel %zu: %g of %g W are indirect where nothing scatters", i, b, t); k = T::size(); i = im.size() - 1; } } VH_CHECK(e <= 3e-6 * m, "split", "direct and indirect power differ from the received power by %g of %g W", e, m); }
    if (motion && !ob.empty()) vh::count("moving scenes"); if (refl > 0) vh::count("furnaces"); for (auto& b : ob) if (b.light) vh::count("visible lights");
}
// 2: a background image stays with the stars however the camera is turned
template <class T> static void environment(Optics<T>& op, int seq)
{
    static const std::vector<int> sz{1, 5, 16, 21}; Shot<T> s(op, R.pick(sz), R.pick(sz), R.u(.02, .5)); int W = R.i(4, 40), H = R.i(3, 20); Image<T> env(W, H); for (size_t i = 0; i < env.size(); ++i) env[i] = spec<T>(.05, 5); Image<T> copy = env; s.sc->set_background_radiance(std::move(copy)); vh::cur("environment %d: %dx%d of %dx%d", seq, s.w, s.h, W, H); auto view = s.view(); auto fb = s.o.c->make_frame_buffer(); fb.enable_received_power(); Renderer<T> ren; ren.set_samples_per_pixel(R.i(1, 9)); ren.set_max_bounces(R.i(1, 3)); ren.render(view, fb); plain(fb.received_power(), "received power"); vh::ev(); vh::distinct(vh::hash(seq, W, H));
    for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x)
    {
        std::vector<D> lo(T::size(), 1e300), hi(T::size(), 0); bool seam = false; const int K = 8; D umin = 2, umax = -1; for (int i = 0; i <= K; ++i) for (int j = 0; j <= K; ++j) { V d = app(s.W, s.dir(x + (D)i / K, y + (D)j / K)); D u = .5 + (D)std::atan2(d[2], d[0]) / (2 * PI<D>()), v = .5 - (D)std::asin(d[1]) / PI<D>(); umin = std::min(umin, u); umax = std::max(umax, u); if (u < 1e-3 || u > 1 - 1e-3 || v < .02 || v > .98) seam = true; D a = u * (W - 1), b = v * (H - 1); int x0 = std::min(W - 2, (int)a), y0 = std::min(H - 2, (int)b); D fa = a - x0, fb2 = b - y0; for (size_t k = 0; k < T::size(); ++k) { D q = (D)env(x0, y0)[k] * (1 - fa) * (1 - fb2) + (D)env(x0 + 1, y0)[k] * fa * (1 - fb2) + (D)env(x0, y0 + 1)[k] * (1 - fa) * fb2 + (D)env(x0 + 1, y0 + 1)[k] * fa * fb2; lo[k] = std::min(lo[k], q); hi[k] = std::max(hi[k], q); } } if (seam || umax - umin > .4) continue; D g, gl, gh; s.gain(x, y, g, gl, gh);
        for (size_t k = 0; k < T::size(); ++k) { D got = (D)fb.received_power()(x, y)[k], slack = .15 * (hi[k] - lo[k]) + 1e-3 * hi[k]; if (!(got >= (lo[k] - slack) * gl && got <= (hi[k] + slack) * gh)) { VH_FAIL("environment", "pixel (%d,%d) band %zu receives %.6g W, the background there gives %.6g to %.6g", x, y, k, got, lo[k] * gl, hi[k] * gh); return; } } vh::count("background image pixels");
    }
}
// 3: a diffuse plane under a spherical light, with a shadow
template <class T> static void lit(Optics<T>& op, int seq)
{
    Shot<T> s(op, R.i(12, 28), R.i(12, 28), R.u(.05, .3)); L0_: L z = (L)R.u(5, 20); V n = un(V{(L)R.u(-.8, .8), (L)R.u(-.8, .8), -1}), c{0, 0, z}; V tx = un(cross(n, V{.1L, 1, .2L})), ty = cross(n, tx); L ext = z * 8; T al = alb<T>(); VertexBuffer<T> vb; IndexBuffer ib{0, 1, 2, 0, 2, 3}; for (auto [a, b] : {std::pair{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}) { Vertex<T> v; V p = (L)a * tx + (L)b * ty; v.position = {(float)a, (float)b, 0}; v.normal = {0, 0, 1}; vb.push_back(v); (void)p; } M r{}; for (size_t i = 0; i < 3; ++i) { r[i][0] = tx[i]; r[i][1] = ty[i]; r[i][2] = n[i]; } if (dot(cross(tx, ty), n) < 0) goto L0_;
    auto mat = s.sc->new_material(s.sc->new_bsdf_lambertian()); mat.set_albedo_factor(al); s.place(c, r, {ext, ext, ext}).new_instance(s.sc->add_primitive(s.sc->add_mesh(ib, vb), mat)); Obj<T> l; l.light = true; l.E = spec<T>(.1, 100); L rad = z * (L)R.lu(.005, .3); l.semi = {rad, rad, rad}; L hgt = rad * (L)R.u(1.2, 3) + z * (L)R.u(0, .6); l.c = c + hgt * n + z * (L)(std::tan(s.half) * R.u(-1.5, 1.5)) * tx + z * (L)(std::tan(s.half) * R.u(-1.5, 1.5)) * ty; if (dot(l.c, {0, 0, 1}) < rad + .3L || len(l.c) < rad * 1.5L) return; add(s, l);
    Obj<T> oc; bool shadow = R.chance(.5); if (shadow) { L q = rad * (L)R.u(.5, 3); L k = (L)R.u(.2, .8); V foot = c + z * (L)(std::tan(s.half) * R.u(-.7, .7)) * tx + z * (L)(std::tan(s.half) * R.u(-.7, .7)) * ty; oc.c = foot + k * (l.c - foot); q = std::min({q, (len(l.c - oc.c) - rad) * .9L, dot(oc.c - c, n) * .9L}); if (q < rad * .05L || len(oc.c) < q * 1.5L) shadow = false; else { oc.semi = {q, q, q}; oc.alb = T{0.f}; add(s, oc); } }
    int spp = R.pick(std::vector<int>{4, 16, 40}), mb = R.i(1, 6); vh::cur("lit %d: %dx%d, %d samples, %d bounces%s, light of %.3Lg at %.3Lg", seq, s.w, s.h, spp, mb, shadow ? ", shadow" : "", rad, hgt); auto view = s.view(); auto fb = s.o.c->make_frame_buffer(); fb.enable_received_power(); fb.enable_received_direct_power(); fb.enable_received_indirect_power(); Renderer<T> ren; ren.set_samples_per_pixel(spp); ren.set_max_bounces(mb); ren.render(view, fb); plain(fb.received_power(), "received power"); vh::distinct(vh::hash(seq, spp, mb));
    std::vector<Resid> rs(T::size(), Resid(s.w, s.h)); const int K = 6; int full = 0, dark = 0; bool bad = false; for (int y = 0; y < s.h && !bad; ++y) for (int x = 0; x < s.w && !bad; ++x)
    {
        D e = 0; bool usable = true, umbra = true; for (int i = 0; i <= K; ++i) for (int j = 0; j <= K; ++j) { V d = s.dir(x + (D)i / K, y + (D)j / K); L a, b, t = dot(c, n) / dot(d, n); if (t <= 0 || (l.span({0, 0, 0}, d, 0, a, b) && a > 0 && a < t)) { usable = umbra = false; continue; } if (shadow && oc.span({0, 0, 0}, d, 0, a, b) && a > 0 && a < t) { usable = umbra = false; continue; } V p = t * d, v = l.c - p; L dd = len(v), cs = dot(v, n) / dd; if (cs * dd < rad) { usable = umbra = false; continue; } if (shadow) { V q = oc.c - p; L sep = std::atan2(len(cross(v, q)), dot(v, q)), al_ = std::asin(rad / dd), ao = std::asin(std::min(1.L, oc.semi[0] / len(q))); if (sep < al_ + ao + 1e-3L) usable = false; if (!(sep + al_ < ao - 1e-3L)) umbra = false; } else umbra = false; } 
        if (usable) { for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) { V d = s.dir(x + (i + .5) / K, y + (j + .5) / K); L t = dot(c, n) / dot(d, n); V p = t * d, v = l.c - p; L dd = len(v); e += (D)(rad * rad / (dd * dd) * dot(v, n) / dd) / (K * K); } ++full; } D g, gl, gh; s.gain(x, y, g, gl, gh);
        for (size_t k = 0; k < T::size(); ++k) { D got = (D)fb.received_power()(x, y)[k]; if (usable) rs[k].set(x, y, got, (D)al[k] * (D)l.E[k] * e * g); if (umbra && got != 0) { VH_FAIL("shadow", "pixel (%d,%d) receives %.4g W in full shadow", x, y, got); bad = true; break; } if (!umbra && usable && (D)fb.received_indirect_power()(x, y)[k] > 1e-6 * (D)al[k] * (D)l.E[k] * g) { VH_FAIL("indirect", "pixel (%d,%d): %g of %g W are indirect on a plane that sees only a light", x, y, fb.received_indirect_power()(x, y)[k], got); bad = true; break; } } dark += umbra;
    }
    if (!bad && full > 30) for (size_t k = 0; k < T::size(); ++k) rs[k].check("lit", vh::fmt("band %zu, %d bounces", k, mb).c_str(), 4e-3); vh::count("lit pixels", (uint64_t)full); vh::count("pixels in full shadow", (uint64_t)dark);
}
// 4: media that scatter
template <class T> static void scatter(Optics<T>& op, int seq)
{
    Shot<T> s(op, R.i(12, 20), R.i(12, 20), R.u(.1, .4)); L z = (L)R.u(5, 20), q = z * (L)R.u(.15, .6); Obj<T> m; m.medium = true; m.c = {0, 0, z}; m.semi = {q, q, q}; D base = R.lu(.1, .8) / (2 * (D)q); for (size_t k = 0; k < T::size(); ++k) { m.alb[k] = (float)(base * R.u(.8, 1.2)); m.sig[k] = 0.f; }
    bool furnace = R.chance(.5); auto render = [&](int mb, int spp, FrameBuffer<T>& fb) { auto view = s.view(); Renderer<T> ren; ren.set_samples_per_pixel(spp); ren.set_max_bounces(mb); ren.render(view, fb); plain(fb.received_power(), "received power"); };
    if (furnace) { T L0 = spec<T>(.1, 10); s.sc->set_background_radiance(L0); add(s, m); int spp = R.pick(std::vector<int>{4, 16}); vh::cur("scattering furnace %d: %dx%d, %d samples", seq, s.w, s.h, spp); auto fb = s.o.c->make_frame_buffer(); fb.enable_received_power(); render(60, spp, fb); for (size_t k = 0; k < T::size(); ++k) { Resid r(s.w, s.h); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { D g, gl, gh; s.gain(x, y, g, gl, gh); r.set(x, y, (D)fb.received_power()(x, y)[k], (D)L0[k] * g); } r.check("scattering-furnace", vh::fmt("band %zu", k).c_str(), 3e-3); } vh::distinct(vh::hash(seq, 4)); vh::count("scattering furnaces"); return; }
    for (size_t k = 0; k < T::size(); ++k) m.sig[k] = (float)(base * R.u(0, .6)); Obj<T> l; l.light = true; l.E = spec<T>(1, 100); L rad = q * (L)R.u(.01, .08); l.semi = {rad, rad, rad}; V ld = un(rv(1)); l.c = m.c + q * (L)R.u(1.5, 5) * ld; if (l.c[2] < 1 || R.chance(.3)) l.c = m.c + q * 2 * un(V{1, (L)R.u(-1, 1), (L)R.u(-.5, .5)}); if (len(l.c) < 2 * rad + .5L) return; add(s, m); add(s, l); int spp = R.pick(std::vector<int>{16, 40}); vh::cur("scattering %d: %dx%d, %d samples", seq, s.w, s.h, spp);
    auto f1 = s.o.c->make_frame_buffer(), f3 = s.o.c->make_frame_buffer(); for (auto* f : {&f1, &f3}) { f->enable_received_power(); f->enable_received_direct_power(); f->enable_received_indirect_power(); } render(1, spp, f1); int mb = R.i(2, 6); render(mb, spp, f3);
    for (size_t k = 0; k < T::size(); ++k)
    {
        Resid r1(s.w, s.h), r3(s.w, s.h); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x)
        {
            const int K = 3, N = 40; D e = 0; bool skip = false; for (int i = 0; i < K; ++i) for (int j = 0; j < K; ++j) { V d = s.dir(x + (i + .5) / K, y + (j + .5) / K); L a, b; for (D ox : {-.7, 0., .7}) for (D oy : {-.7, 0., .7}) { V d2 = s.dir(x + .5 + ox, y + .5 + oy); if (l.span({0, 0, 0}, d2, 0, a, b) && b > 0) skip = true; } if (!m.span({0, 0, 0}, d, 0, a, b)) continue; D ext = (D)m.sig[k] + (D)m.alb[k]; for (int n = 0; n < N; ++n) { L t = a + (b - a) * (n + .5L) / N; V p = t * d, v = un(l.c - p); L dd = len(l.c - p), ia, ib; m.span(p, v, 0, ia, ib); D om = 2 * PI<D>() * (1 - std::sqrt(1 - (D)(rad * rad / (dd * dd)))); e += (D)m.alb[k] * std::exp(-ext * (D)(t - a)) * (D)l.E[k] * om / (4 * PI<D>()) * std::exp(-ext * (D)ib) * (D)(b - a) / N / (K * K); } }
            if (skip) continue; D g, gl, gh; s.gain(x, y, g, gl, gh); r1.set(x, y, (D)f1.received_power()(x, y)[k], e * g); r3.set(x, y, (D)f3.received_direct_power()(x, y)[k], e * g); D sum = (D)f3.received_direct_power()(x, y)[k] + (D)f3.received_indirect_power()(x, y)[k]; if (std::fabs(sum - (D)f3.received_power()(x, y)[k]) > 1e-5 * sum) { VH_FAIL("split", "pixel (%d,%d): direct and indirect power are %g W together, received %g W", x, y, sum, f3.received_power()(x, y)[k]); return; }
        }
        r1.check("single-scattering", vh::fmt("band %zu, one bounce", k).c_str(), .02); r3.check("single-scattering", vh::fmt("band %zu, direct part with %d bounces", k, mb).c_str(), .02);
    }
    vh::distinct(vh::hash(seq, 5)); vh::count("scattering media under a light");
}
// 5: optics: depth of field keeps the power and its place, a convolved image is the plain one folded with the kernel
template <class T> static void optics(Optics<T>& op, int seq)
{
    Shot<T> s(op, R.i(30, 44), R.i(30, 44), R.u(.02, .2)); op.f = R.u(.05, .2); op.c->set_focal_length(units::Meter(op.f)); op.c->set_fstop((float)R.u(1, 4)); op.field(s.w, s.h, s.half);
    Obj<T> b; L z = (L)R.u(2, 8); b.E = spec<T>(.1, 10); L q = z * (L)(std::tan(s.half) * R.u(.08, .3)); b.semi = {q, q, q}; b.c = {z * (L)(std::tan(s.half) * R.u(-.15, .15)), z * (L)(std::tan(s.half) * R.u(-.15, .15)), z}; b.kind = R.i(0, 1); if (b.kind) b.semi = .6L * b.semi; b.r = rrot(); add(s, b); auto ren = [&](FrameBuffer<T>& fb, int spp) { auto v = s.view(); Renderer<T> r; r.set_samples_per_pixel(spp); r.set_max_bounces(2); r.render(v, fb); plain(fb.received_power(), "received power", s.o.c->has_psf()); };
    vh::cur("optics %d: %dx%d", seq, s.w, s.h); auto f0 = s.o.c->make_frame_buffer(), f1 = s.o.c->make_frame_buffer(); f0.enable_received_power(); f1.enable_received_power(); bool conv = R.chance(.5);
    if (conv) { int spp = R.i(1, 4); ren(f0, spp); int r = R.i(1, 5), n = R.i(1, 3); s.o.c->template set_psf<Bell<T>>((float)R.u(.4, 1.5), r, n); s.o.c->enable_psf_convolution(true); ren(f1, spp); auto& k = s.o.c->get_psf_kernel(0.f, 0.f); D e = 0, m = 0; for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) for (size_t c = 0; c < T::size(); ++c) { D v = 0; for (int j = -r; j <= r; ++j) for (int i = -r; i <= r; ++i) { int xx = x - i, yy = y - j; if (xx < 0 || yy < 0 || xx >= s.w || yy >= s.h) continue; v += (D)f0.received_power()(xx, yy)[c] * (D)k(i + r, j + r)[c]; } e = std::max(e, std::fabs(v - (D)f1.received_power()(x, y)[c])); m = std::max(m, (D)f0.received_power()(x, y)[c]); } VH_CHECK(e <= 2e-5 * m, "convolved", "the blurred image differs from the plain one folded with the kernel by %.3g of %.3g W", e, m); s.o.c->enable_psf_convolution(false); s.o.c->delete_psf(); vh::ev(); vh::distinct(vh::hash(seq, 6)); vh::count("convolved images"); return; }
    ren(f0, 64); D d = (D)z * R.pick(std::vector<D>{.3, .6, 1, 1, 1.5, 4, 1e4}); s.o.c->set_focus_distance(units::Meter(d)); s.o.c->enable_depth_of_field(true); ren(f1, 144); D D_ = 2 * std::sqrt((D)s.o.c->aperture_->get_area().to_si() / PI<D>()); D zn = (D)(z - len(b.semi)), zf = (D)(z + len(b.semi)); auto coc = [&](D zz) { return s.fx() * D_ / 2 * std::fabs(1 / zz - 1 / d); }; D rb = std::max(coc(zn), coc(zf)); s.o.c->enable_depth_of_field(false);
    D cx = 0, cy = 0, n0 = 0, x1 = 0, y1 = 0, n1 = 0; int lx = 99, hx = -1, ly = 99, hy = -1; for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { D a = (D)f0.received_power()(x, y)[0], c = (D)f1.received_power()(x, y)[0]; n0 += a; cx += a * x; cy += a * y; n1 += c; x1 += c * x; y1 += c * y; if (a > 0) { lx = std::min(lx, x); hx = std::max(hx, x); ly = std::min(ly, y); hy = std::max(hy, y); } }
    bool inside = lx - rb > 1.5 && ly - rb > 1.5 && hx + rb < s.w - 2.5 && hy + rb < s.h - 2.5; D persp = 1 + D_ / (D)zn; if (inside && n0 > 0) { D A = (D)((hx - lx + 1) * (hy - ly + 1)), sg = std::sqrt(std::sqrt(A) / (64 * A * A) + 1 / (144 * A)); VH_CHECK(std::fabs(n1 / n0 - 1) < .03 + 6 * sg + 2 * (persp - 1) * (persp - 1), "defocus-power", "out of focus the body brings %.5g W, in focus %.5g", n1, n0); VH_CHECK(std::hypot(x1 / n1 - cx / n0, y1 / n1 - cy / n0) < .25 + .1 * rb, "defocus-place", "out of focus the body is at (%.3f,%.3f), in focus at (%.3f,%.3f)", x1 / n1, y1 / n1, cx / n0, cy / n0); }
    for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { D dx = std::max({0., (D)lx - x, x - (D)hx}), dy = std::max({0., (D)ly - y, y - (D)hy}); if ((D)f1.received_power()(x, y)[0] > 0 && hx >= 0 && std::hypot(dx, dy) > rb * 1.02 + 2.5) { VH_FAIL("defocus-reach", "pixel (%d,%d) is lit %.2f pixels from the body, the circle of confusion has %.2f", x, y, std::hypot(dx, dy), rb); return; } }
    if (inside && rb > 3 && rb < 12) { D far_lit = 0; for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) if ((D)f1.received_power()(x, y)[0] > 0) far_lit = std::max(far_lit, std::max({0., (D)lx - x, x - (D)hx})); D rmin = std::min(coc(zn), coc(zf)); VH_CHECK(far_lit > .5 * rmin - 2, "defocus-size", "a body %.2f pixels out of focus spreads %.2f pixels", rmin, far_lit); vh::count("defocused bodies"); } vh::ev(); vh::distinct(vh::hash(seq, 7));
}
// 6: the choice of buffers changes nothing, and no buffer holds nonsense, whatever the scene
template <class T> static void selection(Optics<T>& op, int seq)
{
    op.c->use_blender_convention(R.chance(.3)); op.c->delete_psf(); op.c->enable_psf_convolution(false); op.c->set_focus_distance(units::Meter(INFINITY)); op.c->enable_depth_of_field(false); op.c->disable_veiling_glare(); D half = R.u(.1, .5); op.field(R.i(1, 40), R.i(1, 40), half); World<T> a; bool motion = R.chance(.4); a.ci = a.sc->root.new_instance(op.cm); a.fill(half, motion); const D dur = R.u(.2, 3); SceneView<T> v(*a.sc, Interval(Time::from_et(0), Time::from_et(dur)), *a.ci, ObservationMode::TRUE_STATE, motion ? 3 : 1); const int spp = R.i(1, 5), mb = R.i(1, 6); Renderer<T> r; r.set_samples_per_pixel(spp); r.set_max_bounces(mb); vh::cur("selection %d: %d bodies, %d media, %d lights, %d points", seq, a.bodies, a.media, a.lights, a.points);
    auto full = op.c->make_frame_buffer(); choose(full, 255); r.render(v, full); std::map<std::string, std::vector<uint32_t>> ref; for (auto& p : words(full)) ref[p.first] = p.second; vh::distinct(vh::hash_bytes(ref["received power"].data(), ref["received power"].size() * 4));
    for (int i = 0; i < 3; ++i) { unsigned m = 1u + (unsigned)R.below(255); auto fb = op.c->make_frame_buffer(); choose(fb, m); r.render(v, fb); for (auto& p : words(fb)) if (p.second != ref[p.first]) { VH_FAIL("selection", "the %s depends on which other buffers are on (%u)", p.first.c_str(), m); break; } vh::ev(); auto f2 = op.c->make_frame_buffer(); choose(f2, m); bool ok = fb.has_depth() == f2.has_depth() && fb.has_albedo() == f2.has_albedo() && fb.has_received_power() == f2.has_received_power() && fb.has_received_direct_power() == f2.has_received_direct_power() && fb.has_camera_normals() == f2.has_camera_normals(); VH_CHECK(ok, "switched", "rendering switched buffers on or off"); }
    plain(full.received_power(), "received power"); plain(full.received_direct_power(), "direct power"); plain(full.received_indirect_power(), "indirect power"); plain(full.albedo(), "albedo"); for (size_t i = 0; i < full.depth().size(); ++i) { float d = full.depth()[i]; if (std::isnan(d) || d <= 0) { VH_FAIL("not-finite", "depth of pixel %zu is %g", i, d); break; } auto n = full.camera_normals()[i]; float l = glm::length(n); if (!(l < 1e-6f || std::fabs(l - 1) < 1e-4f)) { VH_FAIL("normal-length", "the normal of pixel %zu has length %g", i, l); break; } bool seen = std::isfinite(d), id = full.geometry_ids()[i] != std::numeric_limits<uint64_t>::max(); if (seen != id) { VH_FAIL("depth-id", "pixel %zu has depth %g and mesh id %llu", i, d, (unsigned long long)full.geometry_ids()[i]); break; } }
    if (!a.points) for (size_t i = 0; i < full.received_power().size(); ++i) for (size_t k = 0; k < T::size(); ++k) { D x = (D)full.received_direct_power()[i][k] + (D)full.received_indirect_power()[i][k], y = (D)full.received_power()[i][k]; if (!(std::fabs(x - y) <= 1e-5 * y)) { VH_FAIL("split", "pixel %zu: direct and indirect power are %g W together, received %g W", i, x, y); return; } } vh::count("random scenes");
    { for (size_t i = 0; i < full.depth().size(); ++i) { full.depth()[i] = 1e-3f; full.received_power()[i] = T{7.f}; full.geometry_ids()[i] = 5; full.camera_normals()[i] = {1, 2, 3}; full.world_normals()[i] = {1, 2, 3}; full.albedo()[i] = T{3.f}; full.received_direct_power()[i] = T{9.f}; full.received_indirect_power()[i] = T{9.f}; } r.render(v, full); vh::ev(); for (auto& p : words(full)) if (p.second != ref[p.first]) { VH_FAIL("used-buffer", "the %s still shows what was in the buffer before", p.first.c_str()); break; } }
    // adaptive sampling takes no fewer samples than asked for, no more than allowed, and stops only where the picture is smooth enough
    auto shoot = [&](Renderer<T>& q) { auto fb = op.c->make_frame_buffer(); choose(fb, 255); q.set_max_bounces(mb); q.render(v, fb); return words(fb); };
    { int most = R.i(1, 7), least = R.i(1, 8); Renderer<T> ad, lo, hi; ad.set_samples_per_pixel(most); ad.set_dynamic_sampling(true); ad.set_min_samples(least); lo.set_samples_per_pixel(std::min(most, least)); hi.set_samples_per_pixel(most); ad.set_variance_threshold(INFINITY); vh::ev(); VH_CHECK(shoot(ad) == shoot(lo), "adaptive-least", "of %d samples and at least %d, with any variance accepted, the picture is not that of %d samples", most, least, std::min(most, least)); ad.set_variance_threshold(0.f); vh::ev(); VH_CHECK(shoot(ad) == shoot(hi), "adaptive-most", "of %d samples and at least %d, with no variance accepted, the picture is not that of all", most, least); ad.set_variance_threshold(INFINITY); ad.set_dynamic_sampling(false); vh::ev(); VH_CHECK(shoot(ad) == shoot(hi), "adaptive-off", "adaptive sampling acts although it is off"); vh::count("adaptive pictures", 3);
      // the first pixel of a tile draws the same samples however many are taken: it must stop at the first number at which they vary little enough
      const int N = 7; std::vector<std::vector<D>> mean(N + 1); std::vector<std::vector<T>> raw(N + 1); std::vector<std::pair<int, int>> px; for (int y = 0; y < op.c->resolution().height; y += 16) for (int x = 0; x < op.c->resolution().width; x += 16) px.push_back({x, y}); auto few = [&](Renderer<T>& q) { auto fb = op.c->make_frame_buffer(); fb.enable_received_power(); q.set_max_bounces(mb); q.render(v, fb); std::vector<T> o; for (auto& p : px) o.push_back(fb.received_power()(p.first, p.second)); return o; };
      if (!a.points) { for (int n = 1; n <= N; ++n) { Renderer<T> q; q.set_samples_per_pixel(n); raw[(size_t)n] = few(q); } std::vector<std::vector<D>> rel(px.size(), std::vector<D>(N + 1, 0)); std::vector<D> all; for (size_t i = 0; i < px.size(); ++i) { D g = (D)op.c->pixel_radiance_to_power(px[i].first, px[i].second); std::vector<std::vector<D>> x(N, std::vector<D>(T::size())); for (int n = 1; n <= N; ++n) { D vm = 0, mm = 0; for (size_t k = 0; k < T::size(); ++k) { auto m = [&](int j) { return j ? (D)raw[(size_t)j][i][k] / g * j : 0.; }; x[(size_t)n - 1][k] = m(n) - m(n - 1); D u = 0, w = 0; for (int j = 0; j < n; ++j) u += x[(size_t)j][k] / n; for (int j = 0; j < n; ++j) w += (x[(size_t)j][k] - u) * (x[(size_t)j][k] - u) / n; vm = std::max(vm, w); mm = std::max(mm, u); } rel[i][(size_t)n] = vm / (mm + 1e-4); if (vm > 1e-6 * mm * mm && vm > 0) all.push_back(rel[i][(size_t)n]); } }
        for (int rep = 0; rep < 2 && !all.empty(); ++rep) { D th = R.pick(all) * R.pick(std::vector<D>{.4, .7, .9, 1.1, 1.5, 3}); int least2 = R.i(1, 6); Renderer<T> q; q.set_samples_per_pixel(N); q.set_dynamic_sampling(true); q.set_min_samples(least2); q.set_variance_threshold((float)th); auto got = few(q); for (size_t i = 0; i < px.size(); ++i) { int stop = N; bool unsure = false; for (int n = least2; n <= N; ++n) { D r = rel[i][(size_t)n]; if (std::fabs(r / th - 1) < .03) { unsure = true; break; } if (r < th) { stop = n; break; } } if (unsure) continue; vh::ev(); vh::count("adaptive pixels"); if (stop < N) vh::count("adaptive pixels that stop"); bool same = true; for (size_t k = 0; k < T::size(); ++k) same &= std::fabs((D)got[i][k] - (D)raw[(size_t)stop][i][k]) <= 1e-6 * (D)raw[(size_t)stop][i][k]; if (!same) { VH_FAIL("adaptive-stop", "pixel (%d,%d), at least %d samples and a threshold of %.5g: %.7g W, the first %d samples give %.7g W and vary by %.5g", px[i].first, px[i].second, least2, th, got[i][0], stop, raw[(size_t)stop][i][0], rel[i][(size_t)stop]); break; } } } } }
    // the bound on indirect light scales what is above it and nothing else
    { Renderer<T> q; q.set_samples_per_pixel(1); q.set_max_bounces(mb); auto f0 = op.c->make_frame_buffer(), f1 = op.c->make_frame_buffer(); choose(f0, 255); choose(f1, 255); q.render(v, f0); std::vector<float> is; for (int y = 0; y < f0.height(); ++y) for (int x = 0; x < f0.width(); ++x) { float i = f0.received_indirect_power()(x, y).max() / op.c->pixel_radiance_to_power(x, y); if (i > 0) is.push_back(i); }
      float bound = is.empty() ? 1.f : R.pick(is) * (float)R.u(.3, 1.2); q.set_indirect_clamp(bound); q.render(v, f1); vh::ev(); bool bad = false; for (int y = 0; y < f0.height() && !bad; ++y) for (int x = 0; x < f0.width() && !bad; ++x) { T i0 = f0.received_indirect_power()(x, y), i1 = f1.received_indirect_power()(x, y); D m = (D)i0.max() / op.c->pixel_radiance_to_power(x, y), k = m > bound ? bound / m : 1; for (size_t c = 0; c < T::size(); ++c) if (f0.received_direct_power()(x, y)[c] != f1.received_direct_power()(x, y)[c] || std::fabs((D)i0[c] * k - (D)i1[c]) > 1e-5 * (D)i0[c]) { VH_FAIL("indirect-bound", "pixel (%d,%d): %g W of indirect light (radiance up to %g) became %g W under a bound of %g, direct light %g and %g", x, y, i0[c], m, i1[c], bound, f0.received_direct_power()(x, y)[c], f1.received_direct_power()(x, y)[c]); bad = true; break; } if (m > bound) vh::count("bounded pixels"); } }
    // a rendered sensor response is the read-out of the rendered power over the exposure
    { auto& g = op.c->sensor_->config_; auto was = g; g.simulate_noise = false; g.full_well_capacity = 1e30f; g.bias_level_dn = 0; g.gain = 1; D top = 0; T qe = g.quantum_efficiency, pe = T::photon_energies(); for (size_t i = 0; i < full.received_power().size(); ++i) { D e = 0; for (size_t k = 0; k < T::size(); ++k) e += (D)full.received_power()[i][k] * (D)qe[k] / (D)pe[k] * dur; top = std::max(top, e); } g.gain = (float)std::max(1e-3, top / 3000); auto fa = op.c->make_frame_buffer(), fb = op.c->make_frame_buffer(); fa.enable_received_power(); fa.enable_sensor_response(); fb.enable_received_power(); fb.enable_sensor_response(); r.render(v, fa); fb.received_power() = fa.received_power(); op.c->readout(fb, units::Second(dur)); vh::ev(); int lit = 0; for (size_t i = 0; i < fa.sensor_response().size(); ++i) { if (std::memcmp(&fa.sensor_response()[i], &fb.sensor_response()[i], sizeof(fa.sensor_response()[i]))) { VH_FAIL("exposure-time", "pixel %zu of the sensor's picture is not the read-out of its power over %g s", i, dur); break; } typename FrameBuffer<T>::SensorT z{}; lit += std::memcmp(&z, &fa.sensor_response()[i], sizeof z) != 0; } vh::count("sensor pixels", (uint64_t)lit); g = was; }
}
// 12: a frame buffer is told which images to hold, cleared, and used again
template <class T> static void buffers(Optics<T>& op, int seq)
{
    op.field(R.i(1, 30), R.i(1, 30), R.u(.1, .5)); auto fb = op.c->make_frame_buffer(); const int w = op.c->resolution().width, h = op.c->resolution().height; bool on[9] = {}, dirty[9] = {}; vh::cur("buffers %d: %dx%d", seq, w, h); float z = std::numeric_limits<float>::infinity();
    VH_CHECK(fb.width() == w && fb.height() == h && fb.resolution() == op.c->resolution(), "buffer-size", "a frame buffer of %dx%d says %dx%d", w, h, fb.width(), fb.height());
    auto look = [&](const char* when) {
        auto one = [&](int i, auto& im, bool has, auto fill, auto bad, const char* name) {
            VH_CHECK(has == on[i], "buffer-has", "%s: %s is %s, should be %s", when, name, has ? "on" : "off", on[i] ? "on" : "off"); if (!on[i]) { VH_CHECK(im.width() == 0 && im.height() == 0, "buffer-off", "%s: %s is off and has %dx%d pixels", when, name, im.width(), im.height()); return; }
            VH_CHECK(im.width() == w && im.height() == h, "buffer-size", "%s: %s has %dx%d pixels", when, name, im.width(), im.height()); if (im.width() != w || im.height() != h) return;
            for (size_t k = 0; k < im.size(); ++k) if (!(im[k] == (dirty[i] ? bad : fill))) { VH_FAIL("buffer-value", "%s: pixel %zu of %s %s", when, k, name, dirty[i] ? "lost what was written to it" : "is not empty"); break; } };
        one(0, fb.depth(), fb.has_depth(), z, 3.f, "depth"); one(1, fb.albedo(), fb.has_albedo(), T{0}, T{2.f}, "albedo"); one(2, fb.geometry_ids(), fb.has_geometry_ids(), (uint64_t)0, (uint64_t)9, "geometry ids"); one(3, fb.camera_normals(), fb.has_camera_normals(), Vec3<float>{0, 0, 0}, Vec3<float>{0, 1, 2}, "camera normals"); one(4, fb.world_normals(), fb.has_world_normals(), Vec3<float>{0, 0, 0}, Vec3<float>{2, 1, 0}, "world normals");
        one(5, fb.received_direct_power(), fb.has_received_direct_power(), T{0}, T{5.f}, "direct power"); one(6, fb.received_indirect_power(), fb.has_received_indirect_power(), T{0}, T{6.f}, "indirect power"); one(7, fb.received_power(), fb.has_received_power(), T{0}, T{7.f}, "power"); using Q = typename FrameBuffer<T>::SensorT; one(8, fb.sensor_response(), fb.has_sensor_response(), Q{}, Q(8.f), "sensor response"); };
    look("new");
    for (int n = R.i(4, 24); n-- > 0;) {
        int op_ = R.i(0, 9), i = R.i(0, 8); const char* what;
        if (op_ < 6) { bool e = R.chance(.7); what = e ? "switched on" : "switched off"; switch (i) { case 0: fb.enable_depth(e); break; case 1: fb.enable_albedo(e); break; case 2: fb.enable_geometry_ids(e); break; case 3: fb.enable_camera_normals(e); break; case 4: fb.enable_world_normals(e); break; case 5: fb.enable_received_direct_power(e); break; case 6: fb.enable_received_indirect_power(e); break; case 7: fb.enable_received_power(e); break; default: fb.enable_sensor_response(e); } on[i] = e; if (!e) dirty[i] = false; if (i == 8 && e) on[7] = true; }
        else if (op_ < 8) { what = "written"; if (!on[i]) continue; dirty[i] = true; using Q = typename FrameBuffer<T>::SensorT; switch (i) { case 0: fb.depth().fill(3.f); break; case 1: fb.albedo().fill(T{2.f}); break; case 2: fb.geometry_ids().fill(9); break; case 3: fb.camera_normals().fill(Vec3<float>{0, 1, 2}); break; case 4: fb.world_normals().fill(Vec3<float>{2, 1, 0}); break; case 5: fb.received_direct_power().fill(T{5.f}); break; case 6: fb.received_indirect_power().fill(T{6.f}); break; case 7: fb.received_power().fill(T{7.f}); break; default: fb.sensor_response().fill(Q(8.f)); } }
        else { what = "cleared"; fb.clear(); for (auto& d : dirty) d = false; }
        vh::ev(); look(what);
    }
    unsigned m = 0; for (int i = 0; i < 9; ++i) m = m * 4 + (unsigned)on[i] * 2 + dirty[i]; vh::distinct(vh::hash(m, w, h)); vh::count("buffer histories");
}
// 13: where every surface, lamp and the sky would be equally bright, and nothing absorbs without giving back, every pixel sees that brightness however often light bounces
struct Pool { const char* what; D n = 0, r = 0, v = 0; int rooms = 0; };
static Pool pools[] = {{"rooms"}, {"rooms with lamps"}, {"rooms with fog"}, {"rooms of high albedo"}, {"open rooms"}, {"rooms with boxes"}};
template <class T> static void uniform(Optics<T>& op, int seq)
{
    Shot<T> s(op, R.i(8, 20), R.i(8, 20), R.u(.1, .8)); T L0 = spec<T>(.1, 10); std::vector<Obj<T>> ob; bool closed = R.chance(.6), dark = closed && R.chance(.5); s.sc->set_background_radiance(dark ? T{0.f} : L0); L th = (L)std::tan(s.half); int nb = R.i(0, 5), mb = R.i(200, 500), spp = R.pick(std::vector<int>{4, 16, 48}), lamps = 0, fog = 0; D hi = R.pick(std::vector<D>{.3, .7, .95}); bool pale = R.chance(.6), lampy = R.chance(.5); if (lampy) nb = R.i(2, 6);
    auto matter = [&](Obj<T>& b) { b.alb = alb<T>(hi); if (pale) for (size_t k = 0; k < T::size(); ++k) b.alb[k] = (float)R.u(hi * .9, hi); for (size_t k = 0; k < T::size(); ++k) b.E[k] = L0[k] * (1 - b.alb[k]); };
    if (closed) { Obj<T> b; b.kind = R.i(0, 1); L q = (L)R.lu(36, 90); b.semi = {q * (L)R.u(1, 1.3), q * (L)R.u(1, 1.3), q * (L)R.u(1, 1.3)}; b.r = rrot(); b.c = q / 36 * un(rv(1)); matter(b); add(s, b); }
    for (int i = 0; i < nb; ++i)
    {
        Obj<T> b; L z = (L)R.u(2, 18); b.c = R.chance(.6) ? V{z * th * (L)R.u(-1, 1), z * th * (L)R.u(-1, 1), z} : z * un(rv(1)); if (len(b.c) > 20) b.c = 20 * un(b.c); L q = len(b.c) * (L)R.u(.1, .7); b.semi = {q * (L)R.u(.3, 1), q * (L)R.u(.3, 1), q * (L)R.u(.3, 1)}; b.r = rrot(); b.kind = R.i(0, 1); if (b.kind) b.semi = .57L * b.semi; int what = R.i(0, lampy ? 4 : 7); if (what < 2) { b.light = true; b.kind = 0; b.semi = {q, q, q}; b.E = L0; } else if (what == 2 && !fog) { b.medium = true; b.kind = 0; for (size_t k = 0; k < T::size(); ++k) { b.alb[k] = (float)(R.lu(.1, 1.5) / (2 * (D)q)); b.sig[k] = 0.f; } float m = b.alb[0]; b.alb = T{m}; } else { matter(b); if (what == 3) b.alpha = R.u(.2, .9); }
        bool clash = len(b.c) < len(b.semi) * 1.05L; for (auto& o : ob) clash |= len(o.c - b.c) < 1.02L * (std::max({o.semi[0], o.semi[1], o.semi[2]}) * (o.kind ? 1.7321L : 1) + std::max({b.semi[0], b.semi[1], b.semi[2]}) * (b.kind ? 1.7321L : 1)); if (clash) continue; lamps += b.light; fog += b.medium; ob.push_back(b); add(s, b);
    }
    vh::cur("uniform %d: %dx%d, %zu bodies (%d lights, %d media)%s, albedo %s %g, %d samples, %d bounces", seq, s.w, s.h, ob.size() + closed, lamps, fog, closed ? dark ? ", closed in the dark" : ", closed" : "", pale ? "about" : "to", hi, spp, mb); auto view = s.view(); auto fb = s.o.c->make_frame_buffer(); fb.enable_received_power(); Renderer<T> ren; ren.set_samples_per_pixel(spp); ren.set_max_bounces(mb); ren.set_indirect_clamp(1e9f); ren.render(view, fb); plain(fb.received_power(), "received power"); vh::distinct(vh::hash(seq, spp, mb));
    for (size_t k = 0; k < T::size(); ++k) { Resid r(s.w, s.h); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { D g, gl, gh; s.gain(x, y, g, gl, gh); r.set(x, y, (D)fb.received_power()(x, y)[k], (D)L0[k] * g); } r.check("uniform", vh::fmt("band %zu", k).c_str(), 4e-3); } { D sum = 0, sq = 0; const size_t np = (size_t)(s.w * s.h); for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { D g, gl, gh, q = 0; s.gain(x, y, g, gl, gh); for (size_t k = 0; k < T::size(); ++k) q += ((D)fb.received_power()(x, y)[k] / ((D)L0[k] * g) - 1) / (D)T::size(); sum += q; sq += q * q; } D m = sum / (D)np, n = (D)np * spp, var = sq / (D)(np * np); bool box = false; for (auto& b : ob) box |= b.kind == 1; bool is[] = {true, lamps > 0, fog > 0, hi > .9 && pale, !closed, box}; for (size_t i = 0; i < 6; ++i) if (is[i]) { pools[i].n += n; pools[i].r += n * m; pools[i].v += n * n * var; ++pools[i].rooms; } }
    vh::count("rooms of uniform brightness"); if (lamps) vh::count("uniform rooms with lamps"); if (fog) vh::count("uniform rooms with fog");
}
// 13b: what lies inside an opaque body or a lamp is never seen, and a world n times as bright gives a picture n times as bright
template <class T> static void relations(Optics<T>& op, int seq)
{
    const D half = R.u(.1, .7); Shot<T> s(op, R.i(6, 24), R.i(6, 24), half); L th = (L)std::tan(s.half); std::vector<Obj<T>> ob; int nb = R.i(2, 7), lamps = 0; const float k = std::ldexp(1.f, R.i(-6, 6)); D hi = R.pick(std::vector<D>{.5, .8, .95}); T sky = R.chance(.5) ? spec<T>(.01, 3) : T{0.f};
    for (int i = 0; i < nb; ++i)
    {
        Obj<T> b; L z = (L)R.u(3, 20); b.c = {z * th * (L)R.u(-1.2, 1.2), z * th * (L)R.u(-1.2, 1.2), z}; if (R.chance(.2)) b.c = z * un(rv(1)); L q = z * (L)R.u(.05, .4); b.r = rrot(); b.kind = R.i(0, 1); b.semi = {q * (L)R.u(.4, 1), q * (L)R.u(.4, 1), q * (L)R.u(.4, 1)}; if (b.kind) b.semi = .57L * b.semi; if (R.chance(.35)) { b.light = true; b.kind = 0; b.semi = {q, q, q}; b.E = spec<T>(.1, 100); } else { b.alb = alb<T>(hi); if (R.chance(.6)) b.alb = T{(float)R.u(hi * .8, hi)}; if (R.chance(.2)) b.E = spec<T>(.1, 10); }
        bool clash = len(b.c) < len(b.semi) * 1.05L || len(b.c) + len(b.semi) > 38; for (auto& o : ob) clash |= len(o.c - b.c) < 1.02L * (len(o.semi) + len(b.semi)); if (clash) continue; lamps += b.light; ob.push_back(b);
    }
    bool room = R.chance(.4); Obj<T> wall; if (room) { L q = (L)R.lu(40, 120); wall.kind = R.i(0, 1); wall.semi = {q, q * (L)R.u(1, 1.5), q}; wall.r = rrot(); wall.alb = alb<T>(hi); if (R.chance(.5)) wall.E = spec<T>(.01, 5); }
    if (ob.empty()) return; for (auto& b : ob) if (!b.light && R.chance(.15)) { b.kind = 0; if (R.chance(.5)) b.alpha = R.u(.2, .9); else { b.medium = true; D base = R.lu(.05, 2) / (D)len(b.semi); for (size_t c = 0; c < T::size(); ++c) { b.sig[c] = (float)(base * R.u(0, 1)); b.alb[c] = (float)(base * R.u(.1, 1)); } } } vh::Rng keep = R; struct Pic { std::vector<std::pair<std::string, std::vector<float>>> f; }; const int spp = R.pick(std::vector<int>{1, 3, 8, 16}), mb = R.i(1, 8); int hid = 0;
    auto shoot = [&](bool hide, float bright) { R = keep; vh::Rng r2(77); std::unique_ptr<Scene<T>> old = std::move(s.sc); s.sc = std::make_unique<Scene<T>>(); auto f = s.sc->root.new_subframe(); (void)f; auto cf = s.sc->root.new_subframe(); M cm = s.bl ? mul(s.W, FLIP) : s.W; cf.set_position(units::Meter((D)s.P[0]), units::Meter((D)s.P[1]), units::Meter((D)s.P[2])); cf.set_rotation(dr(cm)); s.ci = cf.new_instance(op.cm); s.sc->set_background_radiance(sky * bright);
        for (auto b : ob) { b.E = b.E * bright; add(s, b); } if (room) { auto b = wall; b.E = b.E * bright; add(s, b); } { vh::Rng r3(seq + 5u); for (auto& b : ob) if (!b.light && !b.medium && b.alpha >= 1 && r3.chance(.5)) { Obj<T> in; in.c = b.c; L q = std::min({b.semi[0], b.semi[1], b.semi[2]}) * (L)r3.u(.1, .95); in.semi = {q, q, q}; in.light = true; in.E = T{hide ? 1e4f : 0.f}; vh::Rng t = R; add(s, in); R = t; vh::count("lamps inside opaque bodies", hide); } } if (hide) { hid = 0; if (room) { Obj<T> out; L q = (L)r2.u(5, 60); out.c = (3 * 120 + q) * un(V{(L)r2.u(-1, 1), (L)r2.u(-1, 1), (L)r2.u(-1, 1)}); out.semi = {q, q, q}; out.E = T{50.f}; vh::Rng t = R; add(s, out); R = t; ++hid; } for (auto& b : ob) { if (b.medium || b.alpha < 1) continue; Obj<T> in; in.c = b.c; L m = std::min({b.semi[0], b.semi[1], b.semi[2]}); L q = m * (L)r2.u(.2, .8); in.semi = {q, q, q}; in.alb = T{0.f}; vh::Rng t = R; add(s, in); R = t; ++hid; } }
        auto v = s.view(); auto fb = s.o.c->make_frame_buffer(); fb.enable_received_power(); fb.enable_received_direct_power(); fb.enable_received_indirect_power(); fb.enable_depth(); fb.enable_albedo(); Renderer<T> ren; ren.set_samples_per_pixel(spp); ren.set_max_bounces(mb); ren.set_indirect_clamp(1e30f); ren.render(v, fb); std::vector<std::vector<float>> o(5); for (size_t i = 0; i < fb.depth().size(); ++i) { for (size_t c = 0; c < T::size(); ++c) { o[0].push_back(fb.received_power()[i][c]); o[1].push_back(fb.received_direct_power()[i][c]); o[2].push_back(fb.received_indirect_power()[i][c]); o[4].push_back(fb.albedo()[i][c]); } o[3].push_back(fb.depth()[i]); } return o; };
    s.o.cm.set_sensor_rotation(units::Radian(0)); vh::cur("relations %d: %dx%d, %zu bodies (%d lights), %d samples, %d bounces, %g times as bright", seq, s.w, s.h, ob.size(), lamps, spp, mb, k); auto a = shoot(false, 1), b = shoot(true, 1), c = shoot(false, k); static const char* nm[] = {"received power", "direct power", "indirect power", "depth", "albedo"}; vh::distinct(vh::hash(seq, spp, mb));
    for (int i = 0; i < 5; ++i) { vh::ev(2); size_t bad = 0, at = 0; D sa = 0, sb = 0; for (size_t j = 0; j < a[i].size(); ++j) { if (a[i][j] != b[i][j]) { if (!bad++) at = j; } if (std::isfinite(a[i][j])) { sa += a[i][j]; sb += b[i][j]; } } VH_CHECK(!bad, "hidden", "%zu of %zu values of the %s change when something is put where it cannot be seen, the first from %.7g to %.7g, all together from %.7g to %.7g", bad, a[i].size(), nm[i], a[i][at], b[i][at], sa, sb); bad = 0; for (size_t j = 0; j < a[i].size(); ++j) { float w = i < 3 ? a[i][j] * k : a[i][j]; if (w != c[i][j]) { if (!bad++) at = j; } } VH_CHECK(!bad, "brighter", "%zu of %zu values of the %s do not follow the brightness of the world, the first is %.7g, should be %.7g", bad, a[i].size(), nm[i], c[i][at], i < 3 ? a[i][at] * k : a[i][at]); }
    vh::count("hidden bodies", (uint64_t)hid); vh::count("brightened worlds");
}
static void body()
{
    R = vh::Rng(vh::seed() * 31 + 31); still_frames(); vh::watchdog(200); Optics<RGB>& a = *new Optics<RGB>; Optics<Visible8>& b = *new Optics<Visible8>; bool few = getenv("VH_FEW") != nullptr; int only = getenv("VH_ONLY") ? atoi(getenv("VH_ONLY")) : -1;
    auto run = [&](auto& o, int i) { using T = std::conditional_t<std::is_same_v<std::decay_t<decltype(o)>, Optics<RGB>>, RGB, Visible8>; int k = i % 15; if (only >= 0 && k != only) return; if (k < 4) luminous<T>(o, i); else if (k == 4) environment<T>(o, i); else if (k < 7) lit<T>(o, i); else if (k == 7 || k == 8) scatter<T>(o, i); else if (k == 9 || k == 10) optics<T>(o, i); else if (k == 11) for (int j = 0; j < 4; ++j) selection<T>(o, i * 4 + j); else if (k == 13) { for (int j = 0; j < 9; ++j) uniform<T>(o, i * 9 + j); } else if (k == 14) for (int j = 0; j < 8; ++j) relations<T>(o, i * 8 + j); else for (int j = 0; j < 4; ++j) buffers<T>(o, i); };
    for (int i = 0, N = few ? vh::n(45, 450) : vh::n(255, 6000); i < N; ++i) { vh::watchdog(120); if (R.chance(.2)) run(b, i); else run(a, i); }
    for (auto& p : pools) if (p.rooms > 5) { D m = p.r / p.n, sg = std::sqrt(p.v) / p.n; vh::ev(); vh::cur("%d %s", p.rooms, p.what); if (getenv("VH_DBG")) fprintf(stderr, "%s %d: %.5f +- %.5f\n", p.what, p.rooms, m, sg); VH_CHECK(std::fabs(m) <= 6.5 * sg + 1.5e-3, "uniform", "%d %s of uniform brightness appear %.5f of it too bright (standard error %.5f)", p.rooms, p.what, m, sg); }
}
VH_MAIN(body())
