// C30: where and how much power point sources leave in the image, against a double-precision splat.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using D = double; using F3 = Vec3<float>;
struct StCb : StateCallback { Move m; Spin s; StCb(Move a, Spin b) : m(a), s(b) {} void evaluate(const Time& t) override { state.position = dv(m.at(t.et(), T0)); state.velocity = dv(m.vel(t.et(), T0)); state.rotation = dr(s.at(t.et(), T0)); state.angular_velocity = dv(s.om(t.et(), T0)); } };
struct Line : StateCallback { V p, v; M r; Line(V a, V b, M c) : p(a), v(b), r(c) {} void evaluate(const Time& t) override { (void)t; state.position = dv(p); state.velocity = dv(v); state.rotation = dr(r); state.angular_velocity = {0, 0, 0}; } };
// an elliptic bell whose width differs between bands
template <class T> struct Bell : PSF<T> { float sx, sy; Bell(float a, float b, int r, int n) : sx(a), sy(b) { this->build_polyphase_cache(r, n); } T evaluate(float x, float y) override { T o{0}; for (size_t b = 0; b < T::size(); ++b) { float k = 1 + .15f * (float)b; o[b] = std::exp(-.5f * (x * x / (sx * sx * k) + y * y / (sy * sy * k))); } return o; } };
struct Px { D x, y; };
static const D C0 = 299792458.;
static V apparent(const V& n, const V& vel) { V b = (1.L / (L)C0) * vel; L b2 = dot(b, b); if (b2 == 0) return n; L g = 1 / std::sqrt(1 - b2), nb = dot(n, b), k = 1 / (1 + nb); return k * ((1 / g) * n + (1 + g / (g + 1) * nb) * b); }
template <class T> static T rspec(D lo, D hi) { T o{0}; for (size_t b = 0; b < T::size(); ++b) o[b] = (float)R.lu(lo, hi); return o; }

template <class T> struct Rig {
    Scene<T>& cams; CameraModelHandle<T> cm; std::shared_ptr<CameraModel<T>> c; int mode = 0; D f = .05, pitch = 1e-5; int rx = 1, ry = 1; D cx = 0, cy = 0; bool blender = false, lens = false; int banks = 1, ext = 0;
    Rig() : cams(*new Scene<T>), cm(cams.new_camera_model("cam")), c(cm.get()) {}
    void optics() // the slow part
    {
        mode = R.i(0, 3); f = R.lu(.02, .5); pitch = R.lu(4e-6, 3e-5); c->set_focal_length(units::Meter(f)); c->set_focus_distance(units::Meter(INFINITY)); float N = (float)R.u(1.5, 12); c->set_fstop(N); c->delete_psf(); size(8, 8); c->enable_psf_convolution(false); banks = 1; ext = 0;
        if (mode == 1 || mode == 3) { int r = R.i(1, 6), b = R.pick(std::vector<int>{1, 2, 3, 4, 8}); if (R.chance(.25) && mode == 1) c->use_aperture_psf(r, b); else c->template set_psf<Bell<T>>((float)R.u(.3, .3 + r / 3.), (float)R.u(.3, .3 + r / 3.), r, b); banks = b; ext = r; }
        if (mode >= 2) { D rad = R.u(.8, 9), d = f * (f / N / 2) / (rad * pitch); c->set_focus_distance(units::Meter(d)); banks = 16; ext = c->aperture_->has_defocus() ? c->aperture_->get_defocus_half_extent() : 0; if (mode == 3 && R.chance(.5)) c->enable_psf_convolution(true); }
    }
    void size(int w, int h) { rx = w; ry = h; std::optional<float> ox, oy; if (R.chance(.3)) { ox = (float)(w * R.u(-.2, 1.2)); oy = (float)(h * R.u(-.2, 1.2)); } c->configure_sensor_from_pitch(Resolution{w, h}, units::Micrometer(units::Meter(pitch)), units::Micrometer(units::Meter(pitch)), ox, oy); cx = c->cx_; cy = c->cy_; }
    D fx() const { return f / pitch; }
    V dir(Px p) const { if (lens) { auto r = c->cast_ray(Pixel{(float)p.x, (float)p.y}); return {r.direction().x, r.direction().y, r.direction().z}; } V v{(L)((p.x - cx) / fx()), (L)((p.y - cy) / fx()), 1}; if (blender) { v[1] = -v[1]; v[2] = -1; } return (1 / len(v)) * v; }
    bool front(const V& v) const { return (blender ? -v[2] : v[2]) > 0; }
    Px px(const V& v) const { D z = (D)(blender ? -v[2] : v[2]); if (lens) { auto p = c->project_point({(float)v[0], (float)v[1], (float)v[2]}); return {p[0], p[1]}; } return {(D)v[0] / z * fx() + cx, (D)(blender ? -v[1] : v[1]) / z * fx() + cy}; }
    D area(const V& v) const { return (D)c->aperture_->get_area().to_si() * std::fabs((D)v[2]) / (D)len(v); }
    // share of band b that a source at p leaves in pixel (x, y); kernels are centred on pixel centres
    const Image<T>* kt = nullptr; const Image<float>* kf = nullptr; int bx = 0, by = 0;
    void at(Px p) { D qx = p.x - .5, qy = p.y - .5; kt = nullptr; kf = nullptr; if (!ext) { bx = (int)std::floor(p.x); by = (int)std::floor(p.y); return; } bx = (int)std::floor(qx); by = (int)std::floor(qy); float u = ((float)std::floor((qx - bx) * banks) + .5f) / (float)banks, v = ((float)std::floor((qy - by) * banks) + .5f) / (float)banks; if (mode >= 2) kf = &c->aperture_->get_defocus_kernel(u, v); else kt = &c->get_psf_kernel(u, v); }
    D share(int x, int y, size_t b) const { if (!ext) return x == bx && y == by; int kx = x - bx + ext, ky = y - by + ext; if (kx < 0 || ky < 0 || kx > 2 * ext || ky > 2 * ext) return 0; return kf ? (D)(*kf)(kx, ky) : (D)(*kt)(kx, ky)[b]; }
};
struct Src { V w; bool inf; D dist; int who; D weight; int seen; Px p; V cam; }; // seen: 1 yes, 0 no, -1 undecided
template <class T> struct Source { bool star; V dir; D dist = INFINITY; T irr; int seen = 1; V cam; Px p; };

template <class T> static void scene_case(Rig<T>& g, int seq)
{
    static const std::vector<int> sizes{1, 2, 3, 7, 16, 17, 31, 63, 64, 65, 66, 100, 127, 128, 129, 140}; int w = R.pick(sizes), h = R.pick(sizes); g.blender = R.chance(.25); g.c->use_blender_convention(g.blender); g.lens = false; g.c->delete_distortion(); g.size(w, h);
    if (R.chance(.15) && w > 4 && h > 4) { g.lens = true; D rad = std::hypot(w, h) / g.fx() + 1e-3; g.c->set_brown_conrady_distortion(BrownCoefficients(R.u(-.05, .05) / rad / rad, 0, 0, 0, 0)); }
    bool trail = R.chance(.4); int NT = trail ? R.pick(std::vector<int>{2, 3, 4, 5, 9, 17}) : R.pick(std::vector<int>{1, 1, 1, 2, 3, 5}); D dur = R.lu(.01, 100);
    auto* sc = new Scene<T>; M rot = rrot(); V pos = rv(R.chance(.3) ? 0 : 1e3L), vel{}; Spin sp{{0, 0, 1}, 0, 0, rot}; std::vector<Source<T>> src; bool roll = false;
    FrameHandle<T> fr = sc->root.new_subframe(); auto ci = fr.new_instance(g.cm);
    if (trail) { // turn about an axis in the camera frame: a shift of up to 1.5 images, or a roll about the boresight
        roll = R.chance(.3) && NT >= 9; V ax = roll ? V{0, 0, 1} : V{(L)R.gauss(), (L)R.gauss(), 0}; L ang = roll ? (L)R.u(-1.5, 1.5) : (L)(R.lu(.02, 1.5) * std::max(w, h) / g.fx()); if (!roll && ang > .12L) ang = .12L; sp.ax = app(rot, ax); sp.w = ang / (L)dur; T0 = 0; fr.get()->template set_custom_state_callback<StCb>(Move{pos, {}, {}, 0}, sp);
    } else { if (R.chance(.4)) vel = rv(R.lu(1, 3e7)); fr.get()->template set_custom_state_callback<Line>(pos, vel, rot); }
    auto camrot = [&](D s) { return trail ? tr(sp.at((L)(s * dur), 0)) : tr(rot); }; // world to camera at shutter time s
    // an occluder
    V oc{}; D orad = 0, od = 0; if (!trail && R.chance(.4) && NT == 1 && w > 8 && h > 8) { od = R.lu(10, 1e4); Px p{R.u(0, w), R.u(0, h)}; oc = g.dir(p); orad = od * R.u(3, std::max(4., .4 * w)) / g.fx(); auto prim = sc->add_primitive(sc->add_ellipsoid(units::Meter(orad), units::Meter(orad), units::Meter(orad))); auto in = sc->root.new_instance(prim); V P = pos + app(rot, (L)od * oc); in.set_position(units::Meter((D)P[0]), units::Meter((D)P[1]), units::Meter((D)P[2])); vh::count("scenes with an occluder"); }
    int ns = R.i(1, trail ? 2 : 5); std::vector<Star<T>> stars;
    for (int k = 0; k < ns; ++k)
    {
        Source<T> s; Px p; int kind = R.i(0, 9); auto on = [&](int n) { D v = R.chance(.4) ? R.u(0, n) : R.pick(std::vector<D>{0, .5, (D)n, n - .3, n - .5, (D)R.i(0, n), R.i(0, n) + .5, 64, 63.5, 64.4, 63.7, 128, 127.6, 16, 15.6}); return v; };
        p = {on(w), on(h)}; if (kind == 8) p = {R.u(-2. * w - 20, 3. * w + 20), R.u(-2. * h - 20, 3. * h + 20)}; if (kind == 9 && ns > 1) { s.dir = rv(1); s.dir = (1 / len(s.dir)) * s.dir; } else { if (g.lens) { p.x = std::clamp(p.x, 0., w - .01); p.y = std::clamp(p.y, 0., h - .01); } p.x += R.pick(std::vector<D>{0, 0, 1e-3, -1e-3, .01, -.01}); s.dir = g.dir(g.lens ? Px{std::clamp(p.x, 0., w - .01), p.y} : p); }
        if (orad > 0 && R.chance(.5)) { D off = R.pick(std::vector<D>{0, .3, .5, 3}) * orad / od; V t = cross(s.dir, oc); if (len(t) < 1e-6L) t = V{1, 0, 0}; s.dir = oc + (L)off * cross(oc, (1 / len(t)) * t); s.dir = (1 / len(s.dir)) * s.dir; }
        V wd = app(tr(camrot(trail ? R.u(0, 1) : 0)), s.dir); // world direction as it shall appear
        s.star = R.chance(.6); s.irr = rspec<T>(1e-13, 1e-6); if (R.chance(.1)) s.irr = rspec<T>(1e-17, 1e-13); if (R.chance(.05)) s.irr = T{0.f};
        if (s.star) { V n = apparent(wd, -1.L * vel); n = (1 / len(n)) * n; stars.push_back(Star<T>(dv(n), s.irr)); s.dir = apparent(n, vel); }
        else { s.dist = orad > 0 ? od * R.pick(std::vector<D>{.01, .5, 2, 1e4}) : R.lu(1, 1e9); V P = pos + (L)s.dist * wd; auto uo = sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<T>(s.irr)); auto ui = sc->root.new_instance(uo); ui.set_position(units::Meter((D)P[0]), units::Meter((D)P[1]), units::Meter((D)P[2])); Vec3<D> q = dv(P); s.dir = lv(q) - pos; }
        s.dir = (1 / len(s.dir)) * s.dir; if (orad > 0) { V cd = app(camrot(0), s.dir); D sep = (D)std::atan2(len(cross(cd, oc)), dot(cd, oc)), rim = std::asin(std::min(1., orad / od)), pp = 2.5 / g.fx(); if (s.star || s.dist > od) s.seen = sep < .7 * rim - pp ? 0 : sep > rim + pp ? 1 : -1; if (!s.star && s.dist > od - orad * 1.01 && s.dist < od + orad * 1.01) s.seen = -1; if (s.seen == 0) vh::count("hidden sources"); else if (!s.star && s.dist < od && sep < .7 * rim) vh::count("sources in front of a surface"); }
        src.push_back(s);
    }
    sc->set_stars(stars); vh::cur("scene %d: %dx%d mode %d kernel %d/%d, %d sources, %d times%s%s%s", seq, w, h, g.mode, g.ext, g.banks, ns, NT, trail ? roll ? " roll" : " trail" : "", g.blender ? " blender" : "", g.lens ? " lens" : "");
    SceneView<T> view(*sc, Interval(Time::from_et(0), Time::from_et(dur)), ci, ObservationMode::TRUE_STATE, (size_t)NT);
    auto fb = g.c->make_frame_buffer(); bool has_depth = R.chance(.4); int bufs = R.i(0, 3); if (has_depth) fb.enable_depth(); if (bufs & 1) fb.enable_sensor_response(); else fb.enable_received_power(); if (bufs & 2) fb.enable_camera_normals(); Renderer<T> ren; ren.set_samples_per_pixel(orad > 0 ? 4 : 1); ren.set_max_bounces(1); ren.render(view, fb);
    Image<T> img = fb.received_power(); VH_CHECK(fb.has_depth() == has_depth, "buffers", "rendering switched the depth buffer %s", has_depth ? "off" : "on"); VH_CHECK(img.width() == w && img.height() == h, "size", "received power has another size"); if (img.width() != w || img.height() != h) { delete sc; return; }
    for (auto& s : src) { s.cam = app(camrot(0), s.dir); }
    if (getenv("VH_DBG") && atoi(getenv("VH_DBG")) == seq) for (auto& s : src) { Px p = g.front(s.cam) ? g.px(s.cam) : Px{-1, -1}; fprintf(stderr, "%s at (%.5f,%.5f) z %Lg dist %g irr %g seen %d vel %Lg blender %d NT %d; brightest in image %g\n", s.star ? "star" : "object", p.x, p.y, s.cam[2], s.dist, s.irr[0], s.seen, len(vel), g.blender, NT, (double)[&] { float m = 0; for (size_t i = 0; i < img.size(); ++i) m = std::max(m, img[i][0]); return m; }()); }
    T pe = T::photon_energies(); bool conv = g.mode == 3 && g.c->convolve_psf_ && g.ext; const size_t NB = T::size(); size_t W = (size_t)w, H = (size_t)h; D step = 1. / g.banks, e = std::max(2e-3, g.lens ? .01 : g.fx() * 6e-7); if (roll) e = .05;
    vh::ev(); vh::distinct(vh::hash(seq, w, h, g.mode));
    if (!trail)
    {
        std::vector<D> lo(W * H * NB, 0), hi(W * H * NB, 0); std::vector<D> tot_lo(NB, 0), tot_hi(NB, 0); int inside = 0;
        for (auto& s : src)
        {
            if (!g.front(s.cam)) { vh::count("behind"); continue; } Px p = g.px(s.cam); bool sure = p.x > e && p.y > e && p.x < w - e && p.y < h - e, out = p.x < -e || p.y < -e || p.x > w + e || p.y > h + e; D a = g.area(s.cam);
            if (out && (p.x < -g.ext - 1 || p.y < -g.ext - 1 || p.x > w + g.ext + 1 || p.y > h + g.ext + 1)) { vh::count("outside"); continue; } if (out) { vh::count("just outside"); } else ++inside;
            std::vector<D> slo(W * H * NB, 1e300), shi(W * H * NB, 0); std::vector<D> tl(NB, 1e300), th(NB, 0);
            for (int i = -1; i <= 1; ++i) for (int j = -1; j <= 1; ++j) for (int k = 0; k < (g.ext ? 3 : 1); ++k)
            {
                D dx = k == 0 ? e : k == 1 ? step : step + e, dy = dx; g.at({p.x + i * dx, p.y + j * dy}); std::vector<D> t(NB, 0);
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (std::abs(x - p.x) < g.ext + 3 && std::abs(y - p.y) < g.ext + 3) for (size_t b = 0; b < NB; ++b) { D v = g.share(x, y, b); size_t n = ((size_t)y * W + (size_t)x) * NB + b; slo[n] = std::min(slo[n], v); shi[n] = std::max(shi[n], v); t[b] += v; }
                if (k == 0 || !sure) for (size_t b = 0; b < NB; ++b) { tl[b] = std::min(tl[b], t[b]); th[b] = std::max(th[b], t[b]); }
            }
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (std::abs(x - p.x) < g.ext + 3 && std::abs(y - p.y) < g.ext + 3) for (size_t b = 0; b < NB; ++b)
            {
                size_t n = ((size_t)y * W + (size_t)x) * NB + b; D E = (D)s.irr[b] * a, crop = g.mode == 1 ? .4 * (D)pe[b] : 0; // rings that bring less than a tenth of a photon a second may be left out
                bool may = s.seen == -1 || !sure; if (s.seen == 0) continue; hi[n] += shi[n] * E; if (!may) { D v = slo[n] * E; if (slo[n] > 1e200) v = 0; bool core = std::abs(x + .5 - p.x) < 1 && std::abs(y + .5 - p.y) < 1; lo[n] += core ? v : std::max(0., v < crop ? 0. : v - crop); }
            }
            if (s.seen == 0) continue; for (size_t b = 0; b < NB; ++b) { D E = (D)s.irr[b] * a, crop = g.mode == 1 ? .15 * (D)pe[b] * std::pow(2 * g.ext + 1, 2) : 0; tot_hi[b] += E * th[b]; if (sure && s.seen == 1) { D under = E * tl[b]; D cr = std::min(crop, under * .9); tot_lo[b] += under - cr; } }
        }
        if (inside) vh::count("still sources in the image", (uint64_t)inside); if (w > 64 || h > 64) vh::count("images of several tiles");
        for (size_t b = 0; b < NB; ++b)
        {
            D t = 0, mx = 0; for (size_t i = 0; i < W * H; ++i) { t += (D)img[i][b]; mx = std::max(mx, hi[i * NB + b]); }
            if (!conv) for (size_t i = 0; i < W * H; ++i) { D v = (D)img[i][b], l = lo[i * NB + b], u = hi[i * NB + b]; if (!(v >= l * (1 - 2e-5) - 2e-6 * mx && v <= u * (1 + 2e-5) + 2e-6 * mx)) { VH_FAIL(v < l ? "pixel-missing" : "pixel-extra", "pixel (%zu,%zu) band %zu received %.6g W, expected %.6g to %.6g; first source at (%.4f,%.4f)", i % W, i / W, b, v, l, u, src[0].star || true ? g.px(src[0].cam).x : 0, g.px(src[0].cam).y); break; } }
            D slack = conv ? .02 : 2e-5; bool border = false; for (auto& s : src) if (g.front(s.cam)) { Px p = g.px(s.cam); D m = g.ext + (conv ? 8. : 0.) + 2; border |= p.x < m || p.y < m || p.x > w - m || p.y > h - m; }
            if (!(conv && border)) VH_CHECK(t >= tot_lo[b] * (1 - slack) - 1e-6 * tot_hi[b] && t <= tot_hi[b] * (1 + slack), t < tot_lo[b] ? "energy-lost" : "energy-extra", "band %zu: image holds %.8g W, sources bring %.8g to %.8g W", b, t, tot_lo[b], tot_hi[b]);
            if (!(t > 0) && tot_lo[b] > 0) break;
        }
        if (ns == 1 && g.ext && !conv && src[0].seen == 1 && g.front(src[0].cam)) { Px p = g.px(src[0].cam); D m = g.ext + 1.5; if (g.mode == 1 && src[0].irr[0] < 1e-9f) m = 1e9; if (p.x > m && p.y > m && p.x < w - m && p.y < h - m) { D t = 0, sx = 0, sy = 0; for (size_t i = 0; i < W * H; ++i) { D v = (D)img[i][0]; t += v; sx += v * ((D)(i % W) + .5); sy += v * ((D)(i / W) + .5); } D tol = step * .6 + (g.mode == 1 ? .12 : .12) + .01; if (t > 0) VH_CHECK(std::fabs(sx / t - p.x + step / 2) < tol && std::fabs(sy / t - p.y + step / 2) < tol, "off-centre", "source at (%.4f,%.4f) is centred at (%.4f,%.4f)", p.x, p.y, sx / t, sy / t); vh::count("centroids"); } }
    }
    else if (!conv)
    {
        std::vector<D> ex(W + 1, 0), ey(H + 1, 0); D total = 0, tolE = 0, tolC = 0; const int Q = 1500; bool reenter = false; std::vector<D> run(W * H, 0); bool clear = g.ext == 0 && !(orad > 0);
        for (auto& s : src)
        {
            D len_px = 0, in = 0, lever = 0, band = 0, path = 0; Px before{-1e9, -1e9}; Px last{0, 0}; bool any = false; int runs = 0; bool prev = false; D E = (D)s.irr[0];
            for (int q = 0; q < Q; ++q)
            {
                V cdir = app(camrot((q + .5) / Q), s.dir); bool fr2 = g.front(cdir); Px p = fr2 ? g.px(cdir) : Px{-1e9, -1e9}; bool ins = fr2 && p.x >= 0 && p.y >= 0 && p.x < w && p.y < h; if (fr2) { D bw = std::max(.015, e); bool nr = p.x > -bw && p.y > -bw && p.x < w + bw && p.y < h + bw, dp = p.x > bw && p.y > bw && p.x < w - bw && p.y < h - bw; band += (nr && !dp) / (D)Q; if (q && before.x > -1e8) path += std::hypot(p.x - before.x, p.y - before.y); } before = p; if (ins && prev && any) { D st = std::hypot(p.x - last.x, p.y - last.y), mg = .02 + 2 * e; len_px += st; if (std::floor(p.x) == std::floor(last.x) && std::floor(p.y) == std::floor(last.y) && p.x - std::floor(p.x) > mg && p.x - std::floor(p.x) < 1 - mg && p.y - std::floor(p.y) > mg && p.y - std::floor(p.y) < 1 - mg) run[(size_t)p.y * W + (size_t)p.x] += st; } if (ins && !prev) ++runs; prev = ins; if (!ins) continue; any = true; last = p; in += 1. / Q; D a = g.area(cdir) * E / Q; g.at(p);
                for (int y = std::max(0, g.by - g.ext); y <= std::min(h - 1, g.by + g.ext); ++y) for (int x = std::max(0, g.bx - g.ext); x <= std::min(w - 1, g.bx + g.ext); ++x) { D v = a * g.share(x, y, 0); ex[(size_t)x + 1] += v; ey[(size_t)y + 1] += v; total += v; }
                lever = a * Q;
            }
            if (runs > 1) { reenter = true; } D full = runs ? lever : (D)s.irr[0] * (D)g.c->aperture_->get_area().to_si(); bool touch = in < 1 - .5 / Q; D Lp = std::max(len_px, 1e-3), rate = in > 0 ? Lp / in : std::max(path, 1e-3); // pixels per exposure
            if (rate < 1e-3) rate = 1e-3; D edge = (runs ? runs * 2 : 1) * std::min(1., (g.lens || roll ? 1.5 : std::max(.03, 2 * e)) / rate + 1.5 / Q); if (g.ext) edge += in * 2. / Q; if (!runs) { bool near = false; for (int q = 0; q <= 200; ++q) { V cdir = app(camrot(q / 200.), s.dir); if (!g.front(cdir)) continue; Px p = g.px(cdir); D m = (g.lens || roll ? 1.5 : std::max(.03, 2 * e)) + rate / 200; near |= p.x > -m && p.y > -m && p.x < w + m && p.y < h + m; } if (!near) edge = 0; } edge = std::min(1., edge + band);
            D crop = g.mode == 1 ? std::min(.15 * (D)pe[0] * std::pow(2 * g.ext + 1, 2), .9 * full) : 0;
            // kernels near the border: positions are known to a sample step and a kernel bank
            D rim = g.ext ? (touch || true) * std::min(1., (.8 + step) / std::max(1., Lp)) * in : 0; bool deep = !touch; if (deep) for (int q = 0; q <= 50; ++q) { Px p = g.px(app(camrot(q / 50.), s.dir)); deep &= p.x > g.ext + 2 && p.y > g.ext + 2 && p.x < w - g.ext - 2 && p.y < h - g.ext - 2; } if (deep) { rim = 0; edge = roll ? 2e-3 : 1e-4; }
            D tl = std::max(Lp, .05); tolE += full * (touch || !deep ? edge + rim : edge) + full * 1e-3 + crop; tolC += full * (edge + 1e-3) + crop + full * std::min(1., ((roll ? 2 : 0) + .8 + step + e) / tl); vh::count("moving sources"); if (deep) vh::count("whole trails"); else if (touch && runs) vh::count("trails crossing the border");
        }
        if (reenter) vh::count("trails leaving and coming back"); D t = 0; std::vector<D> mx(W + 1, 0), my(H + 1, 0); for (size_t i = 0; i < W * H; ++i) { D v = (D)img[i][0]; t += v; mx[i % W + 1] += v; my[i / W + 1] += v; }
        if (getenv("VH_DBG") && atoi(getenv("VH_DBG")) == seq) for (auto& q : src) for (int k = 0; k <= 20; ++k) { V cd = app(camrot(k / 20.), q.dir); Px p = g.px(cd); fprintf(stderr, "trail %.2f irr %g: (%.4f,%.4f) front %d\n", k / 20., q.irr[0], p.x, p.y, g.front(cd)); }
        // a trail has no gaps: pixels it crosses from side to side receive something
        if (clear) for (size_t i = 0; i < W * H; ++i) if (run[i] > .85) { vh::count("pixels under a trail"); if (!((D)img[i][0] > 0)) { VH_FAIL("trail-gap", "pixel (%zu,%zu) received nothing, %.3f pixels of trail lie in it", i % W, i / W, run[i]); break; } }
        VH_CHECK(std::fabs(t - total) <= tolE + 1e-30, t < total ? "trail-lost" : "trail-extra", "moving sources leave %.6g W, expected %.6g +- %.2g", t, total, tolE);
        D a = 0, b2 = 0, worst = 0; for (size_t i = 0; i <= W; ++i) { a += mx[i]; b2 += ex[i]; worst = std::max(worst, std::fabs(a - b2)); } a = b2 = 0; for (size_t i = 0; i <= H; ++i) { a += my[i]; b2 += ey[i]; worst = std::max(worst, std::fabs(a - b2)); }
        VH_CHECK(worst <= tolE + tolC + 1e-30, "trail-shape", "power along the trail is displaced: cumulated power differs by %.4g of %.4g W (tolerance %.2g)", worst, total, tolE + tolC);
    }
    // veiling glare moves power from everywhere to everywhere and keeps its sum
    if (R.chance(.15)) { float al = (float)R.u(.01, 1); g.c->set_veiling_glare(al); SceneView<T> v2(*sc, Interval(Time::from_et(0), Time::from_et(dur)), ci, ObservationMode::TRUE_STATE, (size_t)NT); auto f2 = g.c->make_frame_buffer(); f2.enable_received_power(); ren.render(v2, f2); D s = 0; for (size_t i = 0; i < W * H; ++i) s += (D)img[i][0]; for (size_t i = 0; i < W * H; ++i) { D want = (D)img[i][0] * (1 - al) + al * s / (D)(W * H), got = (D)f2.received_power()[i][0]; if (!(std::fabs(want - got) <= 1e-5 * want + 1e-5 * s / (D)(W * H))) { VH_FAIL("glare", "veiling glare %g: pixel %zu is %.6g W, expected %.6g", al, i, got, want); break; } } g.c->disable_veiling_glare(); vh::count("glare"); }
    delete sc;
}
static void body()
{
    R = vh::Rng(vh::seed() * 31 + 30); still_frames(); vh::watchdog(300); Rig<RGB> a; Rig<Visible8> b; bool few = getenv("VH_FEW") != nullptr;
    for (int i = 0, N = few ? vh::n(60, 600) : vh::n(240, 4000); i < N; ++i) { vh::watchdog(60); if (i % 8 == 0) { if (i % 32 == 24) b.optics(); else a.optics(); } if (i / 8 % 4 == 3) scene_case(b, i); else scene_case(a, i); }
}
VH_MAIN(body())
