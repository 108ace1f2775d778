// C20: sensor read-out against a double-precision photo-electron budget; parameter validation; reproducibility.
#include "cam.hpp"
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
static thread_local vh::Rng R(1);
template <class T> using Sen = SimpleSensor<T>;
template <class T> static D energy(size_t b) { return 6.62607015e-34 * 299792458.0 / (D)T::get_bin(b).center_wavelength; }
struct Par { D fwc, rn, dc, bias, gain, dt; int bits; };
static Par draw()
{
    Par p; p.fwc = R.lu(500, 2e5); p.rn = R.chance(.15) ? 0 : R.lu(.1, 60); p.dc = R.chance(.2) ? 0 : R.lu(.01, 2e3); p.bias = R.chance(.2) ? 0 : R.lu(.5, 900); p.gain = R.lu(.02, 60); p.dt = R.chance(.1) ? 0 : R.lu(1e-4, 400); p.bits = R.chance(.1) ? R.i(1, 32) : R.i(6, 16); return p;
}
template <class S, class Q> static void apply(S& s, const Par& p, const Q& qe, bool noise)
{ // any order, some set twice
    std::vector<std::function<void()>> ops = {[&] { s.set_full_well_capacity((float)p.fwc); }, [&] { s.set_read_noise((float)p.rn); }, [&] { s.set_dark_current((float)p.dc); }, [&] { s.set_bias_level_dn((float)p.bias); }, [&] { s.set_gain_adu((float)p.gain); }, [&] { s.set_bit_depth(p.bits); }, [&] { s.set_quantum_efficiency(qe); }, [&] { s.set_simulate_noise(noise); }};
    for (size_t i = ops.size(); i > 1; --i) std::swap(ops[i - 1], ops[R.below(i)]);
    for (auto& f : ops) f();
}
template <class T> static FrameBuffer<T> buffer(int w, int h)
{
    static thread_local CameraModel<T> c; c.configure_sensor_from_pitch(Resolution{w, h}, units::Micrometer(5)); auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); return fb;
}
template <class T> static D out(FrameBuffer<T>& fb, int x, int y, size_t ch) { if constexpr (std::is_same_v<T, RGB>) return fb.sensor_response()(x, y)[ch]; else { (void)ch; return fb.sensor_response()(x, y); } }
template <class T> static T draw_qe() { T q; for (size_t b = 0; b < T::size(); ++b) q[b] = R.chance(.1) ? (R.chance(.5) ? 0.f : 1.f) : (float)R.u(0.02, 1); return q; }
template <class T> constexpr size_t outs() { return std::is_same_v<T, RGB> ? 3 : 1; }
// electrons per output channel from power
template <class T> static D electrons(const T& pw, const T& qe, D dt, size_t ch) { D e = 0; if (outs<T>() == 1) { for (size_t b = 0; b < T::size(); ++b) e += (D)pw[b] * (D)(float)dt / energy<T>(b) * qe[b]; } else e = (D)pw[ch] * (D)(float)dt / energy<T>(ch) * qe[ch]; return e; }
template <class T> static T power_for(D e, const T& qe, D dt) // spectrum that collects about e electrons in every bin
{ T p; for (size_t b = 0; b < T::size(); ++b) p[b] = (float)(e * energy<T>(b) / std::max((D)qe[b], .02) / std::max(dt, 1e-4)); return p; }
template <class T> static void quiet_case()
{
    Par p = draw(); T qe = draw_qe<T>(); int w = R.i(1, 9), h = R.i(1, 7); auto fb = buffer<T>(w, h); Sen<T> s; apply(s, p, qe, false);
    vh::cur("noise-free fwc=%g gain=%g bits=%d dt=%g bias=%g", p.fwc, p.gain, p.bits, p.dt, p.bias);
    D dnmax = std::pow(2., p.bits) - 1; std::vector<T> in;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { D e = R.chance(.1) ? 0 : R.chance(.3) ? p.fwc * R.u(.8, 1.3) / outs<T>() : R.chance(.3) ? dnmax * p.gain * R.u(.8, 1.2) : R.lu(.01, 1e7); T v = power_for(e, qe, p.dt); if (R.chance(.1)) v[0] = -(float)R.lu(1e-25, 1e-18); fb.received_power()(x, y) = v; }
    Image<T> before = fb.received_power(); s.readout(fb, units::Second(p.dt)); vh::ev((std::uint64_t)(w * h)); vh::distinct(vh::hash(p.fwc, p.gain, p.dt, p.bits));
    VH_CHECK(fb.sensor_response().sensor_bit_depth() == p.bits, "bit-depth", "response labelled %d bits, sensor has %d", fb.sensor_response().sensor_bit_depth(), p.bits);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (size_t c = 0; c < outs<T>(); ++c) {
        D e = std::max(0., electrons(before(x, y), qe, p.dt, c)), dn = std::min(e, (D)(float)p.fwc) / (D)(float)p.gain, ref = std::clamp(dn, 0., dnmax) / dnmax, got = out(fb, x, y, c);
        VH_CHECK(got >= 0 && got <= 1, "range", "response %g", got); VH_CHECK(std::fabs(got - ref) <= 2e-5 * ref + 1e-12, "noise-free", "%g electrons (well %g, gain %g, %d bits): response %.8g, expected %.8g", e, p.fwc, p.gain, p.bits, got, ref);
        if (e >= p.fwc) vh::count("full-well"); if (dn >= dnmax) vh::count("full-scale"); if (e == 0) vh::count("dark"); }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (size_t b = 0; b < T::size(); ++b) VH_CHECK(fb.received_power()(x, y)[b] == before(x, y)[b], "input-changed", "read-out changed the received power");
    vh::count("noise-free");
}
template <class T> static void noisy_case()
{
    Par p = draw(); p.bits = R.i(8, 16); p.dt = R.lu(1e-2, 50); T qe; for (size_t b = 0; b < T::size(); ++b) qe[b] = (float)R.u(.1, 1); int w = R.i(90, 130), h = R.i(80, 120), n = w * h; auto fb = buffer<T>(w, h); Sen<T> s;
    D dnmax = std::pow(2., p.bits) - 1; int mode = R.i(0, 5); // 0: dark frame, 1: saturated, else in the linear range
    D e = mode == 0 ? 0 : mode == 1 ? p.fwc * R.u(3, 9) : R.lu(20, 3000); D dark = p.dc * p.dt; if (mode == 0) e = 0; if (mode > 1) { p.dc = std::min(p.dc, 2 * e / p.dt); dark = p.dc * p.dt; }
    if (mode >= 1 && R.chance(.2)) p.rn = 0;
    D tot = e * (outs<T>() == 1 ? (D)T::size() : 1) + dark, sig = std::sqrt(tot + p.rn * p.rn);
    if (mode != 1) { p.fwc = std::max(p.fwc, tot + 12 * sig + 10); p.gain = std::max(p.gain, (tot + 12 * sig) / (dnmax * .8)); p.bias = std::max(p.bias > dnmax * .1 ? dnmax * .1 : p.bias, mode == 5 ? 0. : 7 * sig / p.gain); if (p.bias + (tot + 12 * sig) / p.gain > dnmax) return; }
    bool clipped = mode == 1 || p.bias + (tot - 6 * sig) / p.gain < 0; apply(s, p, qe, true); vh::cur("noisy mode %d e=%g dark=%g rn=%g fwc=%g gain=%g bias=%g bits=%d", mode, e, dark, p.rn, p.fwc, p.gain, p.bias, p.bits);
    T pw = power_for(e, qe, p.dt); fb.received_power().fill(pw); s.readout(fb, units::Second(p.dt)); vh::ev((std::uint64_t)n); vh::distinct(vh::hash(e, dark, p.rn, p.gain));
    for (size_t c = 0; c < outs<T>(); ++c) {
        D E = electrons(pw, qe, p.dt, c) + dark, m = 0, v = 0, lag = 0; std::vector<D> z((size_t)n);
        for (int i = 0; i < n; ++i) { D o = out(fb, i % w, i / w, c); VH_CHECK(o >= 0 && o <= 1, "range", "response %g", o); z[(size_t)i] = o * dnmax; m += z[(size_t)i]; }
        m /= n; for (int i = 0; i < n; ++i) { v += (z[(size_t)i] - m) * (z[(size_t)i] - m); if (i) lag += (z[(size_t)i] - m) * (z[(size_t)i - 1] - m); } v /= n - 1;
        if (mode == 1) { D sat = std::min(p.fwc / p.gain + p.bias, dnmax); VH_CHECK(m <= sat * (1 + 1e-5) + 1e-9, "saturation", "mean %.6g DN above saturation %.6g", m, sat); if (E - 9 * std::sqrt(E + p.rn * p.rn) > p.fwc) VH_CHECK(std::fabs(m / sat - 1) < 2e-5, "saturation", "saturated pixels read %.6g DN, not %.6g", m, sat); vh::count("saturated"); continue; }
        if (clipped) { vh::count("clipped"); continue; }
        D em = E / p.gain + p.bias, ev = (E + p.rn * p.rn) / p.gain / p.gain, se = std::sqrt(ev / n);
        VH_CHECK(std::fabs(m - em) <= 6 * se + 2e-5 * em + 1e-9, "noise-mean", "%g+%g electrons, gain %g, bias %g: mean %.6g DN, expected %.6g +- %.2g", E - dark, dark, p.gain, p.bias, m, em, se);
        VH_CHECK(std::fabs(v - ev) < 6 * ev * std::sqrt(2. / n) + 1e-7 * em * em + 1e-12, "noise-variance", "%g electrons, read noise %g, gain %g: variance %.6g DN^2, expected %.6g", E, p.rn, p.gain, v, ev);
        if (ev > 1e-7 * em * em) VH_CHECK(std::fabs(lag / (n - 1) / v) < 6 / std::sqrt((D)n), "noise-correlated", "neighbouring pixels correlate by %.3g", lag / (n - 1) / v);
        vh::count("noise-statistics"); if (mode == 0) vh::count("dark-frame"); if (p.rn == 0) vh::count("no-read-noise");
        if (c && ev > 1e-7 * em * em) { D cc = 0, m0 = 0, v0 = 0; std::vector<D> a((size_t)n); for (int i = 0; i < n; ++i) { a[(size_t)i] = out(fb, i % w, i / w, 0) * dnmax; m0 += a[(size_t)i]; } m0 /= n; for (int i = 0; i < n; ++i) { cc += (a[(size_t)i] - m0) * (z[(size_t)i] - m); v0 += (a[(size_t)i] - m0) * (a[(size_t)i] - m0); } if (v0 > 0) VH_CHECK(std::fabs(cc / std::sqrt(v0 * v * (n - 1))) < 6 / std::sqrt((D)n), "noise-correlated", "channels correlate by %.3g", cc / std::sqrt(v0 * v * (n - 1))); }
    }
    // a second exposure of the same scene has fresh noise
    if (!clipped && mode != 1 && sig / p.gain > 1e-3 * (p.bias + tot / p.gain)) { std::vector<D> a((size_t)n); for (int i = 0; i < n; ++i) a[(size_t)i] = out(fb, i % w, i / w, 0); s.readout(fb, units::Second(p.dt)); int same = 0; for (int i = 0; i < n; ++i) same += a[(size_t)i] == out(fb, i % w, i / w, 0); VH_CHECK(same < n / 10, "noise-frozen", "%d of %d pixels identical in two exposures", same, n); vh::count("second-exposure"); }
}
// extreme but accepted settings must not give NaN
template <class T> static void hostile_case()
{
    int w = 4, h = 3; auto fb = buffer<T>(w, h); Sen<T> s; Par p = draw(); if (R.chance(.5)) p.rn = 0; if (R.chance(.5)) p.dc = 0; if (R.chance(.2)) p.dt = 0; apply(s, p, draw_qe<T>(), true);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { T v; for (size_t b = 0; b < T::size(); ++b) { static const float e[] = {0.f, -1e-24f, -1e-18f, 1e-30f, 1e-10f, 1.f, 1e-19f, -0.f}; v[b] = e[R.below(8)]; } fb.received_power()(x, y) = v; }
    vh::cur("hostile rn=%g dc=%g dt=%g", p.rn, p.dc, p.dt); s.readout(fb, units::Second(p.dt)); vh::ev();
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (size_t c = 0; c < outs<T>(); ++c) { D o = out(fb, x, y, c); VH_CHECK(o >= 0 && o <= 1, "range", "response %g for a hostile irradiance", o); }
    vh::count("hostile");
}
template <class T> static void validation()
{
    const float inf = INFINITY, nan = NAN; Sen<T> s; auto snap = [&] { return vh::hash(s.full_well_capacity(), s.read_noise(), s.dark_current(), s.bias_level_dn(), s.bit_depth(), s.gain_adu(), s.unity_db(), s.pixel_pitch().x, s.pixel_pitch().y, s.resolution().x, s.resolution().y); };
    std::uint64_t h0 = snap(); auto bad = [&](const char* what, auto f) { vh::ev(); VH_CHECK(vh::throws(f), "accepts-invalid", "%s accepted", what); VH_CHECK(snap() == h0, "rejected-changed", "%s: rejected but changed the sensor", what); };
    for (float v : {0.f, -1.f, inf, -inf, nan}) { bad("full well", [&] { s.set_full_well_capacity(v); }); bad("gain", [&] { s.set_gain_adu(v); }); }
    for (float v : {-1e-6f, -1.f, inf, -inf, nan}) { bad("read noise", [&] { s.set_read_noise(v); }); bad("dark current", [&] { s.set_dark_current(v); }); bad("bias", [&] { s.set_bias_level_dn(v); }); }
    for (float v : {inf, -inf, nan}) { bad("unity dB", [&] { s.set_unity_db(v); }); bad("gain dB", [&] { s.set_gain_db(v); }); }
    for (float v : {1e4f, -1e4f, 3e38f, -3e38f}) bad("unrepresentable gain in dB", [&] { s.set_gain_db(v); });
    for (int v : {0, -1, -2147483647}) bad("bit depth", [&] { s.set_bit_depth(v); });
    for (double v : {0., -1., (double)inf}) { bad("pitch x", [&] { s.set_pixel_pitch(units::Micrometer(v), units::Micrometer(1)); }); bad("pitch y", [&] { s.set_pixel_pitch(units::Micrometer(1), units::Micrometer(v)); }); bad("size", [&] { s.set_sensor_size(units::Millimeter(1), units::Millimeter(v)); }); }
    bad("resolution", [&] { s.set_resolution(Resolution{-1, 4}); }); bad("resolution", [&] { s.set_resolution(Resolution{4, -1}); });
    for (float v : {-.01f, 1.01f, inf, nan}) for (size_t b = 0; b < T::size(); b += 2) { T q{.5f}; q[b] = v; bad("quantum efficiency", [&] { s.set_quantum_efficiency(q); }); }
    // the constructor takes the same rules
    auto cbad = [&](const char* what, auto f) { vh::ev(); VH_CHECK(vh::throws([&] { SimpleSensorConfig<T> c; f(c); Sen<T> t(c); }), "constructor-accepts-invalid", "constructor accepts %s", what); };
    VH_CHECK(!vh::throws([&] { Sen<T> t(SimpleSensorConfig<T>{}); }), "constructor", "default configuration rejected");
    cbad("negative resolution", [&](auto& c) { c.resolution = Resolution{-1, 1}; }); cbad("zero pitch", [&](auto& c) { c.pitch_x = units::Micrometer(0); }); cbad("infinite pitch", [&](auto& c) { c.pitch_y = units::Micrometer(inf); });
    cbad("negative well", [&](auto& c) { c.full_well_capacity = -1; }); cbad("zero gain", [&](auto& c) { c.gain = 0; }); cbad("NaN read noise", [&](auto& c) { c.read_noise = nan; }); cbad("negative dark current", [&](auto& c) { c.dark_current = -1; }); cbad("negative bias", [&](auto& c) { c.bias_level_dn = -1; }); cbad("zero bits", [&](auto& c) { c.bit_depth = 0; }); cbad("quantum efficiency 2", [&](auto& c) { c.quantum_efficiency = T{2.f}; }); cbad("NaN unity dB", [&](auto& c) { c.unity_db = nan; });
    { SimpleSensorConfig<T> c; c.resolution = Resolution{7, 5}; c.pitch_x = units::Micrometer(3); c.pitch_y = units::Micrometer(4); c.gain = 2.5f; c.bit_depth = 10; c.read_noise = 3; c.dark_current = 2; c.bias_level_dn = 33; c.full_well_capacity = 777; c.unity_db = 3; Sen<T> t(c); VH_CHECK(t.resolution().x == 7 && t.resolution().y == 5 && vh::near(t.pixel_pitch().x, 3e-6, 1e-6) && vh::near(t.pixel_pitch().y, 4e-6, 1e-6) && t.gain_adu() == 2.5f && t.bit_depth() == 10 && t.read_noise() == 3 && t.dark_current() == 2 && t.bias_level_dn() == 33 && t.full_well_capacity() == 777 && t.unity_db() == 3, "constructor", "configuration not kept"); }
    for (int i = 0; i < 200; ++i) { // dB: +20 dB is ten times fewer electrons per count; round trip
        float u = (float)R.u(-40, 40), g = (float)R.lu(1e-3, 1e3), db = (float)R.u(-90, 90); s.set_unity_db(u); s.set_gain_adu(g); vh::ev(); vh::distinct(vh::hash(u, g, db));
        VH_CHECK(std::fabs(s.gain_db() - (u - 20 * std::log10((D)g))) < 2e-4, "gain-db", "gain %g e-/DN with unity %g dB is %g dB, expected %g", g, u, s.gain_db(), u - 20 * std::log10((D)g));
        s.set_gain_db(db); VH_CHECK(vh::near(s.gain_adu(), std::pow(10., ((D)u - db) / 20), 2e-5), "gain-db", "%g dB (unity %g) is %g e-/DN", db, u, s.gain_adu()); VH_CHECK(std::fabs(s.gain_db() - db) < 1e-3, "gain-db", "set %g dB, reads %g dB", db, s.gain_db()); VH_CHECK(s.unity_db() == u, "gain-db", "unity changed");
        D px = R.lu(1e-6, 1e-4), py = R.lu(1e-6, 1e-4); int rx = R.i(1, 5000), ry = R.i(1, 5000); s.set_resolution(Resolution{rx, ry}); s.set_pixel_pitch(units::Meter(px), units::Meter(py)); VH_CHECK(vh::near(s.sensor_size().x, px * rx, 2e-6) && vh::near(s.sensor_size().y, py * ry, 2e-6), "size", "sensor size %g x %g", s.sensor_size().x, s.sensor_size().y);
        D W = R.lu(1e-3, .1), H = R.lu(1e-3, .1); s.set_sensor_size(units::Meter(W), units::Meter(H)); VH_CHECK(vh::near(s.pixel_pitch().x, W / rx, 2e-6) && vh::near(s.pixel_pitch().y, H / ry, 2e-6), "size", "pitch %g x %g", s.pixel_pitch().x, s.pixel_pitch().y); }
    vh::count("validation");
}
// default quantum efficiency is a valid ratio, and the camera's read-out is its sensor's
template <class T> static void camera_path()
{
    static thread_local CameraModel<T> c; SimpleSensorConfig<T> g; g.resolution = Resolution{3, 2}; g.simulate_noise = false; g.gain = (float)R.lu(.5, 9); g.bit_depth = R.i(8, 14); T qe = g.quantum_efficiency; VH_CHECK(qe.valid_ratio(), "default-qe", "default quantum efficiency invalid");
    c.template set_sensor<Sen<T>>(g); auto fb = c.make_frame_buffer(); fb.enable_sensor_response(); VH_CHECK(fb.sensor_response().width() == 3 && fb.sensor_response().height() == 2, "camera-readout", "frame buffer size");
    D dt = R.lu(1e-3, 10), e = R.lu(10, 3000), dn = std::pow(2., g.bit_depth) - 1; T pw = power_for(e, qe, dt); fb.received_power().fill(pw); c.readout(fb, units::Second(dt)); vh::ev();
    for (size_t ch = 0; ch < outs<T>(); ++ch) { D ref = std::clamp(std::min(electrons(pw, qe, dt, ch), (D)g.full_well_capacity) / g.gain, 0., dn) / dn; VH_CHECK(std::fabs(out(fb, 2, 1, ch) - ref) < 2e-5 * ref, "camera-readout", "response %g expected %g", out(fb, 2, 1, ch), ref); }
}
// what one process reads out, another reads out: the program's noise sequence is the same on every run
static std::uint64_t sequence()
{
    std::uint64_t h = 1; Sen<RGB> s; auto fb = buffer<RGB>(16, 12); vh::Rng r(vh::seed() + 77);
    for (int k = 0; k < 5; ++k) { fb.received_power().fill(RGB{(float)r.lu(1e-17, 1e-15)}); s.set_gain_adu((float)r.u(.5, 3)); s.readout(fb, units::Second(.1)); for (int i = 0; i < 16 * 12; ++i) for (size_t c = 0; c < 3; ++c) h = vh::hash(h, out(fb, i % 16, i / 16, c)); }
    return h;
}
static void reproducible()
{
    std::uint64_t h[3];
    for (auto& x : h) { int fd[2]; if (pipe(fd)) return; pid_t p = fork(); if (!p) { std::uint64_t v = sequence(); ssize_t n = write(fd[1], &v, 8); _exit(n == 8 ? 0 : 1); } ssize_t n = read(fd[0], &x, 8); int st; waitpid(p, &st, 0); close(fd[0]); close(fd[1]); if (n != 8) x = 0; vh::ev(); }
    VH_CHECK(h[0] && h[0] == h[1] && h[1] == h[2], "not-reproducible", "the same program reads out different noise: %llx %llx %llx", (unsigned long long)h[0], (unsigned long long)h[1], (unsigned long long)h[2]); vh::count("reproducible");
}
static void body()
{
    std::uint64_t sd = vh::seed() * 7177; R = vh::Rng(sd); bool few = getenv("VH_FEW"), thr = getenv("VH_THREADS");
    if (thr) { // several sensors read out at once
        for (int k = 0; k < (int)vh::n(6, 60); ++k) { std::vector<std::thread> t; std::vector<std::uint64_t> hs(4); for (int i = 0; i < 4; ++i) t.emplace_back([&, i, k] { R = vh::Rng(sd + (std::uint64_t)(k * 10 + i)); for (int j = 0; j < 3; ++j) { hostile_case<RGB>(); quiet_case<Visible8>(); } hs[(size_t)i] = sequence(); }); for (auto& x : t) x.join(); vh::ev(4); VH_CHECK(hs[0] && hs[1] && hs[2] && hs[3], "threads", "no result"); vh::count("concurrent-readouts", 4); vh::distinct((std::uint64_t)k); }
        return; }
    reproducible(); // first: needs a fresh generator
    for (int i = 0; i < 3; ++i) { validation<RGB>(); validation<Visible8>(); camera_path<RGB>(); camera_path<Visible8>(); }
    for (long i = 0; i < (few ? vh::n(60, 600) : vh::n(1500, 30000)); ++i) { R = vh::Rng(sd + (std::uint64_t)i); if (i % 3) quiet_case<RGB>(); else quiet_case<Visible8>(); hostile_case<RGB>(); hostile_case<Visible8>(); }
    for (long i = 0; i < (few ? 4 : vh::n(120, 3000)); ++i) { R = vh::Rng(sd + 1000003 + (std::uint64_t)i); if (i % 3) noisy_case<RGB>(); else noisy_case<Visible8>(); }
    vh::sample(vh::fmt("%llu pixels read out", (unsigned long long)vh::st().evals));
}
VH_MAIN(body())
