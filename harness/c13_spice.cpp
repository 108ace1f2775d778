// C13: every SPICE wrapper against a scripted SPICE: units, frames, angular velocity, errors, directories.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/core/time.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace huira;
namespace fs = std::filesystem;
using L = long double;
static vh::Rng R(1);
static cs::M33 rot(const cs::V3& ax, L a) { L n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]), x = ax[0] / n, y = ax[1] / n, z = ax[2] / n, c = std::cos(a), s = std::sin(a), t = 1 - c; return {{{t * x * x + c, t * x * y + s * z, t * x * z - s * y}, {t * x * y - s * z, t * y * y + c, t * y * z + s * x}, {t * x * z + s * y, t * y * z - s * x, t * z * z + c}}}; } // passive: components in a frame turned by +a about ax
static cs::M33 mul(const cs::M33& a, const cs::M33& b) { cs::M33 r{}; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; return r; }
static cs::V3 app(const cs::M33& a, const cs::V3& v) { cs::V3 r{}; for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) r[i] += a[i][k] * v[k]; return r; }
static cs::V3 rv(L s) { return {(L)R.gauss() * s, (L)R.gauss() * s, (L)R.gauss() * s}; }
static L len(const cs::V3& v) { return std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); }
template <class V> static L dist(const V& a, const cs::V3& b, L k) { return std::sqrt(std::pow((L)a.x - b[0] * k, 2) + std::pow((L)a.y - b[1] * k, 2) + std::pow((L)a.z - b[2] * k, 2)); }
static std::string word() { static const char* c = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ -"; std::string s; int n = R.i(1, 30); for (int i = 0; i < n; ++i) s += c[R.below(39)]; return s; }
static std::string what(const std::function<void()>& f) { try { f(); } catch (const std::exception& e) { return std::string("!") + e.what(); } return ""; }
template <class T> static void states()
{
    L eps = std::numeric_limits<T>::epsilon(); std::string tg = word(), fr = word(), ab = R.chance(.5) ? "NONE" : "LT+S", ob = word(); double et = R.u(-9e8, 3e9); cs::State s; s.p = rv((L)R.lu(1e-3, 1e11)); s.v = rv((L)R.lu(1e-6, 1e5)); L lt = (L)R.lu(1e-6, 1e5); bool called = false;
    vh::cur("spkezr %s %s", tg.c_str(), ob.c_str());
    cs::eph = [&](const std::string& t, L e, const std::string& f, const std::string& a, const std::string& o, cs::State& st, L& l) { called = t == tg && (double)e == et && f == fr && a == ab && o == ob; st = s; l = lt; return true; };
    auto [p, v, l] = spice::spkezr<T>(tg, Time::from_et(et), fr, ab, ob); vh::ev(); vh::distinct(vh::hash(et, (double)s.p[0]));
    VH_CHECK(called, "spkezr-arguments", "target, epoch, frame, correction or observer changed on the way to SPICE"); VH_CHECK(dist(p, s.p, 1000) <= 4 * eps * len(s.p) * 1000 && dist(v, s.v, 1000) <= 4 * eps * len(s.v) * 1000, "spkezr", "state (%g %g %g km) arrives as (%g %g %g m)", (double)s.p[0], (double)s.p[1], (double)s.p[2], (double)p.x, (double)p.y, (double)p.z); VH_CHECK(l == (double)lt, "spkezr", "light time %g -> %g", (double)lt, l); vh::count("spkezr");
    std::array<double, 8> e = {R.lu(1e2, 1e6), R.chance(.2) ? 0 : R.chance(.3) ? R.u(1.01, 3) : R.u(0, .95), R.u(0, 3.14), R.u(0, 6.28), R.u(0, 6.28), R.u(-3, 3), R.u(-1e8, 1e8), R.lu(1e2, 1e6)}; double raw[6]; conics_c(e.data(), et, raw); auto [cp, cv] = spice::conics<T>(e, Time::from_et(et)); vh::ev();
    VH_CHECK(dist(cp, cs::V3{raw[0], raw[1], raw[2]}, 1000) <= 4 * eps * len(cs::V3{raw[0], raw[1], raw[2]}) * 1000 && dist(cv, cs::V3{raw[3], raw[4], raw[5]}, 1000) <= 4 * eps * len(cs::V3{raw[3], raw[4], raw[5]}) * 1000, "conics", "conic state not in metres");
}
template <class T> static void frames()
{
    L eps = std::numeric_limits<T>::epsilon(); std::string a = word(), b = word(); double et = R.u(-9e8, 3e9); cs::V3 ax = rv(1), sp = rv(1); L ang = R.u(-3.14, 3.14), rate = (L)R.lu(1e-9, 10) * (R.chance(.3) ? 0 : 1); cs::M33 base = rot(ax, ang); if (R.chance(.1)) base = rot({0, 0, 1}, 0); bool ok = false; L h = 0;
    // TO spins about sp (in FROM axes) at `rate`: R(t) = base * rot(sp, rate (t - et)); w is along sp
    cs::att = [&](const std::string& f, const std::string& t, L e, cs::Attitude& o) { ok = f == a && t == b && (double)e == et; o.r = mul(base, rot(sp, rate * (e - (L)et + h))); for (size_t i = 0; i < 3; ++i) o.w[i] = sp[i] / len(sp) * rate; return true; };
    vh::cur("frame %s -> %s rate %g", a.c_str(), b.c_str(), (double)rate); auto chk = [&](const Rotation<T>& r, const cs::M33& m, const char* who) { for (int k = 0; k < 3; ++k) { cs::V3 v = rv(1), w = app(m, v); Vec3<T> in{(T)v[0], (T)v[1], (T)v[2]}, out = r.inverse() * in, back = r * Vec3<T>{(T)w[0], (T)w[1], (T)w[2]}; vh::ev(); VH_CHECK(dist(out, w, 1) < 30 * eps * len(v) && dist(back, v, 1) < 30 * eps * len(v), who, "vector maps to (%g %g %g), SPICE's matrix gives (%g %g %g)", (double)out.x, (double)out.y, (double)out.z, (double)w[0], (double)w[1], (double)w[2]); } };
    auto r = spice::pxform<T>(a, b, Time::from_et(et)); VH_CHECK(ok, "frame-arguments", "frames or epoch changed on the way to SPICE"); chk(r, base, "pxform"); ok = false;
    auto [r2, w] = spice::sxform<T>(a, b, Time::from_et(et)); VH_CHECK(ok, "frame-arguments", "frames or epoch changed on the way to SPICE"); chk(r2, base, "sxform"); vh::distinct(vh::hash(et, (double)ang, (double)rate));
    cs::V3 W; for (size_t i = 0; i < 3; ++i) W[i] = sp[i] / len(sp) * rate; VH_CHECK(dist(w, W, 1) <= 60 * eps * std::fabs(rate), "angular-velocity", "angular velocity (%g %g %g), the target frame turns at (%g %g %g) in source axes", (double)w.x, (double)w.y, (double)w.z, (double)W[0], (double)W[1], (double)W[2]);
    if (rate > 0 && sizeof(T) == 8) { // and it is the derivative of the attitude: a vector fixed in TO moves at w x v in FROM
        L dt = 1e-4L / rate; h = dt; auto rp = spice::pxform<T>(a, b, Time::from_et(et)); h = -dt; auto rm = spice::pxform<T>(a, b, Time::from_et(et)); cs::V3 q = rv(1); Vec3<T> Q{(T)q[0], (T)q[1], (T)q[2]}; auto d = (rp * Q - rm * Q) / (T)(2 * dt); auto x = glm::cross(w, r * Q); VH_CHECK(glm::length(d - x) < 1e-6 * (double)(rate * len(q)), "angular-velocity", "attitude moves at (%g %g %g), w x v = (%g %g %g)", (double)d.x, (double)d.y, (double)d.z, (double)x.x, (double)x.y, (double)x.z); vh::count("attitude-rate"); }
    vh::count("frames");
}
// random histories of failing and succeeding calls, with the error flag sometimes left raised by other code
static void history()
{
    int n = R.i(2, 12); bool fails = false; std::string lm;
    cs::eph = [&](auto&, L, auto&, auto&, auto&, cs::State& s, L& lt) { if (fails) { cs::err("SPICE(SCRIPTED)", lm); return false; } s = {}; s.p[0] = 7; lt = 1; return true; };
    cs::att = [&](auto&, auto&, L, cs::Attitude& o) { if (fails) { cs::err("SPICE(SCRIPTED)", lm); return false; } o = {}; o.r = rot({0, 0, 1}, .25); return true; };
    for (int i = 0; i < n; ++i) {
        int k = R.i(0, 8); fails = R.chance(.5); lm = R.chance(.1) ? "" : R.chance(.1) ? std::string(1840, 'm') : word() + vh::fmt("%d", R.i(0, 1 << 30)); bool stale = R.chance(.3); std::string want[2] = {"SPICE(SCRIPTED)", lm}; Time t = Time::from_et(R.u(-1e9, 1e9)); std::string a = word();
        if (stale) { spice::call_spice(failed_c); cs::failed = true; cs::shortm = "SPICE(STALE)"; cs::longm = "left by someone else"; }
        vh::cur("history step %d kind %d fails %d stale %d", i, k, fails, stale); std::string got;
        switch (k) {
        case 0: got = what([&] { auto [p, v, l] = spice::spkezr<double>(a, t, "F", "NONE", "O"); if (p.x != 7000) throw 1; }); break;
        case 1: got = what([&] { spice::pxform<double>(a, "B", t); }); break;
        case 2: got = what([&] { spice::sxform<float>(a, "B", t); }); break;
        case 3: got = what([&] { spice::conics<double>({fails ? -1. : 100., .1, .1, .1, .1, .1, 0, 1e5}, t); }); want[0] = "SPICE(BADPERIAPSEVALUE)"; want[1] = "rp"; break;
        case 4: got = what([&] { spice::str2et(fails ? "not a time " + a : "2020-01-01"); }); want[0] = "SPICE(UNPARSEDTIME)"; want[1] = a; break;
        case 5: got = what([&] { spice::deltet(1., fails ? "NOPE" + a : "ET"); }); want[0] = "SPICE(INVALIDEPOCH)"; want[1] = "NOPE" + a; break;
        case 6: got = what([&] { spice::unitim(1., "TDB", fails ? "NOPE" + a : "TAI"); }); want[0] = "SPICE(BADTIMETYPE)"; want[1] = "NOPE" + a; break;
        case 7: got = what([&] { spice::unitim(1., fails ? "NOPE" + a : "TAI", "TDB"); }); want[0] = "SPICE(BADTIMETYPE)"; want[1] = "NOPE" + a; break;
        default: got = what([&] { if (fails) spice::furnsh("/nonexistent/" + std::to_string(i) + ".bsp"); else spice::timout(0, "YYYY ::UTC", 64); }); want[0] = "SPICE(NOSUCHFILE)"; want[1] = "/nonexistent/"; break; }
        vh::ev(); VH_CHECK(!cs::failed, "error-flag-left", "the SPICE error flag is still raised after wrapper %d (failing: %d)", k, fails);
        if (fails) { VH_CHECK(!got.empty(), "error-swallowed", "wrapper %d returned although SPICE failed", k); VH_CHECK(got.empty() || (got.find(want[0]) != std::string::npos && got.find(want[1]) != std::string::npos), "error-message", "wrapper %d: exception \"%s\" lacks \"%s\" / \"%s\"", k, got.c_str(), want[0].c_str(), want[1].c_str()); VH_CHECK(got.find("STALE") == std::string::npos, "error-message", "stale error reported"); vh::count("failing-call"); }
        else { VH_CHECK(got.empty(), "spurious-error", "wrapper %d threw \"%s\" although SPICE succeeded", k, got.c_str()); vh::count(stale ? "success-after-stale" : "success"); }
        vh::distinct(vh::hash(k, fails, stale, i, (int)(R.s & 0xff)));
    }
}
static void write(const fs::path& p, const std::string& s) { std::ofstream(p) << s; }
static void directories()
{
    fs::path root = vh::scratch("kernels"); fs::path start = fs::current_path(); fs::path dir = root / (R.chance(.3) ? "with space" : "k") / "mk"; fs::create_directories(dir / "sub"); write(dir / "a.bsp", "DAF"); write(dir / "sub" / "b.bsp", "DAF");
    write(dir / "good.tm", "KPL/MK\n\\begindata\nKERNELS_TO_LOAD = ( 'a.bsp',\n 'sub/b.bsp' )\n\\begintext\n"); write(dir / "bad.tm", "KPL/MK\n\\begindata\nKERNELS_TO_LOAD = ( 'a.bsp', 'missing.bsp' )\n\\begintext\n");
    bool rel = R.chance(.5); if (rel) fs::current_path(root); fs::path cwd = fs::current_path(), base = rel ? fs::relative(dir, root) : dir; auto here = [&](const char* w) { vh::ev(); VH_CHECK(fs::current_path() == cwd, "directory", "%s: working directory is now %s", w, fs::current_path().c_str()); if (fs::current_path() != cwd) fs::current_path(cwd); };
    vh::cur("kernel directories"); cs::loaded.clear(); auto e = what([&] { spice::furnsh_relative_to_file(base / "good.tm"); }); here("loading a meta-kernel"); VH_CHECK(e.empty() && cs::loaded.size() == 3 && cs::loaded[1] == "a.bsp" && cs::loaded[2] == "sub/b.bsp", "relative-kernel", "meta-kernel with relative paths: %s, %zu files", e.c_str(), cs::loaded.size());
    e = what([&] { spice::furnsh_relative_to_file(base / "bad.tm"); }); here("a meta-kernel naming a missing file"); VH_CHECK(e.find("NOSUCHFILE") != std::string::npos && !cs::failed, "relative-kernel-error", "missing kernel reported as \"%s\"", e.c_str());
    e = what([&] { spice::furnsh_relative_to_file(base / "none.tm"); }); here("a missing meta-kernel"); VH_CHECK(!e.empty() && !cs::failed, "relative-kernel-error", "missing meta-kernel accepted");
    e = what([&] { spice::furnsh_relative_to_file(root / "nodir" / "x.tm"); }); here("a missing directory"); VH_CHECK(!e.empty() && !cs::failed, "relative-kernel-error", "missing directory accepted");
    fs::current_path(dir); cs::loaded.clear(); e = what([&] { spice::furnsh_relative_to_file("good.tm"); }); VH_CHECK(e.empty() && cs::loaded.size() == 3 && fs::current_path() == fs::canonical(dir), "relative-kernel", "file in the working directory: %s", e.c_str()); fs::current_path(cwd);
    cs::loaded.clear(); e = what([&] { spice::furnsh(dir / "a.bsp"); }); here("furnsh"); VH_CHECK(e.empty() && cs::loaded.size() == 1 && cs::loaded[0] == (dir / "a.bsp").string(), "furnsh", "loaded %s", e.c_str());
    fs::current_path(start); fs::remove_all(root); vh::count("directories");
}
static int child(const std::function<int()>& f) { std::fflush(nullptr); pid_t p = fork(); if (!p) { int r = 98; try { r = f(); } catch (...) { r = 99; } _exit(r); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st); }
static void first_calls() // the very first SPICE call of a process fails: it must throw, not abort
{
    Time t = Time::from_et(1); std::vector<std::function<void()>> f = {[&] { spice::spkezr<double>("A", t, "B", "NONE", "C"); }, [&] { spice::spkezr<float>("A", t, "B", "NONE", "C"); }, [&] { spice::pxform<double>("A", "B", t); }, [&] { spice::sxform<double>("A", "B", t); }, [&] { spice::sxform<float>("A", "B", t); }, [&] { spice::conics<double>({-1, 0, 0, 0, 0, 0, 0, 1}, t); }, [&] { spice::furnsh("/nonexistent/x"); }, [&] { spice::furnsh_relative_to_file("/tmp/none.tm"); }, [&] { spice::str2et("nonsense"); }, [&] { spice::deltet(0, "X"); }, [&] { spice::unitim(0, "X", "Y"); }};
    cs::eph = nullptr; cs::att = nullptr;
    for (size_t i = 0; i < f.size(); ++i) for (int reset = 0; reset < 2; ++reset) { vh::cur("first call %zu", i); int r = child([&] { if (reset) cs::action = "ABORT"; bool th = vh::throws(f[i]); return th && !cs::failed ? 0 : 1; }); vh::ev(); VH_CHECK(r == 0, "first-call", "wrapper %zu as the first SPICE call: status %d", i, r); vh::count("first-call"); }
}
// each time function, as the first SPICE call of a process, finds the default leap seconds by itself; a missing file
// is reported, and the call works once the file is there
static void first_time_calls()
{
    std::vector<std::pair<const char*, std::function<void()>>> f = {
        {"str2et", [] { double e = spice::str2et("2017-01-01T12:00:00"); if (std::fabs(e - 6210. * 86400 - 69.184) > .01) throw std::runtime_error(vh::fmt("et %.17g", e)); }},
        {"deltet", [] { double d = spice::deltet(5.4e8, "ET"); if (std::fabs(d - 69.184) > .01) throw std::runtime_error(vh::fmt("delta %.17g", d)); }},
        {"unitim", [] { double d = spice::unitim(5.4e8, "TAI", "TDT"); if (std::fabs(d - 5.4e8 - 32.184) > 1e-3) throw std::runtime_error(vh::fmt("unitim %.17g", d)); }},
        {"timout", [] { auto t = spice::timout(0, "YYYY-MM-DD ::TDB", 64); if (t != "2000-01-01") throw std::runtime_error(t); }}};
    fs::path empty = vh::scratch("nodata"), moved = vh::scratch("moved"); fs::create_directories(empty); fs::create_directories(moved / "kernels" / "lsk");
    bool have = fs::exists(spice::get_default_lsk_path()); if (have) fs::copy_file(spice::get_default_lsk_path(), moved / "kernels" / "lsk" / "naif0012.tls", fs::copy_options::overwrite_existing);
    for (auto& [n, fn] : f) for (int k = 0; k < 4; ++k) {
        vh::cur("first time call %s %d", n, k); auto& g = fn;
        int r = child([&] { if (k & 1) cs::action = "ABORT"; if (k >= 2) { set_data_dir(empty); if (!vh::throws(g) || cs::failed) return 2; set_data_dir(moved); } auto e = what(g); if (!e.empty()) { std::fprintf(stderr, "%s\n", e.c_str()); return 3; } return cs::loaded.size() == 1 && !cs::failed ? 0 : 4; });
        vh::ev(); if (have) VH_CHECK(r == 0, "first-time-call", "%s as the first SPICE call of a process (%s): %s", n, k >= 2 ? "leap seconds missing at first" : "leap seconds in place", r == 2 ? "missing leap seconds not reported" : r == 3 ? "fails" : r == 4 ? "leap seconds loaded more than once" : "aborts");
    }
    vh::count("first-time-calls", 16);
}
static void body()
{
    first_calls(); first_time_calls(); spice::ensure_lsk_loaded(); { size_t n = cs::loaded.size(); auto e = what([] { spice::load_default_pck(); }); bool have = fs::exists(spice::get_default_pck_path()); VH_CHECK(have ? e.empty() && cs::loaded.size() == n + 1 : !e.empty(), "default-pck", "default PCK: %s", e.c_str()); }
    { std::string s = spice::timout(0, "YYYY-MM-DD ::TDB", 5); VH_CHECK(s == "2000", "timout-length", "five characters give \"%s\"", s.c_str()); VH_CHECK(spice::timout(0, "YYYY ::TDB", 200) == "2000", "timout-length", "padding kept"); }
    std::uint64_t sd = vh::seed() * 5333;
    for (long i = 0; i < vh::n(20000, 400000); ++i) { R = vh::Rng(sd + (std::uint64_t)i); states<double>(); states<float>(); frames<double>(); frames<float>(); }
    for (long i = 0; i < vh::n(2500, 40000); ++i) { R = vh::Rng(sd + 3000001 + (std::uint64_t)i); history(); }
    for (long i = 0; i < vh::n(60, 600); ++i) { R = vh::Rng(sd + 6000001 + (std::uint64_t)i); directories(); }
    VH_CHECK(cs::aborts == 0, "abort", "SPICE aborted"); vh::sample(vh::fmt("%ld SPICE calls", cs::calls));
}
VH_MAIN(body())
