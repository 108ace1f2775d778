// C12: times and intervals against an independent long-double model of UTC/TAI/TT/TDB.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/core/time.hpp"
#include "huira/core/interval.hpp"
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace huira;
using L = long double;
static vh::Rng R(1);
struct Leap { int y, m; int dat; };
static const Leap LEAPS[] = {{1972, 1, 10}, {1972, 7, 11}, {1973, 1, 12}, {1974, 1, 13}, {1975, 1, 14}, {1976, 1, 15}, {1977, 1, 16}, {1978, 1, 17}, {1979, 1, 18}, {1980, 1, 19}, {1981, 7, 20}, {1982, 7, 21}, {1983, 7, 22}, {1985, 7, 23}, {1988, 1, 24}, {1990, 1, 25}, {1991, 1, 26}, {1992, 7, 27}, {1993, 7, 28}, {1994, 7, 29}, {1996, 1, 30}, {1997, 7, 31}, {1999, 1, 32}, {2006, 1, 33}, {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
// Fliegel & Van Flandern
static long jdn(int y, int m, int d) { return 367L * y - 7L * (y + (m + 9) / 12) / 4 - 3L * ((y + (m - 9) / 7) / 100 + 1) / 4 + 275L * m / 9 + d + 1721029L; }
static L day0(int y, int m, int d) { return ((L)jdn(y, m, d) - 2451545) * 86400 - 43200; } // 0h, seconds past J2000 on a uniform 86400 s day count
struct Cal { int y, m, d, h, mi; L s; int dat() const { int v = 10; for (auto& l : LEAPS) if (y > l.y || (y == l.y && m >= l.m)) v = l.dat; return v; } L utc() const { return day0(y, m, d) + h * 3600 + mi * 60 + s; } L tai() const { return utc() + dat(); } L tt() const { return tai() + 32.184L; } };
static L period(L tt) { L M = 6.239996L + 1.99096871e-7L * tt; return 1.657e-3L * std::sin(M + 1.671e-2L * std::sin(M)); }
static L tdb(L tt) { return tt + period(tt); }
static int mdays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : d[m - 1]; }
static Cal draw()
{
    Cal c; c.y = R.i(1972, 2100); c.m = R.i(1, 12); c.d = R.i(1, mdays(c.y, c.m)); c.h = R.i(0, 23); c.mi = R.i(0, 59); c.s = (L)R.i(0, 59999) / 1000;
    if (R.chance(.3)) { const Leap& l = LEAPS[R.below(sizeof LEAPS / sizeof *LEAPS)]; bool after = R.chance(.5) || l.y == 1972; if (after) { c.y = l.y; c.m = l.m; c.d = 1; c.h = c.mi = 0; } else { c.y = l.m == 1 ? l.y - 1 : l.y; c.m = l.m == 1 ? 12 : l.m - 1; c.d = mdays(c.y, c.m); c.h = 23; c.mi = 59; } }
    if (R.chance(.2)) c.s = R.chance(.5) ? 0 : 59.999L;
    return c;
}
static std::string str(const Cal& c, int style)
{
    static const char* M[] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}; int ms = (int)std::llround(c.s * 1000), doy = (int)(jdn(c.y, c.m, c.d) - jdn(c.y, 1, 1)) + 1;
    if (style == 0) return vh::fmt("%04d-%02d-%02dT%02d:%02d:%02d.%03d", c.y, c.m, c.d, c.h, c.mi, ms / 1000, ms % 1000);
    if (style == 1) return vh::fmt("%04d-%02d-%02d %02d:%02d:%02d.%03d UTC", c.y, c.m, c.d, c.h, c.mi, ms / 1000, ms % 1000);
    if (style == 2) return vh::fmt("%04d %s %02d %02d:%02d:%02d.%03d", c.y, M[c.m - 1], c.d, c.h, c.mi, ms / 1000, ms % 1000);
    return vh::fmt("%04d-%03dT%02d:%02d:%02d.%03dZ", c.y, doy, c.h, c.mi, ms / 1000, ms % 1000);
}
static const TimeScale SC[] = {TimeScale::UTC, TimeScale::TAI, TimeScale::TT, TimeScale::TDB};
static const char* SN[] = {"UTC", "TAI", "TT", "TDB"};
static L scale(const Cal& c, int k) { return k == 0 ? c.utc() : k == 1 ? c.tai() : k == 2 ? c.tt() : tdb(c.tt()); }
static void one()
{
    Cal c = draw(); L ref[4]; for (int k = 0; k < 4; ++k) ref[k] = scale(c, k); L et = ref[3];
    vh::cur("%s", str(c, 0).c_str()); vh::distinct(vh::hash((double)et));
    Time t = Time(str(c, R.i(0, 3))); vh::ev(); VH_CHECK(std::fabs(t.et() - (double)et) < 2e-6, "string", "%s -> ET %.7f, expected %.7f", str(c, 0).c_str(), t.et(), (double)et);
    VH_CHECK(t.et() == t.ephemeris_time() && Time::from_et(t.et()) == t && Time::from_ephemeris_time(t.et()) == t, "et", "ephemeris time accessors disagree");
    double jdres = 86400 * std::ldexp(1., -30); // spacing of doubles near a Julian date, in seconds
    for (int k = 0; k < 4; ++k) {
        double jd = (double)(2451545 + ref[k] / 86400), got = t.to_julian_date(SC[k]); vh::ev(3);
        bool edge = k == 0 && c.h == 0 && c.mi == 0 && c.s < .001L; // a rounding either side of a leap second
        if (!edge) VH_CHECK(std::fabs((got - jd) * 86400) < 1.1 * jdres, "julian-date", "%s: JD(%s) %.10f, expected %.10f", str(c, 0).c_str(), SN[k], got, jd);
        else VH_CHECK(std::fabs((got - jd) * 86400) < 1.001, "julian-date", "%s: JD(%s) %.10f, expected %.10f", str(c, 0).c_str(), SN[k], got, jd);
        double mjd = (double)(2451545 - 2400000.5L + ref[k] / 86400), gm = t.to_modified_julian_date(SC[k]); if (!edge) VH_CHECK(std::fabs((gm - mjd) * 86400) < 1.6 * jdres, "modified-julian-date", "%s: MJD(%s) %.10f, expected %.10f", str(c, 0).c_str(), SN[k], gm, mjd);
        double jy = t.julian_years_since_j2000(SC[k]), ry = (double)(ref[k] / (365.25L * 86400)); if (!edge) VH_CHECK(std::fabs(jy - ry) < 1e-13 * 200 + 3e-7 / 3e7, "julian-years", "%s: %.13f years(%s), expected %.13f", str(c, 0).c_str(), jy, SN[k], ry);
        // from a date in this scale, out in every scale
        Time u = Time::from_julian_date(jd, SC[k]); bool near = c.h == 0 && c.mi == 0 && c.s < .001L; near = near || (c.h == 23 && c.mi == 59 && c.s > 59.99L);
        if (!near) { VH_CHECK(std::fabs(u.et() - (double)et) < 1.1 * jdres, "from-julian-date", "JD %.10f %s -> ET %.6f, expected %.6f", jd, SN[k], u.et(), (double)et);
            for (int q = 0; q < 4; ++q) VH_CHECK(std::fabs((u.to_julian_date(SC[q]) - (double)(2451545 + ref[q] / 86400)) * 86400) < 2.1 * jdres, "cross-scale", "JD %.10f %s -> %s %.10f, expected %.10f", jd, SN[k], SN[q], u.to_julian_date(SC[q]), (double)(2451545 + ref[q] / 86400)); }
        Time w = Time::from_modified_julian_date(mjd, SC[k]); if (!near) VH_CHECK(std::fabs(w.et() - (double)et) < 1.6 * jdres && std::fabs((w.to_modified_julian_date(SC[k]) - mjd) * 86400) < 2.1 * jdres, "from-modified-julian-date", "MJD %.10f %s -> ET %.6f, expected %.6f", mjd, SN[k], w.et(), (double)et);
        VH_CHECK(std::fabs((u.to_julian_date(SC[k]) - jd) * 86400) < (near && k == 0 ? 1.001 : 1.1 * jdres), "julian-round-trip", "JD %.10f %s comes back as %.10f", jd, SN[k], u.to_julian_date(SC[k])); vh::count(SN[k]);
    }
    // calendar strings
    std::string iso = t.to_iso_8601(), want = str(c, 0) + "Z"; vh::ev(); VH_CHECK(iso == want, "iso", "%s prints as %s", want.c_str(), iso.c_str());
    VH_CHECK(std::fabs(Time(iso).et() - t.et()) < 6e-4, "iso-round-trip", "%s reads back %.6f s away", iso.c_str(), Time(iso).et() - t.et());
    Time m = Time::from_et(t.et() + (R.chance(.5) ? 4e-4 : 2e-4)); std::string def = m.to_utc_string(); VH_CHECK(def.find("UTC") != std::string::npos && std::fabs(Time(def).et() - m.et()) < 1.1e-3, "utc-string", "%s -> %s", want.c_str(), def.c_str());
    int doy = (int)(jdn(c.y, c.m, c.d) - jdn(c.y, 1, 1)) + 1; std::string o = m.to_utc_string("YYYY-DOY HR:MN ::UTC"), o2 = m.to_utc_string("YYYY-DOY HR:MN"), e = vh::fmt("%04d-%03d %02d:%02d", c.y, doy, c.h, c.mi);
    if (c.s < 59.9L) VH_CHECK(o == e && o2 == e, "utc-format", "%s formats as %s / %s", want.c_str(), o.c_str(), o2.c_str());
    // arithmetic and order
    Cal c2 = draw(); double s = R.chance(.3) ? R.u(-1, 1) : R.u(-3e9, 3e9); Time a = t + units::Second(s), b(str(c2, 0)); vh::ev(3);
    VH_CHECK(std::fabs((a - t).to_si() - s) < 1e-6 && std::fabs(a.et() - (t.et() + s)) < 1e-6, "sum", "%.6f + %.6f s", t.et(), s);
    VH_CHECK(std::fabs((b - t).to_si() - (double)(tdb(c2.tt()) - et)) < 4e-6, "difference", "%s - %s = %.7f s, expected %.7f", str(c2, 0).c_str(), want.c_str(), (b - t).to_si(), (double)(tdb(c2.tt()) - et));
    L d = tdb(c2.tt()) - et; int lt = t < b, gt = t > b, eq = t == b; VH_CHECK(lt + gt + eq == 1 && (t <= b) == (lt || eq) && (t >= b) == (gt || eq) && (t != b) == !eq && (b < t) == (bool)gt, "order", "comparison operators disagree"); if (std::fabs(d) > 1e-3) VH_CHECK(lt == (d > 0), "order", "%s vs %s", want.c_str(), str(c2, 0).c_str());
    if (c.dat() != 10) vh::count("after-1972");
}
static void interval(std::size_t N, double fixed = 0)
{
    double e0 = R.chance(.2) ? R.u(-10, 10) : R.u(-8e8, 3e9), dur = R.chance(.1) ? 0 : R.chance(.3) ? R.lu(1e-4, 10) : R.lu(1, 3e9); if (R.chance(.1)) dur = -dur; if (fixed != 0) dur = fixed; Time t0 = Time::from_et(e0), t1 = Time::from_et(e0 + dur);
    vh::cur("interval start %.6f duration %.6g N=%zu", e0, dur, N); double ulp = std::max({std::nextafter(std::fabs(e0), 1e30) - std::fabs(e0), std::nextafter(std::fabs(e0 + dur), 1e30) - std::fabs(e0 + dur)});
    Interval i = R.chance(.5) ? Interval::from_bounds(t0, t1) : Interval(t0, t1); double d = t1.et() - t0.et(); vh::distinct(vh::hash(e0, dur, N)); vh::ev(2);
    VH_CHECK(i.start == t0 && i.end == t1 && i.duration().to_si() == d && std::fabs(i.center().et() - ((L)e0 + d / 2.)) <= ulp, "interval", "bounds, duration %.9g or centre %.9f of [%.9f,%.9f]", i.duration().to_si(), i.center().et(), t0.et(), t1.et());
    auto s = i.samples(N); VH_CHECK(s.size() == N, "samples-count", "%zu samples for N=%zu", s.size(), N);
    if (N == 1) { VH_CHECK(s[0] == i.center(), "samples-one", "a single sample is not the centre"); return; }
    VH_CHECK(s[0] == t0, "samples-start", "first sample %.9f, start %.9f", s[0].et(), t0.et());
    size_t step = std::max<size_t>(1, N / 4096); for (size_t k = 0; k < N; k += step) { if (k + step >= N) k = N - 1; L ref = (L)t0.et() + (L)d * (L)k / (L)(N - 1); VH_CHECK(std::fabs((double)((L)s[k].et() - ref)) <= 1.5 * ulp + 3e-16 * std::fabs(d), "samples", "sample %zu of %zu over [%.6f,%.6f]: %.9f, expected %.9f", k, N, t0.et(), t1.et(), s[k].et(), (double)ref); vh::ev(); }
    if (d > 0 && d / (double)N > 4 * ulp) for (size_t k = step; k < N; k += step) VH_CHECK(s[k - 1] < s[k], "samples-order", "samples do not advance");
    Interval c = Interval::from_centered(t0, units::Second(dur)), f = Interval::from_start(t0, units::Second(dur)); VH_CHECK(f.start == t0 && std::fabs((f.end - t0).to_si() - dur) <= 2 * ulp, "from-start", "from_start");
    VH_CHECK(std::fabs(c.duration().to_si() - dur) <= 2 * ulp + 1e-9 * 0 && std::fabs((c.center() - t0).to_si()) <= 2 * ulp, "from-centered", "from_centered: duration %.9g for %.9g", c.duration().to_si(), dur); vh::count("interval");
}
// what happens with no leap-second kernel yet, in a process of its own
static int child(const std::function<int()>& f) { std::fflush(nullptr); pid_t p = fork(); if (!p) { int r = 98; try { r = f(); } catch (...) { r = 99; } _exit(r); } int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st); }
static void kernels(const char* repo)
{
    (void)repo; L ref = tdb(Cal{2020, 5, 17, 3, 4, 5.25L}.tt()); auto ok = [&](Time t) { return std::fabs(t.et() - (double)ref) < 1e-5; };
    struct { const char* n; std::function<int()> f; } cs_[] = {
        {"first call is a string", [&] { return ok(Time("2020-05-17T03:04:05.25")) && cs::loaded.size() == 1 ? 0 : 1; }},
        {"first call is UTC JD", [&] { Time t = Time::from_julian_date(2458986.5, TimeScale::UTC); return std::fabs(t.et() - (double)tdb(Cal{2020, 5, 17, 0, 0, 0}.tt())) < 1e-4 && cs::loaded.size() == 1 ? 0 : 1; }},
        {"first call is TAI JD", [&] { Time t = Time::from_julian_date(2458986.5, TimeScale::TAI); return std::fabs(t.et() - (double)tdb((2458986.5L - 2451545) * 86400 + 32.184L)) < 1e-4 ? 0 : 1; }},
        {"first call prints", [&] { return Time::from_et((double)ref).to_iso_8601() == "2020-05-17T03:04:05.250Z" ? 0 : 1; }},
        {"user kernel first", [&] { cs::load((data_dir() / "kernels/lsk/naif0012.tls").string()); size_t n = cs::loaded.size(); return ok(Time("2020-05-17T03:04:05.25")) && cs::loaded.size() == n ? 0 : 1; }},
        {"four threads at once", [&] { int bad = 0; std::mutex m; std::vector<std::thread> t; for (int i = 0; i < 4; ++i) t.emplace_back([&] { spice::ensure_lsk_loaded(); std::lock_guard<std::mutex> g(m); if (!ok(Time("2020-05-17T03:04:05.25"))) ++bad; }); for (auto& x : t) x.join(); return bad || cs::loaded.size() != 1 ? 1 : 0; }},
        {"missing default kernel", [&] { auto good = data_dir(); set_data_dir("/nonexistent-dir"); if (!vh::throws([] { Time t("2020-05-17T03:04:05.25"); })) return 1; if (cs::failed || cs::aborts) return 2; if (!vh::throws([] { Time::from_julian_date(2458986.5, TimeScale::TT); })) return 3; set_data_dir(good); return ok(Time("2020-05-17T03:04:05.25")) ? 0 : 4; }},
        {"TDB needs no kernel", [&] { set_data_dir("/nonexistent-dir"); Time t = Time::from_julian_date(2451545.5, TimeScale::TDB); return t.et() == 43200 && t.to_julian_date() == 2451545.5 && t.to_julian_date(TimeScale::TDB) == 2451545.5 ? 0 : 1; }},
        {"bad strings", [&] { for (const char* s : {"", "yesterday", "2020-13-01", "2020-05-17T25:00:00", "2020-05-40"}) { if (!vh::throws([&] { Time t{std::string(s)}; })) return 1; if (cs::failed) return 2; if (!ok(Time("2020-05-17T03:04:05.25"))) return 3; } return 0; }},
    };
    for (auto& c : cs_) { vh::cur("%s", c.n); int r = child(c.f); vh::ev(); VH_CHECK(r == 0, "leap-second-kernel", "%s: status %d", c.n, r); vh::count("kernel-history"); }
}
static void body()
{
    R = vh::Rng(vh::seed() * 9173); kernels("");
    VH_CHECK(vh::throws([] { Interval(Time::from_et(0), Time::from_et(1)).samples(0); }), "samples-zero", "no samples accepted");
    for (long i = 0; i < vh::n(9000, 300000); ++i) { R = vh::Rng(vh::seed() * 9173 + (std::uint64_t)i); one(); }
    for (long i = 0; i < vh::n(4000, 100000); ++i) { R = vh::Rng(vh::seed() * 9173 + 7000001 + (std::uint64_t)i); interval(R.chance(.1) ? 1 : R.chance(.3) ? 2 : (size_t)R.lu(2, 3000)); }
    for (int i = 0; i < 3; ++i) { interval(1000000 + (size_t)i * 77777); } interval((size_t(1) << 24) + 4, R.u(5e8, 2e9)); interval((size_t(1) << 24) + 2, -R.u(5e8, 2e9));
    vh::sample(vh::fmt("%zu kernels loaded, %ld SPICE calls", cs::loaded.size(), cs::calls));
}
VH_MAIN(body())
