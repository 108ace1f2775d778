// C35: one program of three source files that each include the whole library. That it links is the
// first observation; then random histories through the three files must act on one shared state, and
// path settings and output folders follow a model.
#include "vh.hpp"
#include "c35_tu.hpp"
C35_DEFINE(api_a)
using vh::Rng;
static const Api* U[3] = {&api_a, &api_b, &api_c};
static fs::path EXE;

static std::vector<std::string> tree(const fs::path& d)
{
    std::vector<std::string> r;
    for (auto& e : fs::recursive_directory_iterator(d)) r.push_back((fs::is_directory(e.path()) ? "d " : "f ") + e.path().lexically_relative(d).string());
    std::sort(r.begin(), r.end());
    return r;
}
static std::size_t count_scopes() { return api_c.depth(); }

static void history(Rng& R, long id)
{
    auto any = [&]() -> const Api& { return *U[R.below(3)]; };
    fs::path root = vh::scratch(vh::fmt("h%ld", id));
    fs::create_directories(root);
    std::string want = HUIRA_DEFAULT_DATA_DIR;
    any().reset_data();
    std::vector<std::string> msgs;
    int level = 1;
    any().level(1);
    huira::Logger::set_buffer_size(1); huira::Logger::set_buffer_size(5000);
    huira::Logger::log(huira::LogLevel::Error, "mark");
    std::string script;
    for (int k = 0, n = R.i(5, 60); k < n; ++k) {
        int op = R.i(0, 7);
        vh::ev();
        if (op == 0) {
            const Api& u = any();
            static const std::vector<std::string> parts{"a", "data", "..", ".", "b c", "x.y", "\xc3\xa9"};
            std::string p;
            int m = R.i(0, 4);
            for (int i = 0; i < m; ++i) p += (i ? (R.chance(0.1) ? "//" : "/") : "") + R.pick(parts);
            if (R.chance(0.4)) p = (root / p).string();
            else if (R.chance(0.1)) p = "/" + p;
            if (!p.empty() && R.chance(0.2)) p += "/";
            u.set_data(p);
            fs::path q(p);
            want = q.is_relative() ? fs::weakly_canonical(EXE.parent_path() / q).string() : p;
            script += "set(" + p + ") ";
        } else if (op == 1) { any().reset_data(); want = HUIRA_DEFAULT_DATA_DIR; script += "reset "; }
        else if (op == 2) {
            const Api& u = any();
            std::string got = u.data();
            VH_CHECK(got == want, "data-dir", "after %s the data directory is '%s' instead of '%s'", script.c_str(), got.c_str(), want.c_str());
            std::string l = u.lsk(), e = (fs::path(want) / "kernels" / "lsk" / "naif0012.tls").string();
            VH_CHECK(l == e, "data-lsk", "after %s the leap-second kernel is '%s' instead of '%s'", script.c_str(), l.c_str(), e.c_str());
            vh::distinct(vh::hash(id, k, std::hash<std::string>()(want)));
        } else if (op == 3) { // the default constants come from the present data directory
            fs::path d = root / vh::fmt("d%d", k);
            fs::create_directories(d / "kernels" / "pck");
            std::ofstream(d / "kernels" / "pck" / "pck00011.tpc") << "x";
            any().set_data(d.string()); want = d.string(); script += "set(" + want + ") ";
            auto before = cs::loaded.size();
            any().pck();
            std::error_code ec;
            VH_CHECK(cs::loaded.size() == before + 1 && fs::equivalent(cs::loaded.back(), d / "kernels" / "pck" / "pck00011.tpc", ec), "data-pck", "the default constants were loaded %zu times, last '%s'", cs::loaded.size() - before, cs::loaded.empty() ? "" : cs::loaded.back().c_str());
        } else if (op == 4) {
            std::string m = vh::fmt("m%d", k);
            if (R.chance(0.3)) { level = R.i(1, 2); any().level(level); }
            any().log(m);
            if (level <= 1) msgs.push_back(m);
            VH_CHECK(any().get_level() == level, "logger-shared", "the level of one file is not that of another");
        } else if (op == 5) {
            std::string p = vh::scratch("log.txt");
            any().dump(p);
            std::ifstream f(p); std::string l; std::vector<std::string> got;
            bool on = false;
            while (std::getline(f, l)) { auto e = l.find("] m"); if (l.size() > 6 && l.substr(l.size() - 6) == "] mark") on = true; else if (on && e != std::string::npos && l.find("] m", e + 1) == std::string::npos && std::isdigit(static_cast<unsigned char>(l[e + 3]))) got.push_back(l.substr(e + 2)); }
            VH_CHECK(got == msgs, "logger-shared", "a dump from one file has %zu of the %zu messages of all files", got.size(), msgs.size());
        } else if (op == 6) {
            struct Nest { static std::size_t two() { return api_b.scopes("s2", count_scopes); } };
            std::size_t d = any().scopes("s1", Nest::two);
            VH_CHECK(d == 2 && any().depth() == 0, "scopes-shared", "two scopes entered in two files count %zu in a third", d);
        } else {
            VH_CHECK(any().logger() == any().logger() && any().paths() == any().paths(), "singleton", "two files see different loggers or paths");
            VH_CHECK(any().platform() == any().platform() && any().arc(0.5f) == any().arc(0.5f), "function-shared", "a function differs between files");
            auto i1 = any().object_id(), i2 = any().object_id();
            VH_CHECK(i1 != i2, "ids-shared", "two objects of two files have the same identifier");
            VH_CHECK(fs::path(any().exe()) == EXE && fs::path(any().exe_dir()) == EXE.parent_path(), "exe-path", "the executable is '%s' in '%s'", any().exe().c_str(), any().exe_dir().c_str());
        }
    }
    any().reset_data();
    if (id < 3) vh::sample(script.substr(0, 200));
    fs::remove_all(root);
}

static void outputs(Rng& R, long id)
{
    fs::path root = vh::scratch(vh::fmt("o%ld", id));
    fs::create_directories(root / "there" / "deep");
    std::ofstream(root / "file.txt") << "keep";
    fs::path cwd = fs::current_path();
    fs::current_path(root);
    for (int k = 0, n = R.i(3, 12); k < n; ++k) {
        static const std::vector<std::string> parts{"a", "b", "there", "deep", "v1.0", "..", ".", ".hid", "file.txt", "x y"};
        static const std::vector<std::string> leaf{"im.png", "im.tar.gz", "plain", ".hidden", "dir/", "dot.", "", "file.txt", "there"};
        std::string p;
        for (int i = 0, m = R.i(0, 3); i < m; ++i) p += R.pick(parts) + "/";
        p += R.pick(leaf);
        if (R.chance(0.3)) p = (root / p).string();
        // stay inside the scratch folder
        fs::path full = (root / p).lexically_normal();
        if (full.lexically_relative(root).string().rfind("..", 0) == 0) continue;
        auto before = tree(root);
        fs::path q(p), dir = q.has_extension() ? q.parent_path() : q;
        fs::path copy = vh::scratch(vh::fmt("copy%ld", id));
        fs::remove_all(copy);
        fs::copy(root, copy, fs::copy_options::recursive);
        bool threw = vh::throws([&] { U[R.below(3)]->mk(p); });
        auto after = tree(root);
        // the same with plain steps, in the copy
        bool possible = true;
        if (!p.empty() && !dir.empty()) {
            fs::path at = q.is_absolute() ? copy / fs::path(p).lexically_relative(root) : copy / p;
            fs::path d = q.has_extension() ? at.parent_path() : at, cur;
            for (auto& c : d) {
                cur /= c;
                if (c.empty() || c == "." || c == "..") { if (!fs::exists(cur)) { possible = false; break; } continue; }
                if (fs::is_directory(cur)) continue;
                std::error_code ec;
                if (fs::exists(cur) || !fs::create_directory(cur, ec)) { possible = false; break; }
            }
        }
        auto expect = tree(copy);
        vh::ev();
        vh::distinct(vh::hash(std::hash<std::string>()(p), before.size()));
        VH_CHECK(threw == !possible, "make-path-throw", "make_path('%s') %s", p.c_str(), threw ? "threw though the folder can be made" : "did not throw though a file is in the way");
        VH_CHECK(!possible || threw || after == expect, "make-path", "make_path('%s') left %zu entries instead of %zu", p.c_str(), after.size(), expect.size());
        VH_CHECK(std::includes(after.begin(), after.end(), before.begin(), before.end()), "make-path-removed", "make_path('%s') removed something", p.c_str());
        fs::remove_all(copy);
    }
    std::ifstream f(root / "file.txt"); std::string c; std::getline(f, c);
    VH_CHECK(c == "keep", "make-path-removed", "make_path changed a file");
    fs::current_path(cwd);
    fs::remove_all(root);
}

static void body()
{
    Rng R(vh::seed());
    EXE = fs::canonical("/proc/self/exe");
    cs::unload_all();
    // times are written as the wall clock of the program's time zone
    for (int i = 0; i < vh::n(300, 5000); ++i) {
        int off = R.i(-47, 47) * 900; char tz[32]; snprintf(tz, sizeof tz, "AAA%c%d:%02d", off > 0 ? '-' : '+', std::abs(off) / 3600, std::abs(off) / 60 % 60); setenv("TZ", tz, 1); tzset();
        long long t = (long long)R.u(0, 4e9), l = t + off, d = l / 86400, r = l % 86400; if (r < 0) { r += 86400; --d; }
        long long z = d + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, dd = doy - (153 * mp + 2) / 5 + 1, mm = mp < 10 ? mp + 3 : mp - 9, yy = yoe + era * 400 + (mm <= 2);
        std::string want = vh::fmt("%04lld-%02lld-%02lld %02lld:%02lld:%02lld", yy, mm, dd, r / 3600, r / 60 % 60, r % 60), got = huira::get_time_as_string(std::chrono::system_clock::from_time_t((time_t)t), "%Y-%m-%d %H:%M:%S"); vh::ev();
        VH_CHECK(got == want, "time-text", "%lld s after 1970 in a zone %d s ahead is written %s, should be %s", t, off, got.c_str(), want.c_str());
    }
    { time_t a = time(nullptr); std::string g = huira::get_time_as_string("%s"); time_t b = time(nullptr); long long v = atoll(g.c_str()); VH_CHECK(v >= (long long)a && v <= (long long)b, "time-now", "now is written as second %s, should be %lld", g.c_str(), (long long)a); }
    unsetenv("TZ"); tzset();
    // the leap seconds are loaded once for the program
    api_a.ensure();
    double e = api_b.et("2020-01-01T00:00:00");
    api_c.ensure(); api_c.et("2021-01-01T00:00:00");
    long n = 0; for (auto& f : cs::loaded) n += f.find("naif0012.tls") != std::string::npos;
    VH_CHECK(n == 1, "lsk-once", "three files loaded the leap seconds %ld times", n);
    VH_CHECK(std::abs(e - 631108869.184) < 0.01, "lsk-value", "2020-01-01 is %.6f", e);
    for (long i = 0; i < vh::n(150, 8000); ++i) { vh::watchdog(30); vh::cur("history %ld", i); history(R, i); }
    for (long i = 0; i < vh::n(150, 8000); ++i) { vh::watchdog(30); vh::cur("outputs %ld", i); outputs(R, i); }
}
VH_MAIN(body())
