// C34: the logger. Modes (VH_MODE): hist = random histories against a model of the ring buffer, the
// sink, the levels and the console; conc = threads at once, judged off-line from their recorded
// intervals; exit = destructors that log while the program or a thread ends; crash = child processes
// that crash, judged by what they leave behind.
#include "vh.hpp"
#include "huira/platform/get_log_path.hpp"
#include "huira/util/logger.hpp"
#include <deque>
#include <sys/wait.h>
using namespace huira;
using vh::Rng;

struct Line { std::string level, tid, msg; };
static bool parse(const std::string& path, std::vector<Line>& out, std::string& why)
{
    out.clear();
    std::ifstream f(path);
    if (!f) { why = "cannot be read"; return false; }
    std::string l;
    std::vector<std::string> head;
    for (int i = 0; i < 5; ++i) { if (!std::getline(f, l)) { why = "header cut off"; return false; } head.push_back(l); }
    if (head[0] != "Huira Log" || head[3].rfind("Platform: ", 0) != 0) { why = "bad header"; return false; }
    while (std::getline(f, l)) {
        Line x;
        auto dig = [&](std::size_t p) { return p < l.size() && l[p] >= '0' && l[p] <= '9'; };
        bool ok = dig(0) && dig(1) && l.size() > 30 && l[2] == ':' && dig(3) && dig(4) && l[5] == ':' && dig(6) && dig(7) && l[8] == '.' && dig(9) && dig(10) && dig(11) && l.compare(12, 2, " [") == 0;
        if (!ok || l[19] != ']') { why = "line is not whole: " + l.substr(0, 120); return false; }
        x.level = l.substr(14, 5);
        if (l.compare(20, 9, " [Thread ") != 0) { why = "line is not whole: " + l.substr(0, 120); return false; }
        std::size_t e = l.find("] ", 29);
        if (e == std::string::npos) { why = "line is not whole: " + l.substr(0, 120); return false; }
        x.tid = l.substr(29, e - 29);
        x.msg = l.substr(e + 2);
        out.push_back(x);
    }
    return true;
}
static const char* LV[4] = {"DEBUG", "INFO ", "WARN ", "ERROR"};
static std::string self() { std::ostringstream o; o << std::this_thread::get_id(); return o.str(); }

// ------------------------------------------------------------------ histories
static void history(Rng& R, long id)
{
    std::deque<std::pair<int, std::string>> buf;
    std::size_t size = static_cast<std::size_t>(R.chance(0.3) ? R.i(1, 4) : R.chance(0.5) ? R.i(5, 40) : R.i(41, 1500));
    Logger::set_buffer_size(1);
    Logger::set_level(LogLevel::Error);
    Logger::log(LogLevel::Error, "start");
    Logger::set_buffer_size(size);
    buf.push_back({3, "start"});
    int level = R.i(0, 3);
    Logger::set_level(static_cast<LogLevel>(level));
    std::vector<std::pair<int, std::string>> got, want;
    int sink = 0; // 0 none, 1 records, 2 records and throws, 3 records and logs itself
    static int nested;
    nested = 0;
    auto set = [&](int k) {
        sink = k;
        if (k == 0) { if (R.chance(0.5)) Logger::clear_custom_sink(); else set_log_sink(nullptr); return; }
        set_log_sink([&got, k](const LogEntry& e) {
            got.push_back({static_cast<int>(e.level), e.message});
            if (e.thread_id != std::this_thread::get_id()) VH_FAIL("entry-thread", "the entry names another thread");
            if (k == 2) { if (got.size() % 2) throw std::runtime_error("sink"); throw 7; }
            if (k == 3 && !nested) { nested = 1; Logger::log(LogLevel::Error, "nested of " + e.message); nested = 0; }
        });
    };
    set(0);
    bool cd = Logger::is_console_debug_enabled(), ci = Logger::is_console_info_enabled(), cw = Logger::is_console_warning_enabled();
    std::string script;
    std::ostringstream out, err;
    auto* ob = std::cout.rdbuf(out.rdbuf());
    auto* eb = std::cerr.rdbuf(err.rdbuf());
    auto os = std::cout.rdstate(), es = std::cerr.rdstate();
    std::cout.clear(); std::cerr.clear();
    int steps = R.i(10, R.chance(0.1) ? 3000 : 150);
    std::size_t total = 1;
    for (int k = 0; k < steps; ++k) {
        double w = R.u();
        if (w < 0.7) {
            int l = R.i(0, 3);
            std::string m = vh::fmt("h%ld m%d ", id, k) + std::string(R.below(R.chance(0.05) ? 5000 : 40), 'a' + static_cast<char>(k % 26)) + ".";
            int how = R.i(0, 2);
            out.str(""); err.str("");
            std::string wo, we;
            bool pass = l >= level;
            if (how == 0) Logger::log(static_cast<LogLevel>(l), m);
            else if (how == 1) {
                HUIRA_LOG(static_cast<LogLevel>(l), m.substr(0, 5), m.size(), m.substr(5));
                m = m.substr(0, 5) + std::to_string(m.size()) + m.substr(5);
            } else {
                int evals = 0;
                auto text = [&] { ++evals; return m; };
                bool thrown = false, throws = l == 3 && R.chance(0.3);
                switch (l) {
                case 0: HUIRA_LOG_DEBUG(text()); if (pass && cd) wo = "[DEBUG] " + m + "\n"; break;
                case 1: HUIRA_LOG_INFO(text()); if (pass && ci) wo = "[INFO] " + m + "\n"; break;
                case 2: HUIRA_LOG_WARNING(text()); if (pass && cw) we = "[WARNING] " + m + "\n"; break;
                default:
                    if (throws) { try { HUIRA_THROW_ERROR(text()); } catch (const std::runtime_error& e) { thrown = e.what() == m; } }
                    else HUIRA_LOG_ERROR(text());
                    we = "[ERROR] " + m + "\n";
                }
                VH_CHECK(!throws || thrown, "throw-message", "HUIRA_THROW_ERROR did not throw its message");
                VH_CHECK(evals == (pass ? 1 : 0), "message-evaluated", "a message of level %d at level %d was evaluated %d times", l, level, evals);
                std::string o2 = out.str(), e2 = err.str();
                VH_CHECK(o2 == wo && e2 == we, "console", "level %d at minimum %d, console %d%d%d printed '%.80s'/'%.80s' instead of '%.80s'/'%.80s'", l, level, cd, ci, cw, o2.c_str(), e2.c_str(), wo.c_str(), we.c_str());
            }
            if (pass) {
                buf.push_back({l, m}); ++total;
                if (sink) want.push_back({l, m});
                if (sink == 3) { buf.push_back({3, "nested of " + m}); want.push_back({3, "nested of " + m}); ++total; }
                while (buf.size() > size) buf.pop_front();
            }
        } else if (w < 0.76) {
            level = R.i(0, 3); Logger::set_level(static_cast<LogLevel>(level));
        } else if (w < 0.84) {
            std::size_t s = static_cast<std::size_t>(R.chance(0.1) ? 0 : R.chance(0.4) ? R.i(1, 5) : R.chance(0.7) ? R.i(1, 60) : R.i(1, 3000));
            if (R.chance(0.2)) s = size;
            set_log_buffer_size(s);
            size = s ? s : 1;
            while (buf.size() > size) buf.pop_front();
            script += vh::fmt("s%zu ", size);
        } else if (w < 0.88) set(R.i(0, 3));
        else if (w < 0.92) {
            bool on = R.chance(0.5);
            switch (R.i(0, 2)) {
            case 0: huira::enable_console_debug(on); cd = on; if (on) ci = cw = true; break;
            case 1: huira::enable_console_info(on); ci = on; if (on) cw = true; else cd = false; break;
            default: huira::enable_console_warning(on); cw = on; if (!on) ci = cd = false;
            }
        } else {
            std::string path = vh::scratch("dump.txt");
            int where = R.i(0, 9);
            std::string back;
            if (where == 0) { back = dump_log(); VH_CHECK(!back.empty() && fs::path(back).parent_path() == fs::path(getenv("HUIRA_LOG_DIR")), "dump-dir", "a dump without a path went to %s", back.c_str()); }
            else if (where == 1) { back = dump_log(vh::scratch("no-such-dir/d.txt")); VH_CHECK(back == (fs::current_path() / "d.txt").string(), "dump-fallback", "a dump to a missing folder went to '%s'", back.c_str()); }
            else { back = dump_log(path); VH_CHECK(back == path, "dump-path", "dump to %s said %s", path.c_str(), back.c_str()); }
            std::vector<Line> got2; std::string why;
            bool ok = !back.empty() && parse(back, got2, why);
            VH_CHECK(ok, "dump-format", "the dump is not a log: %s", why.c_str());
            bool same = ok && got2.size() == buf.size();
            std::string bad = vh::fmt("%zu lines instead of %zu", got2.size(), buf.size());
            for (std::size_t i = 0; same && i < buf.size(); ++i)
                if (got2[i].msg != buf[i].second || got2[i].level != LV[buf[i].first] || got2[i].tid != self()) {
                    same = false; bad = vh::fmt("line %zu is [%s] '%.60s' instead of [%s] '%.60s'", i, got2[i].level.c_str(), got2[i].msg.c_str(), LV[buf[i].first], buf[i].second.c_str());
                }
            VH_CHECK(same, "dump-content", "size %zu after %zu messages (%s): %s", size, total, script.c_str(), bad.c_str());
            if (!back.empty()) fs::remove(back);
            vh::ev();
            vh::distinct(vh::hash(id, k, size, total));
        }
        VH_CHECK(got == want, "sink", "the sink of kind %d saw %zu messages instead of %zu", sink, got.size(), want.size());
        if (got != want) got = want;
        VH_CHECK(Logger::get_buffer_size() == size && static_cast<int>(Logger::get_level()) == level, "settings", "size %zu level %d read back as %zu, %d", size, level, Logger::get_buffer_size(), static_cast<int>(Logger::get_level()));
        VH_CHECK(Logger::is_console_debug_enabled() == cd && Logger::is_console_info_enabled() == ci && Logger::is_console_warning_enabled() == cw, "console-switches", "console switches are %d%d%d instead of %d%d%d", Logger::is_console_debug_enabled(), Logger::is_console_info_enabled(), Logger::is_console_warning_enabled(), cd, ci, cw);
    }
    std::cout.rdbuf(ob); std::cerr.rdbuf(eb);
    std::cout.clear(os); std::cerr.clear(es);
    set_log_sink(nullptr);
}

// ------------------------------------------------------------------ threads
static std::atomic<long> clk{1};
static long tick() { return clk.fetch_add(1, std::memory_order_relaxed); }
struct Msg { long start = 0, end = 0; int level = 0; std::atomic<int> seen{0}; };
struct Dump { long start, end; std::string path; };

static void concurrent(Rng& R, long id)
{
    const int T = R.i(2, 7);
    const long K = R.i(50, R.chance(0.3) ? 3000 : 400);
    const bool resize = R.chance(0.5), levels = R.chance(0.5), gaps = R.chance(0.3);
    std::size_t size0 = static_cast<std::size_t>(R.chance(0.4) ? R.i(1, 10) : R.chance(0.5) ? R.i(11, 300) : R.i(300, 30000));
    std::vector<std::unique_ptr<Msg[]>> msgs;
    for (int t = 0; t < T; ++t) msgs.emplace_back(new Msg[static_cast<std::size_t>(K)]);
    // one known message is left
    Logger::set_level(LogLevel::Info);
    Logger::set_buffer_size(1);
    Logger::log(LogLevel::Error, "flush");
    Logger::set_buffer_size(size0);
    auto record = [&msgs, K, T](const LogEntry& e, bool thr) {
        int t; long k;
        if (std::sscanf(e.message.c_str(), "t%d k%ld ", &t, &k) == 2 && t >= 0 && t < T && k >= 0 && k < K) {
            msgs[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)].seen.fetch_add(1, std::memory_order_relaxed);
            if (thr && k % 3 == 0) throw std::runtime_error("sink");
        }
    };
    // a sink with state of its own, destroyed when replaced
    auto make = [&record](int v) -> Logger::CustomSink {
        auto p = std::make_shared<std::vector<char>>(64, 'x');
        std::string big(40, static_cast<char>('a' + v));
        return [p, big, v, &record](const LogEntry& e) { if (p->size() != 64 || big.size() != 40) VH_FAIL("sink-torn", "the sink ran on freed state"); record(e, v == 1); };
    };
    set_log_sink(make(0));
    std::atomic<bool> stop{false}, go{false};
    std::atomic<int> escaped{0};
    std::vector<std::thread> th, aux;
    std::vector<std::vector<Dump>> dumps(2);
    std::size_t smin = size0, smax = size0;
    const std::uint64_t sd = R.next();
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] {
        Rng r(sd + static_cast<std::uint64_t>(t));
        while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
        for (long k = 0; k < K; ++k) {
            Msg& m = msgs[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)];
            m.level = r.chance(0.6) ? 3 : r.i(0, 2);
            std::string s = vh::fmt("t%d k%ld ", t, k) + std::string(r.below(60), static_cast<char>('a' + (t + k) % 26)) + ";";
            m.start = tick();
            try { Logger::log(static_cast<LogLevel>(m.level), s); } catch (...) { escaped.fetch_add(1, std::memory_order_relaxed); }
            m.end = tick();
            if (r.chance(0.02)) std::this_thread::yield();
        }
    });
    for (int d = 0; d < 2; ++d) aux.emplace_back([&, d] {
        Rng r(sd + 100 + static_cast<std::uint64_t>(d));
        for (int i = 0; i < 40 && !stop.load(std::memory_order_relaxed); ++i) {
            Dump u; u.path = vh::scratch(vh::fmt("c%ld-%d-%d.txt", id, d, i));
            u.start = tick();
            bool ok = dump_log(u.path) == u.path;
            u.end = tick();
            if (ok) dumps[static_cast<std::size_t>(d)].push_back(u); else VH_FAIL("dump-path", "a dump failed");
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
        }
    });
    aux.emplace_back([&] { // sinks
        Rng r(sd + 200);
        while (!stop.load(std::memory_order_relaxed)) {
            if (gaps && r.chance(0.2)) Logger::clear_custom_sink(); else set_log_sink(make(r.i(0, 3)));
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
        }
    });
    if (resize) aux.emplace_back([&] {
        Rng r(sd + 300);
        while (!stop.load(std::memory_order_relaxed)) {
            std::size_t s = static_cast<std::size_t>(r.chance(0.4) ? r.i(1, 10) : r.i(11, 600));
            smin = std::min(smin, s); smax = std::max(smax, s);
            set_log_buffer_size(s);
            if (Logger::get_buffer_size() != s) VH_FAIL("settings", "a resize to %zu read back as %zu", s, Logger::get_buffer_size());
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
        }
    });
    if (levels) aux.emplace_back([&] {
        Rng r(sd + 400);
        while (!stop.load(std::memory_order_relaxed)) {
            Logger::set_level(r.chance(0.5) ? LogLevel::Info : LogLevel::Error);
            huira::enable_console_info(r.chance(0.5));
            (void)Logger::is_console_debug_enabled();
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
        }
    });
    go = true;
    for (auto& t : th) t.join();
    stop = true;
    for (auto& t : aux) t.join();
    { Dump u; u.path = vh::scratch(vh::fmt("c%ld-end.txt", id)); u.start = tick(); dump_log(u.path); u.end = tick(); dumps[0].push_back(u); }
    set_log_sink(nullptr);
    huira::enable_console_warning(true);
    VH_CHECK(escaped == 0, "sink-exception-escapes", "%d exceptions of the sink reached the loggers", escaped.load());
    // which messages were accepted
    auto accepted = [&](int t, long k) { // 1 yes, 0 no, -1 unknown
        const Msg& m = msgs[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)];
        if (m.level == 0) return 0;
        if (m.level == 3) return 1;
        if (!levels) return 1;
        if (m.seen) return 1;
        return gaps ? -1 : 0;
    };
    for (int t = 0; t < T; ++t) for (long k = 0; k < K; ++k) {
        const Msg& m = msgs[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)];
        int s = m.seen, a = accepted(t, k);
        vh::ev();
        VH_CHECK(s <= 1 && !(a == 0 && s), "sink-extra", "the sinks saw message %d/%ld of level %d %d times", t, k, m.level, s);
        VH_CHECK(gaps || a != 1 || s == 1, "sink-lost", "no sink saw message %d/%ld of level %d", t, k, m.level);
    }
    std::size_t nd = 0;
    for (auto& dd : dumps) for (auto& u : dd) {
        ++nd;
        std::vector<Line> ls; std::string why;
        if (!parse(u.path, ls, why)) { VH_FAIL("dump-format", "the dump is not a log: %s", why.c_str()); continue; }
        fs::remove(u.path);
        std::vector<std::vector<char>> in(static_cast<std::size_t>(T), std::vector<char>(static_cast<std::size_t>(K), 0));
        std::vector<long> last(static_cast<std::size_t>(T), -1), first(static_cast<std::size_t>(T), -1);
        std::map<int, std::string> tid;
        long minend = std::numeric_limits<long>::max();
        bool good = true, flush = false;
        for (std::size_t i = 0; i < ls.size() && good; ++i) {
            if (ls[i].msg == "flush") { if (i) { good = false; VH_FAIL("dump-order", "an old message came after newer ones"); } flush = true; continue; }
            int t; long k; int nch = 0;
            if (std::sscanf(ls[i].msg.c_str(), "t%d k%ld %n", &t, &k, &nch) != 2 || t < 0 || t >= T || k < 0 || k >= K) {
                good = false; VH_FAIL("dump-torn", "a dump has the line '%.80s'", ls[i].msg.c_str()); break;
            }
            const Msg& m = msgs[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)];
            std::string rest = ls[i].msg.substr(static_cast<std::size_t>(nch));
            bool whole = !rest.empty() && rest.back() == ';' && rest.find_first_not_of(static_cast<char>('a' + (t + k) % 26)) == rest.size() - 1;
            if (!whole || ls[i].level != LV[m.level] || (tid.count(t) && tid[t] != ls[i].tid)) { good = false; VH_FAIL("dump-torn", "a dump has the torn line '[%s] %.80s'", ls[i].level.c_str(), ls[i].msg.c_str()); break; }
            tid[t] = ls[i].tid;
            if (accepted(t, k) == 0) { good = false; VH_FAIL("dump-level", "a message below the level was kept"); break; }
            if (k <= last[static_cast<std::size_t>(t)]) { good = false; VH_FAIL("dump-order", "thread %d: message %ld after %ld", t, k, last[static_cast<std::size_t>(t)]); break; }
            for (long j = last[static_cast<std::size_t>(t)] + 1; first[static_cast<std::size_t>(t)] >= 0 && j < k; ++j)
                if (accepted(t, j) == 1) { good = false; VH_FAIL("dump-gap", "thread %d: message %ld is missing between %ld and %ld", t, j, last[static_cast<std::size_t>(t)], k); break; }
            if (first[static_cast<std::size_t>(t)] < 0) first[static_cast<std::size_t>(t)] = k;
            last[static_cast<std::size_t>(t)] = k;
            in[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)] = 1;
            minend = std::min(minend, m.end);
            if (m.start > u.end) { good = false; VH_FAIL("dump-future", "a dump has a message logged after it"); }
        }
        if (!good) continue;
        std::size_t before = 0, possible = 0;
        for (int t = 0; t < T && good; ++t) for (long k = 0; k < K; ++k) {
            const Msg& m = msgs[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)];
            int a = accepted(t, k);
            if (a == 1 && m.end < u.start) {
                ++before;
                if (!in[static_cast<std::size_t>(t)][static_cast<std::size_t>(k)] && minend < m.start) { good = false; VH_FAIL("dump-lost", "message %d/%ld is missing though an older one is there", t, k); break; }
            }
            if (a != 0 && m.start < u.end) ++possible;
        }
        if (!good) continue;
        VH_CHECK(ls.size() <= smax && ls.size() <= possible + 1, "dump-size", "%zu lines of a buffer of %zu after at most %zu messages", ls.size(), smax, possible);
        VH_CHECK(ls.size() >= std::min(smin, before), "dump-size", "%zu lines of a buffer of %zu after %zu messages", ls.size(), smin, before);
        vh::ev();
        vh::distinct(vh::hash(id, nd, ls.size(), last[0], last[static_cast<std::size_t>(T - 1)]));
        if (!flush && ls.size() > 3) vh::count("wrapped dumps");
        // how the threads interleaved
        std::uint64_t h = 1; for (std::size_t i = 0; i < ls.size(); ++i) h = h * 31 + std::hash<std::string>()(ls[i].tid);
        vh::distinct(h);
    }
    vh::count("concurrent scenarios");
}

// ------------------------------------------------------------------ destructors that log
struct Late {
    std::string tag;
    ~Late()
    {
        { HUIRA_TRACE_SCOPE("late"); { HUIRA_TRACE_SCOPE("later"); } }
        HUIRA_LOG_WARNING("bye " + tag);
        Logger::set_buffer_size(7);
        Logger::dump_to_file(vh::scratch("late-" + tag + ".txt"));
    }
};
static int run_child(const std::function<void()>& f, const std::string& errfile, bool& hung)
{
    pid_t p = fork();
    if (p == 0) {
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2); close(fd);
        std::cerr.clear(); std::cout.clear();
        alarm(60);
        f();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    return st;
}
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

static void exits()
{
    for (int how = 0; how < 4; ++how) {
        std::string ef = vh::scratch("exit.err");
        bool hung;
        int st = run_child([how] {
            if (how == 0) { static Late l{"static-first"}; (void)l; HUIRA_LOG_INFO("first use"); HUIRA_TRACE_SCOPE("main"); exit(0); }
            if (how == 1) { HUIRA_LOG_INFO("first use"); static Late l{"static-after"}; (void)l; exit(0); }
            if (how == 2) { std::thread([] { thread_local Late l{"thread-first"}; (void)l; HUIRA_TRACE_SCOPE("thread"); HUIRA_LOG_INFO("x"); }).join(); exit(0); }
            static Late l{"static-threads"}; (void)l;
            std::vector<std::thread> ts;
            for (int i = 0; i < 4; ++i) ts.emplace_back([] { for (;;) { HUIRA_TRACE_SCOPE("busy"); HUIRA_LOG_WARNING("busy"); } });
            for (auto& t : ts) t.detach();
            std::this_thread::sleep_for(std::chrono::milliseconds(20));
            exit(0);
        }, ef, hung);
        const char* tag[4] = {"static-first", "static-after", "thread-first", "static-threads"};
        vh::ev();
        std::string e = slurp(ef);
        std::vector<Line> ls; std::string why;
        VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit-crash", "logging in a destructor (%s) ended with status %x: %.300s", tag[how], st, e.substr(e.find("ERROR") == std::string::npos ? 0 : e.find("ERROR")).c_str());
        bool ok = parse(vh::scratch(std::string("late-") + tag[how] + ".txt"), ls, why);
        bool has = false; for (auto& l : ls) has |= l.msg == std::string("bye ") + tag[how];
        VH_CHECK(ok && (has || how == 3), "exit-lost", "the message of a destructor (%s) is not in the dump", tag[how]);
        vh::count("exit cases");
    }
}

// ------------------------------------------------------------------ crashes
static void scopes_then(const std::vector<std::string>& names, std::size_t i, const std::function<void()>& f)
{
    if (i == names.size()) { f(); return; }
    HUIRA_TRACE_SCOPE(names[i].c_str());
    scopes_then(names, i + 1, f);
}
static void crashes(Rng& R, long id)
{
    static const int SG[5] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS};
    int kind = R.i(0, 9); // 0-4 raise, 5 null write, 6 abort, 7 uncaught exception, 8 uncaught other, 9 terminate
    int enabled = R.i(0, 4); // 0 disabled, 1 as is, 2 disabled then enabled, 3 as is on another thread, 4 the program installs its own handlers, then disables these
    bool other = enabled == 3;
    int logs = R.i(0, 30), depth = R.chance(0.1) ? R.i(60, 70) : R.i(0, 6);
    std::size_t size = static_cast<std::size_t>(R.chance(0.3) ? R.i(10, 20) : R.i(90, 200));
    bool unwind = R.chance(0.5);
    std::string dir = vh::scratch(vh::fmt("crash%ld", id)), ef = dir + "/err";
    fs::create_directories(dir + "/logs");
    std::vector<std::string> names;
    for (int i = 0; i < depth; ++i) names.push_back(vh::fmt("scope%d", i));
    vh::cur("crash kind %d handler %d logs %d depth %d", kind, enabled, logs, depth);
    bool hung;
    int st = run_child([&] {
        setenv("HUIRA_LOG_DIR", (dir + "/logs").c_str(), 1);
        if (chdir((dir + "/logs").c_str())) _exit(3);
        signal(SIGVTALRM, SIG_DFL);
        Logger::set_level(LogLevel::Info);
        Logger::set_buffer_size(size);
        if (enabled == 4) { for (int g : SG) std::signal(g, [](int) { _exit(77); }); std::set_terminate([] { _exit(77); }); }
        if (enabled == 0 || enabled == 2 || enabled == 4) Logger::enable_crash_handler(false);
        if (enabled == 2) Logger::enable_crash_handler();
        for (int i = 0; i < logs; ++i) Logger::log(i % 2 ? LogLevel::Info : LogLevel::Debug, vh::fmt("before %d", i));
        if (unwind) try { scopes_then({"gone1", "gone2", "gone3"}, 0, [] { throw 1; }); } catch (int) {}
        auto die = [&] {
            scopes_then(names, 0, [&] {
                if (kind < 5) raise(SG[kind]);
                else if (kind == 5) { volatile int* volatile p = nullptr; *p = 1; }
                else if (kind == 6) std::abort();
                else if (kind == 7) { if (other) throw std::runtime_error("odd failure"); [] () noexcept { throw std::runtime_error("odd failure"); }(); }
                else if (kind == 8) [] () noexcept { throw 42; }();
                else std::terminate();
            });
        };
        if (other) std::thread(die).join(); else die();
    }, ef, hung);
    int want = kind < 5 ? SG[kind] : kind == 5 ? SIGSEGV : SIGABRT;
    vh::ev();
    vh::distinct(vh::hash(kind, enabled, logs, depth, size));
    VH_CHECK(!hung, "crash-hang", "a process crashing with signal %d, handler %s, never ended", want, enabled ? "on" : "off");
    if (enabled == 4) VH_CHECK(hung || (WIFEXITED(st) && WEXITSTATUS(st) == 77), "crash-own-handler", "disabling the crash handler took the program's own handler for signal %d away (status %x)", want, st);
    else VH_CHECK(hung || (WIFSIGNALED(st) && WTERMSIG(st) == want), "crash-status", "a crash with signal %d, handler %s, ended with status %x", want, enabled ? "on" : "off", st);
    std::vector<std::string> files;
    for (auto& e : fs::directory_iterator(dir + "/logs")) files.push_back(e.path().string());
    std::string err = slurp(ef);
    std::size_t reports = 0;
    for (std::size_t p = err.find("HUIRA UNCAUGHT EXCEPTION"); p != std::string::npos; p = err.find("HUIRA UNCAUGHT EXCEPTION", p + 1)) ++reports;
    if (enabled == 0 || enabled == 4) {
        VH_CHECK(files.empty() && reports == 0, "crash-unwanted", "a disabled crash handler wrote %zu logs and %zu reports", files.size(), reports);
    } else {
        VH_CHECK(files.size() == 1 && reports == 1, "crash-report", "a crash with signal %d wrote %zu logs and %zu reports", want, files.size(), reports);
        std::vector<std::string> exp;
        for (int i = 1; i < logs; i += 2) exp.push_back(vh::fmt("before %d", i));
        if (kind == 7) exp.push_back("Uncaught exception: odd failure");
        else if (kind == 8) exp.push_back("Uncaught unknown exception");
        else if (kind == 9) exp.push_back("Terminate called without active exception");
        else {
            exp.push_back("Crash detected with signal: " + std::to_string(want));
            if (depth) {
                exp.push_back("Crash inside scope: " + names.back());
                exp.push_back("Scope trace:");
                for (auto& n : names) exp.push_back(" -> " + n);
            }
        }
        std::vector<Line> ls; std::string why = "missing";
        bool ok = files.size() == 1 && parse(files[0], ls, why);
        VH_CHECK(ok, "crash-log", "the log of a crash is unreadable: %s", why.c_str());
        if (depth > 64) { // deeper scopes are counted, not named
            ok = ok && !ls.empty();
        } else {
            while (exp.size() > size) exp.erase(exp.begin());
            std::vector<std::string> got; for (auto& l : ls) got.push_back(l.msg);
            VH_CHECK(got == exp, "crash-log", "the log of a crash with signal %d in %d scopes has %zu lines instead of %zu, the last '%s'", want, depth, got.size(), exp.size(), got.empty() ? "" : got.back().c_str());
        }
    }
    vh::count("crashes");
    if (id < 4) vh::sample(vh::fmt("crash kind %d handler %d in %d scopes: status %x, %zu logs", kind, enabled, depth, st, files.size()));
    fs::remove_all(dir);
}

static void body()
{
    Rng R(vh::seed());
    std::string mode = getenv("VH_MODE") ? getenv("VH_MODE") : "all";
    if (mode == "exit" || mode == "all") exits();
    if (mode == "crash" || mode == "all") for (long i = 0; i < vh::n(60, 1500); ++i) crashes(R, i);
    if (mode == "hist" || mode == "all") for (long i = 0; i < vh::n(400, 20000); ++i) { vh::watchdog(60); vh::cur("history %ld", i); history(R, i); }
    vh::watchdog(0);
    if (mode == "conc" || mode == "tsan" || mode == "all") {
        long N = mode == "tsan" ? vh::n(25, 400) : vh::n(60, 3000);
        for (long i = 0; i < N; ++i) { vh::cur("concurrent scenario %ld", i); concurrent(R, i); if (i < 3) vh::sample(vh::fmt("scenario %ld", i)); }
    }
}
VH_MAIN(body())
