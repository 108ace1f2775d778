// Scriptable stand-in for CSPICE (the real library is not installed here). Written from the NAIF
// documentation of the calls huira makes: error handling in RETURN/ABORT modes, leapsecond kernels,
// time systems, and an ephemeris and frames given as functions. All functions are inline.
#pragma once
#include "cspice/SpiceUsr.h"
#include <array>
#include <cctype>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <vector>
namespace cs {
using M33 = std::array<std::array<long double, 3>, 3>;
using V3 = std::array<long double, 3>;
struct State { V3 p{}, v{}; };
struct Attitude { M33 r{}; V3 w{}; };  // r: FROM->TO matrix, w: angular velocity of TO wrt FROM in FROM axes
inline std::string action = "ABORT", shortm, longm;
inline bool failed = false;
inline long aborts = 0, calls = 0;
inline std::vector<std::string> loaded, log;
inline std::vector<std::pair<long double, long double>> leaps; // (UTC seconds past J2000 at which it applies, TAI-UTC)
inline long double dta = 32.184L, K = 1.657e-3L, EB = 1.671e-2L, MM0 = 6.239996L, MM1 = 1.99096871e-7L;
// hooks; a false return raises the SPICE error given
inline std::function<bool(const std::string& t, long double et, const std::string& ref, const std::string& abcorr, const std::string& obs, State&, long double& lt)> eph;
inline std::function<bool(const std::string& from, const std::string& to, long double et, Attitude&)> att;
inline void unload_all() { leaps.clear(); loaded.clear(); }
inline void err(const char* s, const std::string& l)
{
    if (failed) return;
    failed = true; shortm = s; longm = l;
    if (action == "ABORT") { ++aborts; std::fprintf(stderr, "SPICE double: error in ABORT mode: %s %s\n", s, l.c_str()); std::abort(); }
}
inline long long days(int y, int m, int d) // civil days since 2000-01-01
{
    y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long long)doe - 730425;
}
inline void civil(long long z, int& y, int& m, int& d)
{
    z += 730425; long long era = (z >= 0 ? z : z - 146096) / 146097; unsigned doe = (unsigned)(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int)yoe + (int)era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2;
}
inline long double tdb_tt(long double t) { long double M = MM0 + MM1 * t, E = M + EB * std::sin(M); return K * std::sin(E); }
inline long double leap_utc(long double utc) { long double v = leaps.front().second - 1; for (auto& l : leaps) if (utc >= l.first) v = l.second; return v; }
inline long double et_of_utc(long double utc) { long double tt = utc + leap_utc(utc) + dta; return tt + tdb_tt(tt); }
inline long double tt_of_et(long double et) { return et - tdb_tt(et); }
inline long double leap_tai(long double tai) { long double v = leaps.front().second - 1; for (auto& l : leaps) if (tai >= l.first + l.second) v = l.second; return v; }
inline const char* MON[12] = {"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"};
inline int month(std::string s) { for (auto& c : s) c = (char)std::toupper(c); for (int i = 0; i < 12; ++i) if (s.substr(0, 3) == MON[i]) return i + 1; return 0; }
// parse to UTC-like seconds past J2000 (no leapseconds); returns false if not understood
inline bool parse(const std::string& in, long double& sec, std::string& sys)
{
    std::string s = in; sys = "UTC";
    while (!s.empty() && std::isspace((unsigned char)s.back())) s.pop_back();
    for (const char* n : {"TDB", "TDT", "TT", "ET", "UTC", "Z"}) { size_t l = std::strlen(n); if (s.size() > l && s.substr(s.size() - l) == n && (std::isspace((unsigned char)s[s.size() - l - 1]) || std::isdigit((unsigned char)s[s.size() - l - 1]))) { sys = n; if (sys == "Z") sys = "UTC"; if (sys == "TT") sys = "TDT"; if (sys == "ET") sys = "TDB"; s.resize(s.size() - l); break; } }
    while (!s.empty() && std::isspace((unsigned char)s.back())) s.pop_back();
    int y, mo, d, doy, h = 0, mi = 0, n = 0; double se = 0; char mon[16]; double jd;
    if (std::sscanf(s.c_str(), "JD %lf%n", &jd, &n) == 1 && n == (int)s.size()) { sec = (jd - 2451545.0L) * 86400; return true; }
    auto tail = [&](const char* t) { h = mi = 0; se = 0; if (!*t) return true; if (*t == 'T' || *t == ' ') ++t; else return false; while (*t == ' ') ++t; if (!*t) return true; int k = 0;
        if (std::sscanf(t, "%d:%d:%lf%n", &h, &mi, &se, &k) == 3 && !t[k]) return true; k = 0; se = 0;
        if (std::sscanf(t, "%d:%d%n", &h, &mi, &k) == 2 && !t[k]) return true; return false; };
    long long dd;
    if (std::sscanf(s.c_str(), "%4d-%2d-%2d%n", &y, &mo, &d, &n) == 3 && tail(s.c_str() + n)) { if (mo < 1 || mo > 12 || d < 1 || d > 31) return false; dd = days(y, mo, d); }
    else if (std::sscanf(s.c_str(), "%4d-%3d%n", &y, &doy, &n) == 2 && n == 8 && tail(s.c_str() + n)) { if (doy < 1 || doy > 366) return false; dd = days(y, 1, 1) + doy - 1; }
    else if (std::sscanf(s.c_str(), "%4d %12[A-Za-z] %d%n", &y, mon, &d, &n) == 3 && month(mon) && tail(s.c_str() + n)) { if (d < 1 || d > 31) return false; dd = days(y, month(mon), d); }
    else return false;
    if (h < 0 || h > 23 || mi < 0 || mi > 59 || se < 0 || se >= 61) return false;
    sec = (long double)dd * 86400 - 43200 + h * 3600 + mi * 60 + (long double)se; return true;
}
inline void load(const std::string& f, int depth = 0)
{
    struct stat st; if (::stat(f.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) { err("SPICE(NOSUCHFILE)", "The attempt to load \"" + f + "\" failed: file not found"); return; }
    loaded.push_back(f);
    std::ifstream is(f); std::string line; bool data = false; std::string body;
    while (std::getline(is, line)) { std::string t = line; while (!t.empty() && std::isspace((unsigned char)t.back())) t.pop_back(); size_t b = t.find_first_not_of(" \t"); if (b != std::string::npos) t = t.substr(b); if (t == "\\begindata") data = true; else if (t == "\\begintext") data = false; else if (data) body += line + "\n"; }
    auto list = [&](const char* key) { std::string r; size_t p = body.find(key); if (p == std::string::npos) return r; p = body.find('=', p) + 1; size_t q = body.find_first_not_of(" \t\n", p); if (body[q] == '(') { size_t e = body.find(')', q); r = body.substr(q + 1, e - q - 1); } else { size_t e = body.find('\n', q); r = body.substr(q, e - q); } for (auto& c : r) { if (c == 'D') c = 'E'; if (c == ',') c = ' '; } return r; };
    if (body.find("DELTET/DELTA_AT") != std::string::npos) {
        std::string raw = body.substr(body.find("DELTET/DELTA_AT")); raw = raw.substr(raw.find('(') + 1); raw = raw.substr(0, raw.find(')')); leaps.clear();
        for (auto& c : raw) if (c == ',') c = ' ';
        std::stringstream ss(raw); double n; std::string at; while (ss >> n >> at) { int y, d; char mo[8]; if (std::sscanf(at.c_str(), "@%d-%3[A-Z]-%d", &y, mo, &d) == 3) leaps.push_back({(long double)days(y, month(mo), d) * 86400 - 43200, n}); }
        std::stringstream a(list("DELTET/DELTA_T_A")), b(list("DELTET/K")), c(list("DELTET/EB")), m(list("DELTET/M")); double v, w;
        if (a >> v) dta = v; if (b >> v) K = v; if (c >> v) EB = v; if (m >> v >> w) { MM0 = v; MM1 = w; }
    }
    if (body.find("KERNELS_TO_LOAD") != std::string::npos && depth < 4) {
        std::string raw = body.substr(body.find("KERNELS_TO_LOAD")); raw = raw.substr(raw.find('(') + 1); raw = raw.substr(0, raw.find(')'));
        size_t p = 0; while ((p = raw.find('\'', p)) != std::string::npos) { size_t e = raw.find('\'', p + 1); if (e == std::string::npos) break; load(raw.substr(p + 1, e - p - 1), depth + 1); if (failed) return; p = e + 1; }
    }
}
inline bool need_lsk(const char* who) { if (!leaps.empty()) return true; err("SPICE(NOLEAPSECONDS)", std::string(who) + ": leapsecond variables are not in the kernel pool"); return false; }
} // namespace cs
extern "C" {
inline void cs_unused() {}
inline void erract_c(const char* op, int len, char* a) { if (!std::strcmp(op, "SET")) cs::action = a; else std::snprintf(a, (size_t)len, "%s", cs::action.c_str()); }
inline void errprt_c(const char*, int, char*) {}
inline int failed_c(void) { return cs::failed; }
inline void getmsg_c(const char* o, int len, char* m) { std::snprintf(m, (size_t)len, "%s", !cs::failed ? "" : !std::strcmp(o, "SHORT") ? cs::shortm.c_str() : cs::longm.c_str()); }
inline void reset_c(void) { cs::failed = false; cs::shortm.clear(); cs::longm.clear(); }
inline void furnsh_c(const char* f) { ++cs::calls; if (cs::failed) return; if (!*f) { cs::err("SPICE(EMPTYSTRING)", "furnsh"); return; } cs::load(f); }
inline void str2et_c(const char* s, double* et)
{
    ++cs::calls; if (cs::failed) return; long double sec; std::string sys;
    if (!cs::need_lsk("str2et")) return;
    if (!cs::parse(s, sec, sys)) { cs::err("SPICE(UNPARSEDTIME)", std::string("time string not understood: ") + s); return; }
    if (sys == "UTC") *et = (double)cs::et_of_utc(sec); else if (sys == "TDB") *et = (double)sec; else *et = (double)(sec + cs::tdb_tt(sec));
}
inline void deltet_c(double ep, const char* ty, double* d)
{
    ++cs::calls; if (cs::failed) return; if (!cs::need_lsk("deltet")) return; std::string t(ty);
    if (t == "UTC") *d = (double)(cs::et_of_utc(ep) - ep);
    else if (t == "ET") { long double tai = cs::tt_of_et(ep) - cs::dta; *d = (double)((long double)ep - (tai - cs::leap_tai(tai))); }
    else cs::err("SPICE(INVALIDEPOCH)", t);
}
inline double unitim_c(double ep, const char* in, const char* out)
{
    ++cs::calls; if (cs::failed) return ep; if (!cs::need_lsk("unitim")) return ep;
    std::string a(in), b(out); long double et = ep;
    auto jd = [](long double x) { return (x - 2451545.0L) * 86400; };
    if (a == "TDB" || a == "ET") ; else if (a == "TDT" || a == "TT") et = ep + cs::tdb_tt(ep); else if (a == "TAI") { long double tt = ep + cs::dta; et = tt + cs::tdb_tt(tt); }
    else if (a == "JED" || a == "JDTDB") et = jd(ep); else if (a == "JDTDT" || a == "JDTT") { long double tt = jd(ep); et = tt + cs::tdb_tt(tt); }
    else { cs::err("SPICE(BADTIMETYPE)", a); return ep; }
    long double tt = cs::tt_of_et(et);
    if (b == "TDB" || b == "ET") return (double)et; if (b == "TDT" || b == "TT") return (double)tt; if (b == "TAI") return (double)(tt - cs::dta);
    if (b == "JED" || b == "JDTDB") return (double)(2451545.0L + et / 86400); if (b == "JDTDT" || b == "JDTT") return (double)(2451545.0L + tt / 86400);
    cs::err("SPICE(BADTIMETYPE)", b); return ep;
}
inline void timout_c(double et, const char* pic, int len, char* out)
{
    ++cs::calls; if (cs::failed) return; if (!cs::need_lsk("timout")) return;
    std::string p(pic); bool rnd = false; std::string sys = "UTC";
    auto cut = [&](const char* m) { size_t k = p.find(m); if (k == std::string::npos) return false; p.erase(k, std::strlen(m)); return true; };
    if (cut("::RND")) rnd = true; cut("::TRNC"); if (cut("::UTC")) sys = "UTC"; if (cut("::TDB")) sys = "TDB"; if (cut("::TDT") || cut("::TT")) sys = "TDT";
    while (!p.empty() && p.back() == ' ') p.pop_back();
    int dec = 0; size_t dot = p.find("SC."); if (dot != std::string::npos) for (size_t k = dot + 3; k < p.size() && p[k] == '#'; ++k) ++dec;
    long double tt = cs::tt_of_et(et), tai = tt - cs::dta, t = sys == "TDB" ? (long double)et : sys == "TDT" ? tt : tai - cs::leap_tai(tai);
    long double sc = 1; for (int k = 0; k < dec; ++k) sc *= 10;
    if (sys == "UTC") { tai = (rnd ? std::floor(tai * sc + 0.5L) : std::floor(tai * sc + 1e-9L)) / sc; t = tai - cs::leap_tai(tai); } // TAI-UTC is whole seconds: round first
    // during a positive leapsecond the UTC label runs 23:59:60
    bool leap = false; if (sys == "UTC") for (auto& l : cs::leaps) if (l.second != cs::leaps.front().second && tai >= l.first + l.second - 1 && tai < l.first + l.second) leap = true;
    long double q = rnd || sys == "UTC" ? std::floor(t * sc + 0.5L) : std::floor(t * sc + 1e-9L); long long units = (long long)q; long long isc = (long long)sc;
    long long secs = units >= 0 ? units / isc : -((-units + isc - 1) / isc), frac = units - secs * isc; if (leap) secs -= 1;
    long long s = secs + 43200, day = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), sod = s - day * 86400;
    int y, m, d; cs::civil(day, y, m, d); int doy = (int)(day - cs::days(y, 1, 1)) + 1, ss = (int)(sod % 60) + (leap ? 1 : 0);
    char b[32]; std::string o;
    for (size_t k = 0; k < p.size();) {
        auto at = [&](const char* w) { return p.compare(k, std::strlen(w), w) == 0; };
        if (at("YYYY")) { std::snprintf(b, 32, "%04d", y); o += b; k += 4; }
        else if (at("DOY")) { std::snprintf(b, 32, "%03d", doy); o += b; k += 3; }
        else if (at("MON")) { o += cs::MON[m - 1]; k += 3; }
        else if (at("MM")) { std::snprintf(b, 32, "%02d", m); o += b; k += 2; }
        else if (at("DD")) { std::snprintf(b, 32, "%02d", d); o += b; k += 2; }
        else if (at("HR")) { std::snprintf(b, 32, "%02d", (int)(sod / 3600)); o += b; k += 2; }
        else if (at("MN")) { std::snprintf(b, 32, "%02d", (int)(sod / 60 % 60)); o += b; k += 2; }
        else if (at("SC")) { std::snprintf(b, 32, "%02d", ss); o += b; k += 2; if (dec && k < p.size() && p[k] == '.') { std::snprintf(b, 32, ".%0*lld", dec, frac); o += b; k += 1 + (size_t)dec; } }
        else o += p[k++];
    }
    std::snprintf(out, (size_t)len, "%s", o.c_str());
}
inline void spkezr_c(const char* t, double et, const char* ref, const char* ab, const char* obs, double s[6], double* lt)
{
    ++cs::calls; if (cs::failed) return; cs::State st; long double l = 0;
    cs::log.push_back(std::string("spkezr ") + t + " " + ref + " " + ab + " " + obs);
    if (!cs::eph || !cs::eph(t, et, ref, ab, obs, st, l)) { cs::err("SPICE(SPKINSUFFDATA)", std::string("Insufficient ephemeris data for ") + t); return; }
    for (int i = 0; i < 3; ++i) { s[i] = (double)st.p[i]; s[i + 3] = (double)st.v[i]; } *lt = (double)l;
}
inline void pxform_c(const char* f, const char* t, double et, double r[3][3])
{
    ++cs::calls; if (cs::failed) return; cs::Attitude a; cs::log.push_back(std::string("pxform ") + f + " " + t);
    if (!cs::att || !cs::att(f, t, et, a)) { cs::err("SPICE(UNKNOWNFRAME)", std::string("frame ") + f + "/" + t); return; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = (double)a.r[i][j];
}
inline void sxform_c(const char* f, const char* t, double et, double x[6][6])
{
    ++cs::calls; if (cs::failed) return; cs::Attitude a; cs::log.push_back(std::string("sxform ") + f + " " + t);
    if (!cs::att || !cs::att(f, t, et, a)) { cs::err("SPICE(UNKNOWNFRAME)", std::string("frame ") + f + "/" + t); return; }
    // dR/dt = -R [w]x  (R maps FROM to TO, w in FROM axes)
    auto& w = a.w; long double W[3][3] = {{0, -w[2], w[1]}, {w[2], 0, -w[0]}, {-w[1], w[0], 0}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { long double d = 0; for (int k = 0; k < 3; ++k) d -= a.r[i][k] * W[k][j];
        x[i][j] = x[i + 3][j + 3] = (double)a.r[i][j]; x[i][j + 3] = 0; x[i + 3][j] = (double)d; }
}
inline void xf2rav_c(const double x[6][6], double r[3][3], double av[3])
{
    double o[3][3]; // DROT^T * ROT = [w]x in FROM axes
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = x[i][j]; o[i][j] = 0; for (int k = 0; k < 3; ++k) o[i][j] += x[k + 3][i] * x[k][j]; }
    av[0] = o[2][1]; av[1] = o[0][2]; av[2] = o[1][0];
}
inline void conics_c(const double e[8], double et, double s[6])
{
    ++cs::calls; if (cs::failed) return; long double rp = e[0], ec = e[1], inc = e[2], ln = e[3], ap = e[4], m0 = e[5], t0 = e[6], mu = e[7];
    if (mu <= 0) { cs::err("SPICE(NONPOSITIVEMASS)", "mu"); return; } if (ec < 0) { cs::err("SPICE(BADECCENTRICITY)", "ecc"); return; } if (rp <= 0) { cs::err("SPICE(BADPERIAPSEVALUE)", "rp"); return; }
    long double dt = et - t0, x, y, vx, vy;
    if (ec < 1) { long double a = rp / (1 - ec), n = std::sqrt(mu / (a * a * a)), M = std::remainder(m0 + n * dt, 2 * 3.14159265358979323846264338327950288L), E = M + ec * std::sin(M);
        for (int k = 0; k < 200; ++k) { long double dE = (E - ec * std::sin(E) - M) / (1 - ec * std::cos(E)); if (dE > 1) dE = 1; if (dE < -1) dE = -1; E -= dE; if (std::fabs(dE) < 1e-18L) break; }
        long double b = a * std::sqrt(1 - ec * ec), Ed = n / (1 - ec * std::cos(E)); x = a * (std::cos(E) - ec); y = b * std::sin(E); vx = -a * std::sin(E) * Ed; vy = b * std::cos(E) * Ed; }
    else if (ec > 1) { long double a = rp / (ec - 1), n = std::sqrt(mu / (a * a * a)), M = m0 + n * dt, H = std::asinh(M / ec);
        for (int k = 0; k < 200; ++k) { long double d = (ec * std::sinh(H) - H - M) / (ec * std::cosh(H) - 1); H -= d; if (std::fabs(d) < 1e-18L) break; }
        long double b = a * std::sqrt(ec * ec - 1), Hd = n / (ec * std::cosh(H) - 1); x = a * (ec - std::cosh(H)); y = b * std::sinh(H); vx = -a * std::sinh(H) * Hd; vy = b * std::cosh(H) * Hd; }
    else { long double p = 2 * rp, n = std::sqrt(mu / (2 * rp * rp * rp)), M = m0 + n * dt, A = 1.5L * M, B = std::cbrt(A + std::sqrt(A * A + 1)), D = B - 1 / B, Dd = n / (1 + D * D); x = p / 2 * (1 - D * D); y = p * D; vx = -p * D * Dd; vy = p * Dd; }
    long double cO = std::cos(ln), sO = std::sin(ln), ci = std::cos(inc), si = std::sin(inc), cw = std::cos(ap), sw = std::sin(ap);
    long double P[3] = {cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si}, Q[3] = {-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si};
    for (int i = 0; i < 3; ++i) { s[i] = (double)(x * P[i] + y * Q[i]); s[i + 3] = (double)(vx * P[i] + vy * Q[i]); }
}
}
