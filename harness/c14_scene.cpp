// C14: global states of random scene trees against a long-double composition and its time derivatives.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
struct PosCb : PositionCallback { Move m; V boom; PosCb(Move m_, V b) : m(m_), boom(b) {} void evaluate(const Time& t, const Rotation<double>& r, const Vec3<double>& w) override { auto o = r * dv(boom); position = dv(m.at(t.et(), T0)) + o; velocity = dv(m.vel(t.et(), T0)) + glm::cross(w, o); } };
struct RotCb : RotationCallback { Spin s; RotCb(Spin x) : s(x) {} void evaluate(const Time& t, const Vec3<double>&, const Vec3<double>&) override { rotation = dr(s.at(t.et(), T0)); angular_velocity = dv(s.om(t.et(), T0)); } };
struct StCb : StateCallback { Move m; Spin s; StCb(Move a, Spin b) : m(a), s(b) {} void evaluate(const Time& t) override { state.position = dv(m.at(t.et(), T0)); state.velocity = dv(m.vel(t.et(), T0)); state.rotation = dr(s.at(t.et(), T0)); state.angular_velocity = dv(s.om(t.et(), T0)); } };
struct Kep { L a, e, i, O, w, M0, t0, mu; V at(L t) const { L n = std::sqrt(mu / (a * a * a)), m = M0 + n * (t - t0), E = m; for (int k = 0; k < 60; ++k) E -= (E - e * std::sin(E) - m) / (1 - e * std::cos(E)); V p = {a * (std::cos(E) - e), a * std::sqrt(1 - e * e) * std::sin(E), 0}; return 1000 * app(mul(turn({0, 0, 1}, O), mul(turn({1, 0, 0}, i), turn({0, 0, 1}, w))), p); } };
enum PM { P_MAN, P_SPICE, P_CB, P_KEP, P_ST }; enum RM { R_MAN, R_SPICE, R_CB, R_UP, R_DOWN, R_ST };
static const char* PN[] = {"manual", "spice", "callback", "kepler", "state"}; static const char* RN[] = {"manual", "spice", "callback", "nadir-up", "nadir-down", "state"};
struct N { std::shared_ptr<FrameNode<S>> n; std::unique_ptr<FrameHandle<S>> h; int parent = -1; std::vector<int> kids; PM pm = P_MAN; RM rm = R_MAN; V p{}, v{}, w{}; M r = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; bool body = false; L s = 1; int so = -1, sf = -1; Move mv, stm; Spin sp, sts; V boom{}; Kep k{}; };
static std::vector<N> T; static L EP = 0;
static std::vector<Move> orbs; static std::vector<Spin> frs;
struct G { V p{}; M r{}; L s = 1; };
static M eye() { return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
static M attLP(int k, L t) { return k < 0 ? eye() : frs[(size_t)k].at(t, T0); }
static V orb(int k, L t) { return k < 0 ? V{} : 1000 * orbs[(size_t)k].at(t, T0); }
static G glob(int i, L t);
static M locR(const N& n, L t); static V locP(int i, L t);
template <class F> static auto deriv(F f, L t) { const L h = 1 / 512.L; return (1 / (12 * h)) * (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))); }
static M locR(const N& n, L t) { // modes that do not depend on position
    switch (n.rm) { case R_MAN: { L a = len(n.w); M d = a == 0 ? eye() : turn(n.w, a * (t - EP)); return n.body ? mul(n.r, d) : mul(d, n.r); } case R_CB: return n.sp.at(t, T0); case R_ST: return n.sts.at(t, T0); default: return eye(); }
}
static M nadir(const V& p, const V& v, bool up) { V z = ((up ? 1 : -1) / len(p)) * p, x = cross(v, z); x = (1 / len(x)) * x; V y = cross(z, x); M m; for (size_t i = 0; i < 3; ++i) { m[i][0] = x[i]; m[i][1] = y[i]; m[i][2] = z[i]; } return m; }
static G glob(int i, L t)
{
    const N& n = T[(size_t)i]; G g; bool ps = n.pm == P_SPICE, rs = n.rm == R_SPICE;
    if (ps && rs) { g.p = orb(n.so, t); g.r = attLP(n.sf, t); g.s = n.s; return g; }
    G P = glob(n.parent, t); g.s = P.s * n.s;
    if (rs) g.r = attLP(n.sf, t); else if (n.rm != R_UP && n.rm != R_DOWN) g.r = mul(P.r, locR(n, t)); else g.r = mul(P.r, nadir(locP(i, t), n.pm == P_MAN ? n.v : n.pm == P_CB ? n.mv.vel(t, T0) : deriv([&](L q) { return locP(i, q); }, t), n.rm == R_UP));
    g.p = ps ? orb(n.so, t) : P.p + P.s * app(P.r, locP(i, t)); return g;
}
static V locP(int i, L t)
{
    const N& n = T[(size_t)i];
    switch (n.pm) { case P_MAN: return n.p + (t - EP) * n.v; case P_KEP: return n.k.at(t); case P_ST: return n.stm.at(t, T0); case P_CB: { V o = n.mv.at(t, T0); if (len(n.boom) > 0) { M r = n.rm == R_SPICE ? mul(tr(glob(n.parent, t).r), attLP(n.sf, t)) : locR(n, t); o = o + app(r, n.boom); } return o; } case P_SPICE: { G P = glob(n.parent, t); return (1 / P.s) * app(tr(P.r), orb(n.so, t) - P.p); } } return {};
}
static bool allowed(const N& n) { // combinations whose meaning the documentation leaves open are not built
    bool nad = n.rm == R_UP || n.rm == R_DOWN; if (nad) { if (n.pm == P_SPICE || (n.pm == P_CB && (len(n.boom) > 0 || len(n.mv.c) > 0 || len(cross(n.mv.a, n.mv.b)) < .1L * len(n.mv.a) * len(n.mv.b))) || n.pm == P_ST) return false; if (n.pm == P_MAN && len(cross(n.p, n.v)) <= dot(n.v, n.v)) return false; }
    if (n.pm == P_CB && len(n.boom) > 0 && n.rm == R_CB) return false; return true;
}
static void check(int i, const char* after)
{
    const N& n = T[(size_t)i]; for (int k = i; k > 0; k = T[(size_t)k].parent) if (!allowed(T[(size_t)k])) return;
    Time ep = Time::from_et((double)EP), t = Time::from_et((double)EP + (R.chance(.2) ? 0 : R.u(-200, 200))); L te = t.et(); for (int k = 0; k < 8; ++k) t = Time::from_et(t.et()); if (Time::from_et(t.et()).et() != t.et()) return; Transform<double> o; o.position = dv(rv(1e7)); o.velocity = dv(rv(1e4));
    L ps = 0, vs = 0, ws = 0; uint64_t h = 7; std::string path; for (int k = i; k >= 0; k = T[(size_t)k].parent) { const N& q = T[(size_t)k]; path += vh::fmt(" %s/%s", PN[q.pm], RN[q.rm]); h = vh::hash(h, (int)q.pm, (int)q.rm, (int)q.body); }
    vh::cur("%s", path.c_str()); Transform<double> g;
    try { g = n.n->get_apparent_transform(ObservationMode::TRUE_STATE, ep, t, o); } catch (const std::exception& e) { VH_FAIL("state-throws", "after %s:%s: %s", after, path.c_str(), e.what()); return; }
    G x = glob(i, te); for (int k = i; k >= 0; k = T[(size_t)k].parent) { const N& q = T[(size_t)k]; V p = k ? locP(k, te) : V{}; G P = k ? glob(q.parent, te) : G{}; ps += P.s * (len(p) + len(q.boom) + len(q.mv.a) + len(q.mv.b) + len(q.mv.c)) + len(glob(k, te).p) + len(q.v) * std::fabs(te - EP); vs += P.s * len(k ? deriv([&](L z) { return locP(k, z); }, te) : V{}) + len(deriv([&](L z) { return glob(k, z).p; }, te)); ws += 2 + len(q.w); }
    M D = [&] { M a = glob(i, te + 1 / 512.L).r, b = glob(i, te - 1 / 512.L).r, c = glob(i, te + 1 / 256.L).r, d = glob(i, te - 1 / 256.L).r, m{}; for (size_t u = 0; u < 3; ++u) for (size_t w = 0; w < 3; ++w) m[u][w] = (8 * (a[u][w] - b[u][w]) - (c[u][w] - d[u][w])) / (12 / 512.L); return m; }(); M W = mul(D, tr(x.r)); V om = {W[2][1], W[0][2], W[1][0]}, ve = deriv([&](L z) { return glob(i, z).p; }, te); L scale = ps;
    vh::ev(); vh::distinct(vh::hash(h, (double)te)); vh::count(PN[n.pm]); vh::count(RN[n.rm]); vh::count(vh::fmt("depth-%d", (int)std::count(path.begin(), path.end(), ' ')).c_str());
    bool nad = path.find("nadir") != std::string::npos; if (nad) for (int q = i; q > 0; q = T[(size_t)q].parent) if (T[(size_t)q].rm == R_UP || T[(size_t)q].rm == R_DOWN) { V u = locP(q, te), w = deriv([&](L z) { return locP(q, z); }, te); if (len(cross(u, w)) < dot(w, w) || len(w) > len(u) || len(cross(u, w)) < .05L * len(u) * len(w)) return; } L k = nad ? 1e-9L : 1e-12L, rt = nad ? 1e-10L : 2e-12L;
    L ep1 = len(lv(g.position) - x.p); VH_CHECK(ep1 <= k * scale + 1e-9L, "position", "after %s:%s: position (%.9g %.9g %.9g), composed (%.9g %.9g %.9g)", after, path.c_str(), g.position.x, g.position.y, g.position.z, (double)x.p[0], (double)x.p[1], (double)x.p[2]);
    M gr = lm(g.rotation); L e = 0; for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) e = std::max(e, std::fabs(gr[a][b] - x.r[a][b])); VH_CHECK(e <= rt, "rotation", "after %s:%s: attitude off by %.3Lg rad", after, path.c_str(), e);
    VH_CHECK(len(lv(g.velocity) - ve) <= 1e-9L * (scale * ws + vs), "velocity", "after %s:%s: velocity (%.9g %.9g %.9g), the position moves at (%.9g %.9g %.9g)", after, path.c_str(), g.velocity.x, g.velocity.y, g.velocity.z, (double)ve[0], (double)ve[1], (double)ve[2]);
    VH_CHECK(len(lv(g.angular_velocity) - om) <= 1e-8L * ws, "angular-velocity", "after %s:%s: angular velocity (%.9g %.9g %.9g), the attitude turns at (%.9g %.9g %.9g)", after, path.c_str(), g.angular_velocity.x, g.angular_velocity.y, g.angular_velocity.z, (double)om[0], (double)om[1], (double)om[2]);
    if (!(n.pm == P_SPICE && n.rm == R_SPICE && n.s == 1)) VH_CHECK(std::fabs(g.scale.x - x.s) <= 1e-12L * x.s && g.scale.y == g.scale.x && g.scale.z == g.scale.x, "scale", "after %s:%s: scale %.9g, composed %.9Lg", after, path.c_str(), g.scale.x, x.s);
    if (n.pm == P_SPICE) VH_CHECK(len(lv(g.position) - orb(n.so, te)) <= 1e-14L * len(orb(n.so, te)) + 1e-9L, "ephemeris-position", "after %s:%s: not where the ephemeris puts it", after, path.c_str());
}
static void getters(int i, const char* after)
{
    const N& n = T[(size_t)i]; if (i == 0) return; auto& f = *n.n; auto thr = [](auto fn) { try { fn(); return false; } catch (const std::exception&) { return true; } }; vh::ev();
    VH_CHECK(f.get_position_mode() == (n.pm == P_MAN ? TransformMode::MANUAL_TRANSFORM : n.pm == P_SPICE ? TransformMode::SPICE_TRANSFORM : n.pm == P_ST ? TransformMode::TRANSFORM_CALLBACK : TransformMode::POSITION_CALLBACK), "position-mode", "after %s: position mode is not %s", after, PN[n.pm]);
    VH_CHECK(f.get_rotation_mode() == (n.rm == R_MAN ? TransformMode::MANUAL_TRANSFORM : n.rm == R_SPICE ? TransformMode::SPICE_TRANSFORM : n.rm == R_ST ? TransformMode::TRANSFORM_CALLBACK : TransformMode::ROTATION_CALLBACK), "rotation-mode", "after %s: rotation mode is not %s", after, RN[n.rm]);
    auto is = [&](bool ok, const char* g, auto fn) { bool t = thr(fn); VH_CHECK(t == !ok, "getter-mode", "after %s (%s/%s): %s %s", after, PN[n.pm], RN[n.rm], g, t ? "refuses a value that was set" : "answers although the node is not in that mode"); };
    is(n.pm == P_MAN, "get_static_position", [&] { if (lv(f.get_static_position()) != n.p || lv(n.h->get_static_position()) != n.p) VH_FAIL("getter-value", "position is not what was set"); });
    is(n.pm == P_MAN, "get_static_velocity", [&] { if (lv(n.h->get_static_velocity()) != n.v) VH_FAIL("getter-value", "velocity is not what was set"); });
    is(n.rm == R_MAN, "get_static_rotation", [&] { M m = lm(n.h->get_static_rotation()); for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) if (std::fabs(m[a][b] - n.r[a][b]) > 4e-16L) { VH_FAIL("getter-value", "rotation is not what was set"); return; } });
    is(n.rm == R_MAN, "get_static_angular_velocity", [&] { if (lv(f.get_static_angular_velocity()) != n.w || lv(n.h->get_static_angular_velocity()) != n.w) VH_FAIL("getter-value", "angular velocity is not what was set"); });
    is(n.pm == P_SPICE, "get_spice_origin", [&] { if (f.get_spice_origin() != vh::fmt("ORB%d", n.so) || n.h->get_spice_origin() != f.get_spice_origin()) VH_FAIL("getter-value", "origin %s, set ORB%d", f.get_spice_origin().c_str(), n.so); });
    is(n.rm == R_SPICE, "get_spice_frame", [&] { if (n.h->get_spice_frame() != vh::fmt("FR%d", n.sf)) VH_FAIL("getter-value", "frame %s, set FR%d", f.get_spice_frame().c_str(), n.sf); });
    VH_CHECK(lv(f.get_static_scale()) == (V{n.s, n.s, n.s}) && lv(n.h->get_static_scale()) == (V{n.s, n.s, n.s}), "getter-value", "scale is not what was set");
    VH_CHECK(n.h->get_parent().id() == T[(size_t)n.parent].n->id(), "parent", "wrong parent");
}
static void one(const N& n0, int i) // one setter on node i
{
    (void)n0; N& n = T[(size_t)i]; auto f = n.n; auto& h = *n.h; bool kp = false, kr = false; for (int c : n.kids) { kp |= T[(size_t)c].pm == P_SPICE; kr |= T[(size_t)c].rm == R_SPICE; } bool pp = n.parent < 0 || T[(size_t)n.parent].pm == P_SPICE, pr = n.parent < 0 || T[(size_t)n.parent].rm == R_SPICE;
    std::string what; auto run = [&](bool ok, const char* nm, auto fn) { what = nm; bool t = false; std::string m; try { fn(); } catch (const std::exception& e) { t = true; m = e.what(); } VH_CHECK(t == !ok, "setter", "%s on a %s/%s node %s %s", nm, PN[n.pm], RN[n.rm], t ? "throws" : "is accepted although it contradicts the graph", m.c_str()); return ok && !t; };
    auto uM = [](L x) { return units::Meter((double)x); }; auto uV = [](L x) { return units::MetersPerSecond((double)x); }; auto uW = [](L x) { return units::RadiansPerSecond((double)x); };
    switch (R.below(20)) {
    case 0: case 1: { V p = rv((L)R.lu(.1, 1e7)); if (run(!kp, "set_position", [&] { if (R.chance(.5)) f->set_position(dv(p)); else h.set_position(uM(p[0]), uM(p[1]), uM(p[2])); })) { n.p = p; n.pm = P_MAN; } break; }
    case 2: { V v = rv((L)R.lu(1e-3, 1e4)); if (run(n.pm == P_MAN, "set_velocity", [&] { if (R.chance(.5)) f->set_velocity(dv(v)); else h.set_velocity(uV(v[0]), uV(v[1]), uV(v[2])); })) n.v = v; break; }
    case 3: case 4: { M m = rrot(); int k = R.i(0, 7); V ax = rv(1); double deg = R.u(-170, 170); double ea[3] = {R.u(-3, 3), R.u(-1.5, 1.5), R.u(-3, 3)}; static const std::vector<std::string> SEQ{"XYZ", "ZYX", "ZXZ", "YXZ", "XZX"}; std::string seq = R.pick(SEQ); auto E = [&](size_t j) { V u{}; u[(size_t)(seq[j] - 'X')] = 1; return turn(u, (L)ea[j]); }; if (k == 3) m = turn(ax, (L)deg * 3.14159265358979323846264L / 180); else if (k == 6) m = turn(ax, -(L)deg * 3.14159265358979323846264L / 180); else if (k == 7) m = mul(E(2), mul(E(1), E(0))); if (run(!kr, "set_rotation", [&] { auto r = dr(m); if (k == 0) f->set_rotation(r); else if (k == 1) h.set_rotation_local_to_parent(r.local_to_parent_matrix()); else if (k == 2) h.set_rotation_parent_to_local(r.parent_to_local_quaternion()); else if (k == 3) h.set_rotation_local_to_parent(dv(ax), units::Degree(deg)); else if (k == 4) h.set_rotation_local_to_parent(r.local_to_parent_quaternion()); else if (k == 5) h.set_rotation_parent_to_local(r.parent_to_local_matrix()); else if (k == 6) h.set_rotation_parent_to_local(dv(ax), units::Degree(deg)); else h.set_euler_angles(units::Radian(ea[0]), units::Radian(ea[1]), units::Radian(ea[2]), seq); })) { M got = f->get_rotation_mode() == TransformMode::MANUAL_TRANSFORM ? lm(f->get_static_rotation()) : eye(); L e = 0; for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) e = std::max(e, std::fabs(got[a][b] - m[a][b])); VH_CHECK(e < 4e-15L, "getter-value", "rotation set by form %d off by %Lg", k, e); n.r = got; n.rm = R_MAN; } break; }
    case 5: case 6: { V w = R.chance(.1) ? V{} : rv((L)R.lu(1e-6, .5)); int k = R.i(0, 2); if (run(n.rm == R_MAN, k == 2 ? "set_body_angular_velocity" : "set_angular_velocity", [&] { if (k == 0) f->set_angular_velocity(dv(w)); else if (k == 1) h.set_angular_velocity(uW(w[0]), uW(w[1]), uW(w[2])); else h.set_body_angular_velocity(uW(w[0]), uW(w[1]), uW(w[2])); })) { n.w = w; n.body = k == 2; } break; }
    case 7: { bool sk = false; for (int c : n.kids) sk |= T[(size_t)c].pm == P_SPICE && T[(size_t)c].rm == R_SPICE; if (sk || (n.pm == P_SPICE && n.rm == R_SPICE && pp && pr)) return; double s = R.lu(.1, 10); run(true, "set_scale", [&] { if (R.chance(.5)) h.set_scale(s); else f->set_scale(Vec3<double>{s, s, s}); }); n.s = s; break; }
    case 8: { Transform<double> t; V p = rv(1e3), v = rv(10), w = rv(.1); M m = rrot(); t.position = dv(p); t.velocity = dv(v); t.angular_velocity = dv(w); t.rotation = dr(m); t.scale = {n.s, n.s, n.s}; if (run(!kp && !kr, "set_manual_transform", [&] { f->set_manual_transform(t); })) { n.p = p; n.v = v; n.w = w; n.r = lm(t.rotation); n.body = false; n.pm = P_MAN; n.rm = R_MAN; } break; }
    case 9: case 10: { int k = R.i(0, (int)orbs.size() - 1); if (run(pp, "set_spice_origin", [&] { h.set_spice_origin(vh::fmt("ORB%d", k)); })) { n.so = k; n.pm = P_SPICE; } break; }
    case 11: case 12: { int k = R.i(0, (int)frs.size() - 1); if (run(pr, "set_spice_frame", [&] { h.set_spice_frame(vh::fmt("FR%d", k)); })) { n.sf = k; n.rm = R_SPICE; } break; }
    case 13: { int a = R.i(0, (int)orbs.size() - 1), b = R.i(0, (int)frs.size() - 1); if (run(pp && pr, "set_spice", [&] { h.set_spice(vh::fmt("ORB%d", a), vh::fmt("FR%d", b)); })) { n.so = a; n.sf = b; n.pm = P_SPICE; n.rm = R_SPICE; } break; }
    case 14: case 15: { n.mv = rmove(); if (R.chance(.5)) n.mv.c = {}; n.boom = R.chance(.5) ? V{} : rv(1e3); f->set_custom_position_callback<PosCb>(n.mv, n.boom); n.pm = P_CB; what = "set_custom_position_callback"; break; }
    case 16: { n.sp = rspin(); f->set_custom_rotation_callback<RotCb>(n.sp); n.rm = R_CB; what = "set_custom_rotation_callback"; break; }
    case 17: { n.stm = rmove(); n.sts = rspin(); f->set_custom_state_callback<StCb>(n.stm, n.sts); n.pm = P_ST; n.rm = R_ST; what = "set_custom_state_callback"; break; }
    case 18: { double a = R.lu(1e6, 1e7), e = R.u(0, .6), i2 = R.u(0, 3.1), O = R.u(0, 6.2), w = R.u(0, 6.2), m = R.u(-3, 3); Time t0 = Time::from_et((double)EP + R.u(-50, 50)); double mu = R.lu(1e4, 1e7); f->set_keplerian_orbit(units::Meter(a), e, units::Radian(i2), units::Radian(O), units::Radian(w), units::Radian(m), t0, mu); n.k = {(L)a / 1000, e, i2, O, w, m, t0.et(), mu}; n.pm = P_KEP; what = "set_keplerian_orbit"; break; }
    case 19: { if (R.chance(.5)) { f->set_z_up_y_forward_callback(); n.rm = R_UP; } else { f->set_z_down_y_forward_callback(); n.rm = R_DOWN; } what = "set_z_*_callback"; break; }
    }
    vh::count(what.c_str()); getters(i, what.c_str()); check(i, what.c_str()); if (!n.kids.empty()) check(R.pick(n.kids), what.c_str());
}
static void tree()
{
    Scene<S> scene; T.clear(); orbs.clear(); frs.clear(); for (int i = 0; i < 6; ++i) { Move m = rmove(); m.c = rv((L)R.lu(1, 1e8)); orbs.push_back(m); frs.push_back(rspin()); }
    Time ep = Time::from_et(R.chance(.2) ? 0 : R.u(-9e8, 2e9)); for (int k = 0; k < 8; ++k) ep = Time::from_et(ep.et()); EP = T0 = (L)ep.et();
    N root; root.h = nullptr; root.n = scene.root.get(); root.pm = P_SPICE; root.rm = R_SPICE; T.push_back(std::move(root)); int nn = R.i(2, 8);
    for (int i = 1; i <= nn; ++i) { int p = R.chance(.5) ? i - 1 : R.i(0, i - 1); N c; c.parent = p; bool sp = T[(size_t)p].pm == P_SPICE && T[(size_t)p].rm == R_SPICE && R.chance(.5); FrameHandle<S> ph = p ? *T[(size_t)p].h : FrameHandle<S>(std::weak_ptr<FrameNode<S>>(T[0].n)); if (sp) { c.so = R.i(0, 5); c.sf = R.i(0, 5); c.pm = P_SPICE; c.rm = R_SPICE; c.h = std::make_unique<FrameHandle<S>>(ph.new_spice_subframe(vh::fmt("ORB%d", c.so), vh::fmt("FR%d", c.sf))); } else c.h = std::make_unique<FrameHandle<S>>(ph.new_subframe()); c.n = c.h->get(); T.push_back(std::move(c)); T[(size_t)p].kids.push_back(i); getters(i, "creation"); check(i, "creation"); if (R.chance(.8)) one(T[0], i); }
    for (int k = R.i(5, 40); k-- > 0;) one(T[0], R.i(1, nn)); for (int i = 0; i <= nn; ++i) check(i, "all"); vh::sample(vh::fmt("%d nodes", nn + 1));
}
static void body()
{
    R = vh::Rng(vh::seed() * 7919 + 3); cs::action = "RETURN"; vh::watchdog(120);
    auto idx = [](const std::string& s, const char* p) { return s.rfind(p, 0) == 0 ? std::atoi(s.c_str() + std::strlen(p)) : -1; };
    cs::eph = [&](const std::string& t, L et, const std::string& ref, const std::string&, const std::string& ob, cs::State& s, L& lt) { if (ref != "J2000") { cs::err("SPICE(UNKNOWNFRAME)", ref); return false; } auto kt = idx(t, "ORB"), ko = idx(ob, "ORB"); V a = kt < 0 ? V{} : orbs[(size_t)kt].at(et, T0), b = ko < 0 ? V{} : orbs[(size_t)ko].at(et, T0); s.p = a - b; s.v = (kt < 0 ? V{} : orbs[(size_t)kt].vel(et, T0)) - (ko < 0 ? V{} : orbs[(size_t)ko].vel(et, T0)); lt = len(s.p) / 299792.458L; return true; };
    cs::att = [&](const std::string& f, const std::string& t, L et, cs::Attitude& o) { int a = idx(f, "FR"), b = idx(t, "FR"); M ra = attLP(a, et), rb = attLP(b, et); V wa = a < 0 ? V{} : frs[(size_t)a].om(et, T0), wb = b < 0 ? V{} : frs[(size_t)b].om(et, T0); o.r = mul(tr(rb), ra); o.w = app(tr(ra), wb - wa); return true; };
    for (int i = 0, m = vh::n(1200, 30000); i < m; ++i) tree();
}
VH_MAIN(body())
