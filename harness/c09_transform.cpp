// C09: placements against an independent long-double model of moving frames (closed form + central differences).
#include "vh.hpp"
#include "huira/core/transform.hpp"
#include "huira/units/units.hpp"
using namespace huira;
using LD = long double;
static vh::Rng R(1);
struct V { LD x[3]; };
static V operator+(V a, V b) { for (int i = 0; i < 3; ++i) a.x[i] += b.x[i]; return a; }
static V operator-(V a, V b) { for (int i = 0; i < 3; ++i) a.x[i] -= b.x[i]; return a; }
static V operator*(LD k, V a) { for (auto& e : a.x) e *= k; return a; }
static V cr(V a, V b) { return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}}; }
static LD nrm(V a) { return std::sqrt(a.x[0] * a.x[0] + a.x[1] * a.x[1] + a.x[2] * a.x[2]); }
struct M { V c[3]; };
static V operator*(const M& m, V v) { return v.x[0] * m.c[0] + v.x[1] * m.c[1] + v.x[2] * m.c[2]; }
static M operator*(const M& a, const M& b) { return {{a * b.c[0], a * b.c[1], a * b.c[2]}}; }
static M tr(const M& a) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.c[i].x[j] = a.c[j].x[i]; return r; }
static M rotv(V w, LD t) // exp([w]x t)
{
    LD n = nrm(w); M r; V e[3] = {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
    if (n == 0) return {{e[0], e[1], e[2]}};
    V k = (1 / n) * w; LD c = std::cos(n * t), s = std::sin(n * t);
    for (int i = 0; i < 3; ++i) r.c[i] = c * e[i] + s * cr(k, e[i]) + ((1 - c) * k.x[i]) * k;
    return r;
}
// a frame with constant velocity and angular velocity around t = 0
struct F { V p, v, w; M r; LD s; M rot(LD t) const { return rotv(w, t) * r; } V pos(LD t) const { return p + t * v; } V at(LD t, V q) const { return pos(t) + s * (rot(t) * q); } };
template <class T> V lv(const Vec3<T>& v) { return {{(LD)v.x, (LD)v.y, (LD)v.z}}; }
template <class T> Vec3<T> gv(V v) { return Vec3<T>((T)v.x[0], (T)v.x[1], (T)v.x[2]); }
template <class T> M lm(const Rotation<T>& r) { auto m = r.local_to_parent_matrix(); return {{lv<T>(m[0]), lv<T>(m[1]), lv<T>(m[2])}}; }
static V rv(double m) { return {{R.gauss() * m, R.gauss() * m, R.gauss() * m}}; }

template <class T> Transform<T> gen(F& f)
{
    double m = R.chance(.5) ? 1 : R.lu(1e-2, 1e3);
    Transform<T> t;
    t.position = gv<T>(rv(m)); t.rotation = Rotation<T>::from_local_to_parent(gv<T>(rv(1)) + Vec3<T>((T)1e-3, 0, 0), units::Radian(R.chance(.1) ? 0.0 : R.u(-7, 7)));
    T s = R.chance(.4) ? (T)1 : (T)R.lu(.01, 100); t.scale = Vec3<T>(s, s, s);
    t.velocity = R.chance(.2) ? Vec3<T>(0, 0, 0) : gv<T>(rv(m)); t.angular_velocity = R.chance(.2) ? Vec3<T>(0, 0, 0) : gv<T>(rv(1));
    f = {lv<T>(t.position), lv<T>(t.velocity), lv<T>(t.angular_velocity), lm<T>(t.rotation), (LD)t.scale.x};
    return t;
}
template <class T> void run(long n)
{
    const char* tn = std::is_same_v<T, float> ? "float" : "double";
    const LD eps = std::is_same_v<T, float> ? 2e-6L : 1e-14L, deps = std::max(eps, (LD)1e-9L);
    auto close = [&](V g, V w, LD scale, LD tol, const char* key) {
        vh::ev();
        LD d = nrm(g - w);
        VH_CHECK(d <= tol * std::max(scale, nrm(w)) + 1e-30L, key, "%s: got (%.15Lg %.15Lg %.15Lg) want (%.15Lg %.15Lg %.15Lg) diff %.3Lg scale %.3Lg", tn, g.x[0], g.x[1], g.x[2], w.x[0], w.x[1], w.x[2], d, scale);
    };
    for (long it = 0; it < n; ++it) {
        F fa, fb, fc; auto a = gen<T>(fa), b = gen<T>(fb), c = gen<T>(fc);
        Vec3<T> q = gv<T>(rv(R.lu(.01, 100))), d = gv<T>(rv(1)); V lq = lv<T>(q), ld = lv<T>(d);
        vh::distinct(vh::hash(a.position.x, b.position.y, a.scale.x, q.x));
        vh::cur("a=%s b=%s q=%s", a.to_string().c_str(), b.to_string().c_str(), glm::to_string(q).c_str());
        { // the text names every part, in order
            std::string t = a.to_string(); size_t at = 0; int part = 0;
            for (const std::string& w : {glm::to_string(a.position), a.rotation.to_string(), glm::to_string(a.scale), glm::to_string(a.velocity), glm::to_string(a.angular_velocity)}) { size_t f = t.find(w, at); if (f == std::string::npos) { VH_FAIL("to-string", "part %d (%s) is not in '%s'", part, w.c_str(), t.c_str()); break; } at = f + w.size(); ++part; }
        }
        // single placement
        LD sc = nrm(fa.p) + fa.s * nrm(lq);
        close(lv<T>(a.apply_to_point(q)), fa.at(0, lq), sc, eps * 4, "apply-to-point");
        close(lv<T>(a.apply_to_direction(d)), fa.s * (fa.r * ld), 0, eps * 4, "apply-to-direction");
        { // point moving through the local origin
            LD h = 1e-6L; V want = (1 / (2 * h)) * (fa.at(h, h * ld) - fa.at(-h, -h * ld));
            close(lv<T>(a.apply_to_velocity(d)), want, nrm(fa.v) + fa.s * nrm(ld), deps * 40, "apply-to-velocity");
            close(lv<T>(a.apply_to_angular_velocity(d)), fa.w + fa.r * ld, nrm(fa.w), eps * 4, "apply-to-angular-velocity");
        }
        { // body-fixed point
            LD h = 1e-6L; V want = (1 / (2 * h)) * (fa.at(h, lq) - fa.at(-h, lq));
            LD s2 = nrm(fa.v) + nrm(fa.w) * fa.s * nrm(lq) + (std::is_same_v<T, float> ? nrm(fa.w) * nrm(fa.p) : 0);
            close(lv<T>(a.velocity_of_local_point(q)), want, s2, deps * 100, "velocity-of-local-point");
            close(lv<T>(a.velocity_of_point(a.apply_to_point(q))), want, s2 + nrm(fa.w) * nrm(fa.p) * (LD)1e-6, deps * 100, "velocity-of-point");
        }
        { // matrix form
            Mat4<T> m = a.to_matrix(); auto h = m * Vec4<T>(q, (T)1), h0 = m * Vec4<T>(d, (T)0);
            close(lv<T>(Vec3<T>(h)), fa.at(0, lq), sc, eps * 8, "matrix-point"); close(lv<T>(Vec3<T>(h0)), fa.s * (fa.r * ld), 0, eps * 8, "matrix-direction");
            VH_CHECK(h.w == (T)1 && h0.w == (T)0, "matrix-homogeneous", "%s w=%g %g", tn, (double)h.w, (double)h0.w);
            // non-uniform scale: T * R * S
            Transform<T> u = a; u.scale = Vec3<T>((T)R.lu(.1, 10), (T)R.lu(.1, 10), (T)R.lu(.1, 10));
            auto hu = u.to_matrix() * Vec4<T>(q, (T)1);
            close(lv<T>(Vec3<T>(hu)), lv<T>(u.apply_to_point(q)), nrm(fa.p) + 10 * nrm(lq), eps * 8, "matrix-nonuniform");
            { // a child placed in a non-uniformly scaled, moving, spinning parent: its origin and the motion of its origin
                auto ub = u * b; V us = lv<T>(u.scale), pb = fb.p, vb = fb.v, spb{{us.x[0] * pb.x[0], us.x[1] * pb.x[1], us.x[2] * pb.x[2]}}, svb{{us.x[0] * vb.x[0], us.x[1] * vb.x[1], us.x[2] * vb.x[2]}};
                V arm = fa.r * spb, wx = fa.w; V cr{{wx.x[1] * arm.x[2] - wx.x[2] * arm.x[1], wx.x[2] * arm.x[0] - wx.x[0] * arm.x[2], wx.x[0] * arm.x[1] - wx.x[1] * arm.x[0]}};
                close(lv<T>(ub.position), fa.p + arm, nrm(fa.p) + nrm(arm), eps * 8, "compose-nonuniform-position"); close(lv<T>(ub.velocity), fa.v + fa.r * svb + cr, nrm(fa.v) + nrm(svb) + nrm(fa.w) * nrm(arm), eps * 16, "compose-nonuniform-velocity");
                Transform<T> un = u; un.rotation = Rotation<T>(); auto ui = un.inverse(); V ps{{fa.p.x[0] / us.x[0], fa.p.x[1] / us.x[1], fa.p.x[2] / us.x[2]}}; V wp{{wx.x[1] * fa.p.x[2] - wx.x[2] * fa.p.x[1], wx.x[2] * fa.p.x[0] - wx.x[0] * fa.p.x[2], wx.x[0] * fa.p.x[1] - wx.x[1] * fa.p.x[0]}}; V vi = wp - fa.v; vi = V{{vi.x[0] / us.x[0], vi.x[1] / us.x[1], vi.x[2] / us.x[2]}};
                close(lv<T>(ui.position), (LD)-1 * ps, 0, eps * 8, "inverse-nonuniform-position"); close(lv<T>(ui.velocity), vi, (nrm(fa.w) * nrm(fa.p) + nrm(fa.v)) * 10, eps * 16, "inverse-nonuniform-velocity");
            }
            auto e = u.to_embree(); // quaternion decomposition must describe the same map
            LD w = e.quaternion_r, x = e.quaternion_i, y = e.quaternion_j, z = e.quaternion_k;
            V sq{{(LD)e.scale_x * lq.x[0], (LD)e.scale_y * lq.x[1], (LD)e.scale_z * lq.x[2]}}, iv{{x, y, z}};
            V rq = sq + (2 * w) * cr(iv, sq) + 2 * cr(iv, cr(iv, sq)); V got = rq + V{{(LD)e.translation_x, (LD)e.translation_y, (LD)e.translation_z}};
            close(got, lv<T>(u.apply_to_point(q)), nrm(fa.p) + 10 * nrm(lq), 4e-6L, "embree-decomposition");
            VH_CHECK(e.skew_xy == 0 && e.skew_xz == 0 && e.skew_yz == 0 && e.shift_x == 0 && e.shift_y == 0 && e.shift_z == 0, "embree-skew", "%s", tn);
        }
        // composition
        auto ab = a * b;
        V bq = fb.at(0, lq); LD csc = nrm(fa.p) + fa.s * nrm(fb.p) + fa.s * fb.s * nrm(lq);
        close(lv<T>(ab.apply_to_point(q)), fa.at(0, bq), csc, eps * 20, "compose-point");
        close(lv<T>(ab.apply_to_direction(d)), fa.s * (fa.r * (fb.s * (fb.r * ld))), 0, eps * 20, "compose-direction");
        auto pos = [&](LD t) { return fa.at(t, fb.pos(t)); };
        LD h = 1e-6L; V pv = (1 / (2 * h)) * (pos(h) - pos(-h));
        LD vs = nrm(fa.v) + fa.s * nrm(fb.v) + nrm(fa.w) * fa.s * nrm(fb.p);
        close(lv<T>(ab.velocity), pv, vs, deps * 100, "compose-velocity");
        // angular velocity from the attitude: vee(dR/dt R^T)
        M rp = fa.rot(h) * fb.rot(h), rm = fa.rot(-h) * fb.rot(-h), dr; for (int k = 0; k < 3; ++k) dr.c[k] = (1 / (2 * h)) * (rp.c[k] - rm.c[k]);
        M om = dr * tr(fa.r * fb.r); V w{{om.c[1].x[2], om.c[2].x[0], om.c[0].x[1]}};
        close(lv<T>(ab.angular_velocity), w, nrm(fa.w) + nrm(fb.w), deps * 400, "compose-angular-velocity");
        V mv = (1 / (2 * h)) * (fa.at(h, fb.at(h, h * ld)) - fa.at(-h, fb.at(-h, -h * ld)));
        close(lv<T>(ab.apply_to_velocity(d)), mv, vs + fa.s * fb.s * nrm(ld), deps * 100, "compose-moving-point");
        V mb = (1 / (2 * h)) * (fa.at(h, fb.at(h, lq)) - fa.at(-h, fb.at(-h, lq)));
        close(lv<T>(ab.velocity_of_local_point(q)), mb, vs + (nrm(fa.w) + nrm(fb.w)) * (csc), deps * 400, "compose-body-point");
        // associativity
        auto l = (a * b) * c, r = a * (b * c);
        LD as = nrm(fa.p) + fa.s * (nrm(fb.p) + fb.s * (nrm(fc.p) + fc.s * nrm(lq)));
        close(lv<T>(l.apply_to_point(q)), lv<T>(r.apply_to_point(q)), as, eps * 40, "associative-point");
        close(lv<T>(l.velocity), lv<T>(r.velocity), nrm(lv<T>(l.velocity)) + vs + (nrm(fa.w) + nrm(fb.w)) * as + fa.s * fb.s * nrm(fc.v), eps * 40, "associative-velocity");
        close(lv<T>(l.angular_velocity), lv<T>(r.angular_velocity), nrm(fa.w) + nrm(fb.w) + nrm(fc.w), eps * 40, "associative-angular-velocity");
        // inverse
        auto inv = a.inverse();
        LD is = (nrm(fa.p) + fa.s * nrm(lq)) / fa.s, ivs = (nrm(fa.v) + nrm(fa.w) * nrm(fa.p));
        for (int side = 0; side < 2; ++side) {
            auto id = side ? a * inv : inv * a; LD S = side ? nrm(fa.p) : nrm(fa.p) / fa.s;
            close(lv<T>(id.position), {{0, 0, 0}}, S, eps * 20, "inverse-position");
            M m = lm<T>(id.rotation); for (int k = 0; k < 3; ++k) { V e{{0, 0, 0}}; e.x[k] = 1; close(m.c[k], e, 1, eps * 20, "inverse-rotation"); }
            close(lv<T>(id.scale), {{1, 1, 1}}, 1, eps * 4, "inverse-scale");
            close(lv<T>(id.velocity), {{0, 0, 0}}, side ? ivs : ivs / fa.s, eps * 40, "inverse-velocity");
            close(lv<T>(id.angular_velocity), {{0, 0, 0}}, nrm(fa.w), eps * 20, "inverse-angular-velocity");
        }
        close(lv<T>(inv.apply_to_point(a.apply_to_point(q))), lq, is, eps * 20, "inverse-undoes-point");
        // relative state of b seen from a: its velocity is the derivative of its position in a's frame
        auto rel = inv * b;
        auto rpos = [&](LD t) { return (1 / fa.s) * (tr(fa.rot(t)) * (fb.pos(t) - fa.pos(t))); };
        close(lv<T>(rel.position), rpos(0), is + nrm(fb.p) / fa.s, eps * 20, "relative-position");
        close(lv<T>(rel.velocity), (1 / (2 * h)) * (rpos(h) - rpos(-h)), (nrm(fa.v) + nrm(fb.v) + nrm(fa.w) * (nrm(fb.p) + nrm(fa.p))) / fa.s, deps * 400, "relative-velocity");
        if constexpr (std::is_same_v<T, double>) {
            auto f = static_cast<Transform<float>>(a);
            close(lv<float>(f.position), fa.p, 0, 3e-7L, "cast-position"); close(lv<float>(f.velocity), fa.v, 0, 3e-7L, "cast-velocity"); close(lv<float>(f.angular_velocity), fa.w, 0, 3e-7L, "cast-angular-velocity"); close(lv<float>(f.scale), fa.s * V{{1, 1, 1}}, 0, 3e-7L, "cast-scale");
            close(lm<float>(f.rotation).c[1], fa.r.c[1], 1, 6e-7L, "cast-rotation");
        }
    }
    Transform<T> id; Vec3<T> q(1, 2, 3);
    VH_CHECK(id.apply_to_point(q) == q && id.velocity == Vec3<T>(0) && id.angular_velocity == Vec3<T>(0), "default-identity", "%s", tn);
}
void body()
{
    R = vh::Rng(vh::seed());
    run<double>(vh::n(6000, 500000)); run<float>(vh::n(6000, 300000));
    vh::sample("two placements with scale, velocity and angular velocity: composed velocity vs central difference in long double");
}
VH_MAIN(body())
