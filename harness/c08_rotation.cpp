// C08: group and rigid-motion laws of rotations against independent long-double matrices.
#include "vh.hpp"
#include "huira/core/rotation.hpp"
#include "huira/units/units.hpp"
using namespace huira;
using LD = long double;
static vh::Rng R(1);
struct M3 { LD a[3][3]; }; // a[r][c]
static M3 mul(const M3& x, const M3& y) { M3 z{}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) z.a[i][j] += x.a[i][k] * y.a[k][j]; return z; }
static M3 tr(const M3& x) { M3 z; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) z.a[i][j] = x.a[j][i]; return z; }
static M3 axang(LD x, LD y, LD z, LD t)
{
    LD n = std::sqrt(x * x + y * y + z * z); x /= n; y /= n; z /= n;
    // Rodrigues: I + sin K + (1-cos) K^2
    M3 K{{{0, -z, y}, {z, 0, -x}, {-y, x, 0}}}, K2 = mul(K, K), r{};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = (i == j) + std::sin(t) * K.a[i][j] + (1 - std::cos(t)) * K2.a[i][j];
    return r;
}
template <class T> M3 of(const Mat3<T>& m) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = m[j][i]; return r; }
template <class T> Mat3<T> to(const M3& m) { Mat3<T> r(1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[j][i] = (T)m.a[i][j]; return r; }
static LD dist(const M3& x, const M3& y) { LD d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { LD e = std::fabs(x.a[i][j] - y.a[i][j]); if (!(e <= 1e30L)) return 1e30L; d = std::max(d, e); } return d; }
static double ang()
{
    static const double sp[] = {0, M_PI, -M_PI, M_PI / 2, -M_PI / 2, 2 * M_PI, 1e-9, M_PI - 1e-9, 1e-4, M_PI / 4, 3 * M_PI / 2};
    switch (R.below(4)) { case 0: return sp[R.below(11)]; case 1: return R.u(-20, 20); case 2: return sp[R.below(11)] + R.u(-1e-6, 1e-6); default: return R.u(-M_PI, M_PI); }
}
static double axis_min = 1e-2;
static void axis(double v[3])
{
    do { for (int i = 0; i < 3; ++i) v[i] = R.chance(.3) ? 0 : (R.chance(.3) ? R.gauss() * 1e-3 : R.gauss()); } while (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] < 1e-4);
    double s = R.chance(.5) ? 1 : R.lu(axis_min, 1e6);
    for (int i = 0; i < 3; ++i) v[i] *= s;
}
template <class T> void run(long n)
{
    const LD tol = std::is_same_v<T, float> ? 4e-6L : 4e-14L;
    const char* tn = std::is_same_v<T, float> ? "float" : "double";
    axis_min = std::is_same_v<T, float> ? 1e-4 : 1e-12; // well above the documented zero-axis threshold (epsilon) after the vector's own size (>= 1e-2)
    auto proper = [&](const Rotation<T>& r, const char* how) {
        M3 m = of<T>(r.local_to_parent_matrix());
        LD o = dist(mul(tr(m), m), M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}});
        LD det = m.a[0][0] * (m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1]) - m.a[0][1] * (m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0]) + m.a[0][2] * (m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0]);
        VH_CHECK(o <= tol && std::fabs(det - 1) <= tol, "not-orthonormal", "%s %s: |RtR-I|=%Lg det-1=%Lg", tn, how, o, det - 1);
        return m;
    };
    auto same = [&](const M3& got, const M3& want, const char* what, LD k = 1) {
        LD d = dist(got, want); vh::ev();
        VH_CHECK(d <= tol * k, what, "%s: %s deviates by %Lg", tn, what, d);
    };
    for (long it = 0; it < n; ++it) {
        double v[3], w[3]; axis(v); axis(w); double a = ang(), b = ang(), c = ang();
        vh::cur("%s axis(%.17g,%.17g,%.17g) angle %.17g; axis2(%.17g,%.17g,%.17g) %.17g, third %.17g", tn, v[0], v[1], v[2], a, w[0], w[1], w[2], b, c);
        vh::distinct(vh::hash(v[0], v[1], v[2], a, b, c));
        T ta = (T)a, tb = (T)b, tc = (T)c;
        units::Radian A((double)ta), B((double)tb), C((double)tc);
        Vec3<T> tv((T)v[0], (T)v[1], (T)v[2]), tw((T)w[0], (T)w[1], (T)w[2]);
        M3 mv = axang(tv.x, tv.y, tv.z, ta), mw = axang(tw.x, tw.y, tw.z, tb);
        auto rv = Rotation<T>::from_local_to_parent(tv, A), rw = Rotation<T>::from_local_to_parent(tw, B);
        same(proper(rv, "axis-angle"), mv, "axis-angle");
        auto rp = Rotation<T>::from_parent_to_local(tv, A);
        same(proper(rp, "axis-angle-p2l"), tr(mv), "axis-angle-parent-to-local");
        // matrices
        auto rm = Rotation<T>::from_local_to_parent(to<T>(mv)); same(proper(rm, "matrix"), mv, "matrix");
        auto rmp = Rotation<T>::from_parent_to_local(to<T>(mv)); same(proper(rmp, "matrix-p2l"), tr(mv), "matrix-parent-to-local");
        same(of<T>(rv.parent_to_local_matrix()), tr(mv), "parent-to-local-matrix");
        // quaternions: build from half-angles independently
        LD nn = std::sqrt((LD)tv.x * tv.x + (LD)tv.y * tv.y + (LD)tv.z * tv.z);
        LD qw = std::cos((LD)ta / 2), qs = std::sin((LD)ta / 2) / nn;
        Quaternion<T> q((T)qw, (T)(qs * tv.x), (T)(qs * tv.y), (T)(qs * tv.z));
        ShusterQuaternion<T> sq(q.x, q.y, q.z, q.w);
        same(proper(Rotation<T>::from_local_to_parent(q), "quat"), mv, "quaternion");
        same(proper(Rotation<T>::from_local_to_parent(sq), "shuster"), mv, "shuster-quaternion");
        same(proper(Rotation<T>::from_parent_to_local(q), "quat-p2l"), tr(mv), "quaternion-parent-to-local");
        same(proper(Rotation<T>::from_parent_to_local(sq), "shuster-p2l"), tr(mv), "shuster-parent-to-local");
        LD qk = std::is_same_v<T, float> ? 200 : 1e6; // near-pi conversions lose half the digits at most
        auto qsame = [&](Quaternion<T> g, bool inv, const char* what) {
            LD s = inv ? -1 : 1;
            LD d = std::fabs(std::fabs((LD)g.w * qw + s * ((LD)g.x * qs * tv.x + (LD)g.y * qs * tv.y + (LD)g.z * qs * tv.z)) - 1), nrm = std::fabs((LD)g.w * g.w + (LD)g.x * g.x + (LD)g.y * g.y + (LD)g.z * g.z - 1);
            vh::ev(); VH_CHECK(d <= tol * 4 && nrm <= tol * 4, what, "%s %s: 1-|q.q|=%Lg norm %Lg", tn, what, d, nrm);
        };
        (void)qk;
        qsame(rv.local_to_parent_quaternion(), false, "to-quaternion"); qsame(rv.parent_to_local_quaternion(), true, "to-inverse-quaternion");
        auto s1 = rv.local_to_parent_shuster_quaternion(), s2 = rv.parent_to_local_shuster_quaternion();
        qsame(Quaternion<T>(s1.w, s1.x, s1.y, s1.z), false, "to-shuster"); qsame(Quaternion<T>(s2.w, s2.x, s2.y, s2.z), true, "to-inverse-shuster");
        same(of<T>(Rotation<T>::from_local_to_parent(rv.local_to_parent_quaternion()).local_to_parent_matrix()), mv, "quaternion-roundtrip", 4);
        // Euler
        static const char ax[] = "xyzXYZ123";
        char seq[4] = {ax[R.below(9)], ax[R.below(9)], ax[R.below(9)], 0};
        auto basis = [&](char ch, T t) { int k = (ch == 'x' || ch == 'X' || ch == '1') ? 0 : (ch == 'y' || ch == 'Y' || ch == '2') ? 1 : 2; return axang(k == 0, k == 1, k == 2, t); };
        M3 e0 = basis(seq[0], ta), e1 = basis(seq[1], tb), e2 = basis(seq[2], tc);
        same(proper(Rotation<T>::intrinsic_euler_angles(A, B, C, seq), "intrinsic"), mul(mul(e0, e1), e2), "euler-intrinsic", 4);
        same(proper(Rotation<T>::extrinsic_euler_angles(A, B, C, seq), "extrinsic"), mul(mul(e2, e1), e0), "euler-extrinsic", 4);
        same(of<T>(Rotation<T>::local_to_parent_x(A)), axang(1, 0, 0, ta), "elementary-x"); same(of<T>(Rotation<T>::local_to_parent_y(A)), axang(0, 1, 0, ta), "elementary-y"); same(of<T>(Rotation<T>::local_to_parent_z(A)), axang(0, 0, 1, ta), "elementary-z");
        same(of<T>(Rotation<T>::parent_to_local_x(A)), axang(1, 0, 0, -(LD)ta), "elementary-x-inv"); same(of<T>(Rotation<T>::parent_to_local_y(A)), axang(0, 1, 0, -(LD)ta), "elementary-y-inv"); same(of<T>(Rotation<T>::parent_to_local_z(A)), axang(0, 0, 1, -(LD)ta), "elementary-z-inv");
        // basis vectors
        auto rb = Rotation<T>::from_basis_vectors(rv.x_axis(), rv.y_axis(), rv.z_axis()); same(proper(rb, "basis"), mv, "basis-vectors");
        // composition, inverse, action
        auto rc = rv * rw; same(proper(rc, "product"), mul(mv, mw), "composition", 4);
        auto rq = rv; rq *= rw; same(of<T>(rq.local_to_parent_matrix()), mul(mv, mw), "composition-assign", 4);
        auto rz = Rotation<T>::from_local_to_parent(Vec3<T>(0, 0, 1), C);
        same(of<T>(((rv * rw) * rz).local_to_parent_matrix()), of<T>((rv * (rw * rz)).local_to_parent_matrix()), "associativity", 8);
        same(of<T>(rv.inverse().local_to_parent_matrix()), tr(mv), "inverse"); same(of<T>((rv * rv.inverse()).local_to_parent_matrix()), M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, "inverse-cancels", 4);
        double m = R.lu(1e-6, 1e12); Vec3<T> p((T)(R.gauss() * m), (T)(R.gauss() * m), (T)(R.gauss() * m)), pr = rv * p;
        for (int i = 0; i < 3; ++i) { LD want = mv.a[i][0] * p.x + mv.a[i][1] * p.y + mv.a[i][2] * p.z; vh::ev(); VH_CHECK(std::fabs((LD)pr[i] - want) <= tol * 3 * (std::fabs((LD)p.x) + std::fabs((LD)p.y) + std::fabs((LD)p.z)), "apply-vector", "%s component %d: %.17g want %.17Lg", tn, i, (double)pr[i], want); }
        // long chains stay orthonormal
        if (it % 50 == 0) { auto ch = rv; for (int k = 0; k < 500; ++k) ch = ch * rw; proper(ch, "chain of 500"); vh::count("chains"); }
        // casts
        if constexpr (std::is_same_v<T, double>) { auto f = static_cast<Rotation<float>>(rv); LD d = dist(of<float>(f.local_to_parent_matrix()), mv); vh::ev(); VH_CHECK(d < 5e-7L, "cast", "cast deviates by %Lg", d); }
        // rejection: reflections, scaled, sheared, singular; tiny noise accepted
        Mat3<T> good = to<T>(mv), bad = good; int kind = (int)R.below(7);
        LD s = R.lu(1.2, 5);
        switch (kind) {
        case 0: bad[R.below(3)] *= (T)-1; break;
        case 1: bad *= (T)s; break;
        case 2: { bad[0] *= (T)s; bad[1] /= (T)s; break; }                    // det 1, not orthonormal
        case 3: { int k = (int)R.below(3), l = (k + 1 + (int)R.below(2)) % 3; bad[k] += bad[l] * (T)R.lu(0.2, 3); break; } // shear: det 1
        case 4: bad[2] = bad[1]; break;
        case 5: { int k = (int)R.below(9); static const double nf[] = {NAN, INFINITY, -INFINITY}; bad[k / 3][k % 3] = (T)nf[R.below(3)]; break; }
        case 6: bad = Mat3<T>(0); break;
        }
        vh::ev(); vh::count("rejections-tried");
        std::string d = vh::fmt("%s kind %d [%g %g %g; %g %g %g; %g %g %g] (columns)", tn, kind, (double)bad[0][0], (double)bad[0][1], (double)bad[0][2], (double)bad[1][0], (double)bad[1][1], (double)bad[1][2], (double)bad[2][0], (double)bad[2][1], (double)bad[2][2]);
        if (!vh::throws([&] { (void)Rotation<T>::from_local_to_parent(bad); }) || !vh::throws([&] { (void)Rotation<T>::from_parent_to_local(bad); }) || !vh::throws([&] { (void)Rotation<T>::from_basis_vectors(bad[0], bad[1], bad[2]); }))
            vh::fail(kind == 5 ? "nonfinite-matrix-accepted" : "improper-matrix-accepted", d);
        Mat3<T> noisy = good; for (int i = 0; i < 9; ++i) noisy[i / 3][i % 3] += (T)R.u(-2e-5, 2e-5);
        try { proper(Rotation<T>::from_local_to_parent(noisy), "noisy matrix"); } catch (const std::exception& e) { VH_FAIL("proper-matrix-rejected", "%s", e.what()); }
        // non-finite quaternion / axis / must not give a rotation silently
        Quaternion<T> qb = q; T nf = R.chance(.5) ? (T)NAN : (T)INFINITY; switch (R.below(4)) { case 0: qb.w = nf; break; case 1: qb.x = nf; break; case 2: qb.y = nf; break; default: qb.z = nf; }
        VH_CHECK(vh::throws([&] { (void)Rotation<T>::from_local_to_parent(qb); }), "nonfinite-quaternion-accepted", "%s", tn);
        VH_CHECK(vh::throws([&] { (void)Rotation<T>::from_parent_to_local(ShusterQuaternion<T>(qb.x, qb.y, qb.z, qb.w)); }), "nonfinite-quaternion-accepted", "%s shuster", tn);
        Vec3<T> ab = tv; ab[(int)R.below(3)] = (T)NAN;
        VH_CHECK(vh::throws([&] { (void)Rotation<T>::from_local_to_parent(ab, A); }), "nonfinite-axis-accepted", "%s", tn);
        VH_CHECK(vh::throws([&] { (void)Rotation<T>::from_local_to_parent(tv, units::Radian(INFINITY)); }), "nonfinite-angle-accepted", "%s", tn);
        static const char* bs[] = {"", "XY", "XYZX", "XYW", "x z", "04X"};
        const char* b1 = bs[R.below(6)];
        VH_CHECK(vh::throws([&] { (void)Rotation<T>::intrinsic_euler_angles(A, B, C, b1); }) && vh::throws([&] { (void)Rotation<T>::extrinsic_euler_angles(A, B, C, b1); }), "bad-sequence-accepted", "sequence '%s'", b1);
    }
    Rotation<T> id; same(proper(id, "default"), M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}, "default-identity");
}
void body()
{
    R = vh::Rng(vh::seed());
    run<double>(vh::n(4000, 400000)); run<float>(vh::n(4000, 400000));
    vh::sample("axis (0.3,0,-2)*17, angle pi-1e-9: axis-angle, quaternion, Euler and matrix forms compared in long double");
}
VH_MAIN(body())
