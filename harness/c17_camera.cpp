// C17: projection, rays, lens distortion, view volume and solid angles against a double-precision camera.
#include "cam.hpp"
static vh::Rng R(1);
template <class T> static void lens_case(int kind)
{
    D rad = R.lu(.02, 1.2); Lens l = random_lens(R, kind, rad, R.u(.1, .45)); if (R.chance(.35)) { // a centred lens: points on the axes of the image stay on them
        Lens q = l; if (kind == 1) q.c[3] = q.c[4] = 0; if (kind == 2) for (int i = 6; i < 12; ++i) q.c[i] = 0; if (kind == 3) q.c[0] = q.c[2] = q.c[4] = q.c[5] = 0; D m = 0; for (int i = 0; i < 160; ++i) { D a = i * 2.399963, r = rad * std::sqrt((i + .5) / 160) * 1.05; m = std::max(m, q.contraction({r * std::cos(a), r * std::sin(a)})); } if (m < .45) l = q; }
    bool zero = R.chance(.05); if (zero) for (D& c : l.c) c = 0;
    T d = [&] { if constexpr (std::is_same_v<T, BrownDistortion<RGB>>) return T(BrownCoefficients(l.c[0], l.c[1], l.c[2], l.c[3], l.c[4]));
                else if constexpr (std::is_same_v<T, OpenCVDistortion<RGB>>) return T(OpenCVCoefficients(l.c[0], l.c[1], l.c[2], l.c[3], l.c[4], l.c[5], l.c[6], l.c[7], l.c[8], l.c[9], l.c[10], l.c[11]));
                else return T(OwenCoefficients(l.c[0], l.c[1], l.c[2], l.c[3], l.c[4], l.c[5])); }();
    std::string nm = d.get_type_name();
    for (int k = 0; k < 8; ++k) {
        D a = R.u(0, 6.2832), r = rad * std::sqrt(R.u()); if (R.chance(.06)) r = 0; Pixel p{(float)(r * std::cos(a)), (float)(r * std::sin(a))}; if (R.chance(.2)) { p[0] = (float)(R.chance(.5) ? r : -r); p[1] = 0; if (R.chance(.5)) std::swap(p[0], p[1]); }
        vh::cur("%s c=[%g %g %g %g %g %g %g %g %g %g %g %g] p=(%.9g,%.9g)", nm.c_str(), l.c[0], l.c[1], l.c[2], l.c[3], l.c[4], l.c[5], l.c[6], l.c[7], l.c[8], l.c[9], l.c[10], l.c[11], p[0], p[1]);
        vh::ev(3); vh::distinct(vh::hash(kind, p[0], p[1], l.c[0], l.c[1]));
        P2 ref = l.distort({p[0], p[1]}); Pixel q = d.distort(p); D tol = 3e-6 * rad;
        VH_CHECK(std::fabs(q[0] - ref.x) < tol && std::fabs(q[1] - ref.y) < tol, "distort:" + nm, "distort (%.9g,%.9g) -> (%.9g,%.9g), model (%.9g,%.9g); rad %g", p[0], p[1], q[0], q[1], ref.x, ref.y, rad);
        if (zero) VH_CHECK(q[0] == p[0] && q[1] == p[1], "zero:" + nm, "zero coefficients move (%.9g,%.9g) to (%.9g,%.9g)", p[0], p[1], q[0], q[1]);
        Pixel b = d.undistort(q); D t2 = 4e-6 * (1 + rad);
        VH_CHECK(std::fabs(b[0] - p[0]) < t2 && std::fabs(b[1] - p[1]) < t2, "undistort:" + nm, "undistort(distort(%.9g,%.9g)) = (%.9g,%.9g) rad %g", p[0], p[1], b[0], b[1], rad);
        if (zero) { Pixel z = d.undistort(p); VH_CHECK(z[0] == p[0] && z[1] == p[1], "zero-undistort:" + nm, "zero coefficients undistort moves a point"); }
    }
    vh::count("lens:" + nm);
}
static RefCam random_cam(CameraModel<RGB>& c)
{
    RefCam r; int shape = R.i(0, 9);
    r.rx = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? R.i(60, 200) : R.i(3, 48); r.ry = shape == 3 ? 1 : shape == 0 ? R.i(1, 3) : shape == 4 ? 2 : shape == 2 ? R.i(40, 90) : R.i(3, 48);
    r.px = R.lu(1e-6, 3e-5); r.py = R.chance(.5) ? r.px : r.px * R.u(.5, 2); r.blender = R.chance(.5);
    D half = .5 * std::hypot(r.rx * r.px, r.ry * r.py), fov = R.chance(.3) ? R.lu(1e-5, .02) : R.lu(.02, 1.5); r.f = half / fov;
    int pp = R.i(0, 3); std::optional<float> cx, cy; r.cx = .5 * r.rx; r.cy = .5 * r.ry;
    if (pp & 1) { r.cx = (float)(r.rx * R.u(-.3, 1.3)); cx = (float)r.cx; } if (pp & 2) { r.cy = (float)(r.ry * R.u(-.3, 1.3)); cy = (float)r.cy; }
    D rad = 0; for (int k = 0; k < 4; ++k) rad = std::max(rad, std::hypot(((k & 1) * r.rx - r.cx) * r.px, ((k >> 1) * r.ry - r.cy) * r.py) / r.f);
    if (rad < 3) r.lens = random_lens(R, R.i(0, 3), rad * 1.3, R.u(.05, .35));
    int how = R.i(0, 3), order = R.i(0, 2);
    if (order == 0) r.lens.apply(c); if (R.chance(.5)) c.use_blender_convention(r.blender); else { c.use_blender_convention(!r.blender); c.use_blender_convention(r.blender); }
    if (how < 3) c.set_focal_length(units::Meter(r.f));
    if (order == 1) r.lens.apply(c);
    Resolution res{r.rx, r.ry};
    if (how == 0) c.configure_sensor_from_pitch(res, units::Meter(r.px), units::Meter(r.py), cx, cy);
    else if (how == 1) c.configure_sensor_from_size(res, units::Meter(r.px * r.rx), units::Meter(r.py * r.ry), cx, cy);
    else if (how == 2) { if (r.py == r.px) c.configure_sensor_from_pitch(res, units::Meter(r.px), std::nullopt, cx, cy); else c.configure_sensor_from_pitch(res, units::Meter(r.px), units::Meter(r.py), cx, cy); }
    else if (R.chance(.5)) c.set_intrinsics((float)(r.f / r.px), (float)(r.f / r.py), (float)r.cx, (float)r.cy, res, units::Meter(r.f));
    else { Mat3<float> K(1.f); K[0][0] = (float)(r.f / r.px); K[1][1] = (float)(r.f / r.py); K[2][0] = (float)r.cx; K[2][1] = (float)r.cy; c.set_intrinsic_matrix(K, res, units::Meter(r.f)); }
    if (order == 2) r.lens.apply(c);
    vh::cur("cam %dx%d f=%g pitch %g %g c=(%g,%g) blender=%d lens=%d how=%d order=%d coef %g %g %g %g %g %g", r.rx, r.ry, r.f, r.px, r.py, r.cx, r.cy, r.blender, r.lens.kind, how, order, r.lens.c[0], r.lens.c[1], r.lens.c[2], r.lens.c[3], r.lens.c[4], r.lens.c[5]);
    vh::count("lens-kind:" + std::to_string(r.lens.kind)); vh::count(r.blender ? "blender" : "opencv-axes"); vh::count("how:" + std::to_string(how));
    return r;
}
static void camera_case()
{
    static CameraModel<RGB>* cam = nullptr; static int uses = 0;
    if (!cam || ++uses > 25) { delete cam; cam = new CameraModel<RGB>(); cam->configure_sensor_from_pitch(Resolution{8, 8}, units::Meter(1e-5)); uses = 0; }
    CameraModel<RGB>& c = *cam; RefCam r = random_cam(c);
    vh::distinct(vh::hash(r.rx, r.ry, r.f, r.px, r.py, r.cx, r.cy, r.lens.c[0]));
    // float round-off of normalised coordinates, in pixels
    auto norm = [&](D u, D v) { return 1 + std::hypot((u - r.cx) / r.fx(), (v - r.cy) / r.fy()); };
    D far = std::max({std::fabs(r.cx), std::fabs(r.cy), std::fabs(r.rx - r.cx), std::fabs(r.ry - r.cy)}) + 1;
    D ptol = 4e-6 * far * std::pow(norm(0, 0) + norm(r.rx, r.ry), 2) + (r.lens.kind ? 3e-6 * std::max(r.fx(), r.fy()) + 6. / std::min(r.fx(), r.fy()) * std::min(1., norm(0, 0)) * .4 : 0) + 2e-4;
    if (r.lens.kind) { // bilinear interpolation inside one pixel of the direction field: second derivative times 1/8
        D rad = 0; for (int k = 0; k < 4; ++k) rad = std::max(rad, std::hypot(((k & 1) * r.rx - r.cx) / r.fx(), ((k >> 1) * r.ry - r.cy) / r.fy()));
        ptol += .6 / std::min(r.fx(), r.fy()) / rad;
    }
    // an image so coarse that one pixel spans a large part of the field of view has no interpolation accuracy to speak of
    bool coarse = r.lens.kind && ptol > .05;
    int np = 24;
    for (int k = 0; k < np; ++k) {
        D u, v; switch (R.i(0, 5)) { case 0: u = R.i(0, r.rx - 1); v = R.i(0, r.ry - 1); break; case 1: u = R.chance(.5) ? 0 : r.rx * (1 - 1e-6); v = R.u(0, r.ry); break; case 2: u = R.u(0, r.rx); v = R.chance(.5) ? 0 : r.ry * (1 - 1e-6); break; default: u = R.u(0, r.rx); v = R.u(0, r.ry); }
        Pixel p{std::min((float)u, std::nextafter((float)r.rx, 0.f)), std::min((float)v, std::nextafter((float)r.ry, 0.f))}; u = p[0]; v = p[1];
        Ray<RGB> ray = (u == std::floor(u) && v == std::floor(v) && R.chance(.5)) ? c.cast_ray((int)u, (int)v) : c.cast_ray(p);
        Vec3<float> d = ray.direction(), o = ray.origin(); vh::ev(4);
        VH_CHECK(o == Vec3<float>(0.f) && std::fabs(glm::length(d) - 1) < 1e-5, "ray", "pinhole ray origin/direction (%g %g %g)", d.x, d.y, d.z);
        Vec3<D> want = glm::normalize(r.dir(u, v)); D ang = glm::length(glm::normalize(Vec3<D>(d)) - want), pix = ang * std::max(r.fx(), r.fy()) * norm(u, v) * norm(u, v);
        if (!coarse) VH_CHECK(pix < 2 * ptol, "ray-dir", "ray at (%.9g,%.9g): (%.9g %.9g %.9g), expected (%.9g %.9g %.9g): %.3g px off (tol %.3g)", u, v, d.x, d.y, d.z, want.x, want.y, want.z, pix, 2 * ptol);
        D dist = R.lu(1e-1, 1e6); Vec3<float> pt((float)(want.x * dist), (float)(want.y * dist), (float)(want.z * dist));
        Pixel q = c.project_point(pt); 
        VH_CHECK(std::fabs(q[0] - u) < ptol && std::fabs(q[1] - v) < ptol, "project", "point seen at (%.9g,%.9g) projects to (%.9g,%.9g) (tol %.3g)", u, v, q[0], q[1], ptol);
        if (!coarse) { Pixel q2 = c.project_point(d * (float)dist); VH_CHECK(std::fabs(q2[0] - u) < 3 * ptol && std::fabs(q2[1] - v) < 3 * ptol, "inverse", "ray through (%.9g,%.9g) projects to (%.9g,%.9g) (tol %.3g)", u, v, q2[0], q2[1], 3 * ptol); }
        bool edge = std::min({u, v, r.rx - u, r.ry - v}) < 2 * ptol; // where the border itself lies is known to that accuracy only with a lens
        if (!edge || !r.lens.kind) VH_CHECK(c.in_fov(pt) && c.view_frustum().contains(pt), "frustum", "a visible point at image (%.9g,%.9g) is outside the view volume", u, v);
        Pixel t = c.try_project_point(pt);
        if (!edge) VH_CHECK(t[0] == q[0] && t[1] == q[1], "try-project", "visible point (%.9g,%.9g) reported as (%g,%g)", u, v, t[0], t[1]);
        Pixel bk = c.try_project_point(-pt); VH_CHECK(std::isnan(bk[0]) && std::isnan(bk[1]), "behind", "a point behind the camera is reported visible at (%g,%g)", bk[0], bk[1]);
        VH_CHECK(!c.in_fov(-pt), "behind-fov", "a point behind the camera is in the field of view");
        D area = c.get_projected_aperture_area(d), a0 = c.get_projected_aperture_area({0, 0, 1}); VH_CHECK(vh::near(area, a0 * std::fabs(d.z), 2e-5), "aperture-area", "projected aperture area %g vs %g", area, a0 * std::fabs(d.z));
    }
    // arbitrary directions: visible exactly when the reference camera sees them
    for (int k = 0; k < 24; ++k) {
        Vec3<D> w(R.gauss(), R.gauss(), R.gauss()); if (R.chance(.6)) { D u = r.rx * R.u(-.4, 1.4), v = r.ry * R.u(-.4, 1.4); w = Vec3<D>((u - r.cx) / r.fx(), (v - r.cy) / r.fy() * (r.blender ? -1 : 1), r.blender ? -1 : 1); if (R.chance(.1)) w = -w; }
        w *= R.lu(.1, 1e5); Vec3<float> pt(w); w = Vec3<D>(pt); Pixel t = c.try_project_point(pt); vh::ev();
        bool shown = !std::isnan(t[0]) || !std::isnan(t[1]);
        if (shown) {
            VH_CHECK(r.depth(w) > 0 && t[0] >= 0 && t[0] < r.rx && t[1] >= 0 && t[1] < r.ry, "shown-outside", "point (%g %g %g) outside the image reported at (%g,%g)", w.x, w.y, w.z, t[0], t[1]);
            VH_CHECK(c.view_frustum().contains(pt), "shown-culled", "visible point culled");
            P2 e = r.project(w); VH_CHECK(std::fabs(e.x - t[0]) < ptol && std::fabs(e.y - t[1]) < ptol, "shown-where", "point (%g %g %g): (%.9g,%.9g) vs (%.9g,%.9g)", w.x, w.y, w.z, t[0], t[1], e.x, e.y);
            vh::count("shown");
        } else if (r.depth(w) > 0) {
            P2 e = r.project(w); D m = std::min({e.x, e.y, r.rx - e.x, r.ry - e.y});
            if (m > 2 * ptol) { P2 n{w.x / r.depth(w), (r.blender ? -w.y : w.y) / r.depth(w)}, un = r.lens.undistort({(e.x - r.cx) / r.fx(), (e.y - r.cy) / r.fy()});
                if (std::fabs(un.x - n.x) + std::fabs(un.y - n.y) < 1e-6 * (1 + std::fabs(n.x) + std::fabs(n.y))) VH_FAIL("hidden", "point (%g %g %g) at image (%.9g,%.9g) not reported", w.x, w.y, w.z, e.x, e.y); }
            vh::count("hidden");
        }
    }
    // solid angles
    D sum = 0, full = 0; bool ok = true; D worst = 0; D st = r.lens.kind ? 3e-4 + 1.5e-6 * std::max(r.fx(), r.fy()) * (1 + norm(0, 0)) : 2e-4;
    if (st < .05)
        for (int y = 0; y < r.ry; ++y) for (int x = 0; x < r.rx; ++x) {
            D om = (D)c.pixel_radiance_to_power(x, y) / c.get_projected_aperture_area(c.cast_ray(x, y).direction());
            Vec3<D> a = r.dir(x, y), b = r.dir(x + 1, y), e = r.dir(x + 1, y + 1), f = r.dir(x, y + 1); D ref = tri(a, b, e) + tri(a, e, f);
            sum += om; full += ref; D rel = std::fabs(om / ref - 1); if (!(rel < st) && ok) { ok = false; VH_FAIL("solid-angle", "pixel (%d,%d) subtends %.9g sr, camera says %.9g (tol %.2g)", x, y, ref, om, st); } worst = std::max(worst, rel); vh::ev();
        }
    if (st < .05 && !r.lens.kind) { // whole field of view of a rectangle
        auto F = [](D a, D b) { return std::atan(a * b / std::sqrt(1 + a * a + b * b)); };
        D l = (0 - r.cx) / r.fx(), h = (r.rx - r.cx) / r.fx(), b = (0 - r.cy) / r.fy(), t = (r.ry - r.cy) / r.fy(); D fovs = F(h, t) - F(l, t) - F(h, b) + F(l, b);
        VH_CHECK(std::fabs(sum / fovs - 1) < 1e-4, "solid-sum", "pixel solid angles sum to %.9g, field of view is %.9g", sum, fovs);
    }
    // depth of field: every ray meets the pinhole ray on the plane of focus and starts inside the aperture
    if (r.lens.kind == 0 || !coarse) {
        D focus = R.chance(.2) ? INFINITY : R.lu(50 * r.f + .1, 1e4); float N = (float)R.lu(1.4, 22); 
        D rblur = std::isinf(focus) ? 0 : r.f * r.f / (2 * N) / focus / std::min(r.px, r.py);
        if (rblur < 12) {
            c.set_fstop(N); VH_CHECK(vh::near(c.fstop(), N, 1e-4), "fstop", "fstop %g reads back %g", N, c.fstop());
            c.set_focus_distance(units::Meter(focus)); c.enable_depth_of_field(true); RandomSampler<float> S((uint32_t)R.next()); D rad = r.f / N / 2;
            for (int k = 0; k < 8; ++k) {
                Pixel p{(float)(r.rx * R.u(0, .999)), (float)(r.ry * R.u(0, .999))}; auto ray = c.cast_ray(p, S); auto pin = c.cast_ray(p); Vec3<D> o(ray.origin()), d(ray.direction()), d0(pin.direction()); vh::ev();
                VH_CHECK(o.z == 0 && std::hypot(o.x, o.y) <= rad * (1 + 1e-4), "dof-origin", "lens sample (%g,%g,%g) outside aperture radius %g", o.x, o.y, o.z, rad);
                if (std::isinf(focus)) VH_CHECK(glm::length(glm::normalize(d) - glm::normalize(d0)) < 2e-6, "dof-inf", "focus at infinity changes the ray direction");
                else { Vec3<D> a = d0 * (focus / std::fabs(d0.z)), b = o + d * (focus / std::fabs(d.z)); VH_CHECK(glm::length(a - b) < 4e-6 * glm::length(a) + 1e-6 * rad, "dof-focus", "ray misses the focal point by %g at %g m", glm::length(a - b), focus); }
            }
            c.enable_depth_of_field(false); c.set_focus_distance(units::Meter(INFINITY)); RandomSampler<float> S2(3); Pixel p{0.f, 0.f}; auto a = c.cast_ray(p, S2), b = c.cast_ray(p); VH_CHECK(a.direction() == b.direction() && a.origin() == b.origin(), "dof-off", "sampler changes the ray with depth of field off");
        }
    }
    vh::count("cameras");
    if (vh::st().samples.size() < 6) vh::sample(vh::fmt("%dx%d f=%g lens %d: sum of solid angles %.6g sr, worst pixel error %.2g, position tolerance %.2g px", r.rx, r.ry, r.f, r.lens.kind, sum, worst, ptol));
}
// the arithmetic of pixels and resolutions acts component by component, in the precision of its operands
template <class T> static void arithmetic()
{
    Resolution a{R.i(1, 9000), R.i(1, 9000)}; Vec2<T> v{(T)R.u(-50, 50), (T)R.lu(.01, 100)}; T s = (T)(R.lu(.01, 100) * (R.chance(.5) ? 1 : -1)); const T w = (T)a.width, h = (T)a.height; vh::ev(); vh::distinct(vh::hash(a.width, a.height, (double)s));
    auto eq = [&](auto got, T x, T y, const char* what) { VH_CHECK((std::is_same_v<decltype(got), Vec2<T>>) && std::fabs((T)got.x - x) <= std::fabs(x) * 4 * std::numeric_limits<T>::epsilon() && std::fabs((T)got.y - y) <= std::fabs(y) * 4 * std::numeric_limits<T>::epsilon(), "arithmetic", "%s gives (%.17g,%.17g), should be (%.17g,%.17g) for %dx%d, vector (%.9g,%.9g), scalar %.9g", what, (double)got.x, (double)got.y, (double)x, (double)y, a.width, a.height, (double)v.x, (double)v.y, (double)s); };
    eq(a * v, w * v.x, h * v.y, "resolution * vector"); eq(v * a, w * v.x, h * v.y, "vector * resolution"); eq(a * s, w * s, h * s, "resolution * scalar"); eq(s * a, w * s, h * s, "scalar * resolution");
    if constexpr (requires { a / v; }) eq(a / v, w / v.x, h / v.y, "resolution / vector");
    eq(v / a, v.x / w, v.y / h, "vector / resolution"); if constexpr (requires { a / s; }) eq(a / s, w / s, h / s, "resolution / scalar"); eq(s / a, s / w, s / h, "scalar / resolution");
    Resolution b = a, c{1, 1}; c = a; VH_CHECK(&b.x == &b.width && &b.y == &b.height && &c.x == &c.width && &c.y == &c.height && b == a && c == a && c.x == a.width && c.y == a.height, "resolution-copy", "a copied resolution differs"); b.x += 1; VH_CHECK(b.width == a.width + 1 && a.x == a.width && !(b == a), "resolution-copy", "a copied resolution shares its numbers"); b = a; b.y += 1; VH_CHECK(!(a == b) && b.height == a.height + 1, "resolution-copy", "resolutions of different heights compare equal"); c = c; VH_CHECK(c == a, "resolution-copy", "self assignment");
    BasePixel<T> p{(T)R.u(-9, 9), (T)R.u(-9, 9)}, q{(T)R.u(-9, 9), (T)R.u(-9, 9)}; auto pe = [&](BasePixel<T> g, T x, T y, const char* what) { VH_CHECK(g.x == x && g.y == y && g[0] == x && g[1] == y, "arithmetic", "pixel %s", what); };
    pe(p + q, p.x + q.x, p.y + q.y, "sum"); pe(p - q, p.x - q.x, p.y - q.y, "difference"); pe(p * s, p.x * s, p.y * s, "scaled"); pe(s * p, p.x * s, p.y * s, "scaled from the left"); pe(BasePixel<T>{}, 0, 0, "zero"); p[1] = 7; p[0] = 3; pe(p, 3, 7, "write by index");
}
static void body()
{
    R = vh::Rng(vh::seed() * 17 + 5);
    for (long i = 0; i < vh::n(4000, 60000); ++i) { lens_case<BrownDistortion<RGB>>(1); lens_case<OpenCVDistortion<RGB>>(2); lens_case<OwenDistortion<RGB>>(3); }
    for (long i = 0; i < vh::n(500, 12000); ++i) camera_case();
    for (long i = 0; i < vh::n(2000, 50000); ++i) { arithmetic<float>(); arithmetic<double>(); }
}
VH_MAIN(body())
