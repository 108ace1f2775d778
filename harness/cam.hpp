// Shared by the camera monitors: includes and a double-precision reference camera.
#pragma once
#include "vh.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/cameras/apertures/circular_aperture.hpp"
#include "huira/cameras/psfs/airy_disk.hpp"
#include "huira/cameras/sensors/simple_sensor.hpp"
#include "huira/cameras/camera_model.hpp"
#include <functional>
using namespace huira;
using D = double;
struct P2 { D x, y; };
struct Lens { // published lens models
    int kind = 0; // 0 none, 1 Brown, 2 OpenCV, 3 Owen
    D c[12] = {};
    P2 distort(P2 p) const
    {
        D x = p.x, y = p.y, r2 = x * x + y * y, r = std::sqrt(r2);
        if (kind == 1) { D f = 1 + c[0] * r2 + c[1] * r2 * r2 + c[2] * r2 * r2 * r2; return {x * f + 2 * c[3] * x * y + c[4] * (r2 + 2 * x * x), y * f + c[3] * (r2 + 2 * y * y) + 2 * c[4] * x * y}; }
        if (kind == 2) { D f = (1 + c[0] * r2 + c[1] * r2 * r2 + c[2] * r2 * r2 * r2) / (1 + c[3] * r2 + c[4] * r2 * r2 + c[5] * r2 * r2 * r2);
            return {x * f + 2 * c[6] * x * y + c[7] * (r2 + 2 * x * x) + c[8] * r2 + c[9] * r2 * r2, y * f + c[6] * (r2 + 2 * y * y) + 2 * c[7] * x * y + c[10] * r2 + c[11] * r2 * r2}; }
        if (kind == 3) { D a = c[1] * r2 + c[3] * r2 * r2 + c[4] * y + c[5] * x, b = c[0] * r + c[2] * r2 * r; return {x + a * x - b * y, y + a * y + b * x}; }
        return p;
    }
    void jac(P2 p, D J[4]) const { D h = 1e-6; P2 a = distort({p.x + h, p.y}), b = distort({p.x - h, p.y}), c2 = distort({p.x, p.y + h}), d = distort({p.x, p.y - h}); J[0] = (a.x - b.x) / (2 * h); J[1] = (c2.x - d.x) / (2 * h); J[2] = (a.y - b.y) / (2 * h); J[3] = (c2.y - d.y) / (2 * h); }
    // spectral-ish norm of (J - I): the fixed-point contraction factor
    D contraction(P2 p) const { D J[4]; jac(p, J); D a = J[0] - 1, b = J[1], c2 = J[2], d = J[3] - 1; return std::sqrt(a * a + b * b + c2 * c2 + d * d); }
    P2 undistort(P2 q) const // Newton on the branch through the axis
    {
        if (!kind) return q;
        P2 p = q;
        for (int i = 0; i < 60; ++i) { P2 e = distort(p); e.x -= q.x; e.y -= q.y; D J[4]; jac(p, J); D det = J[0] * J[3] - J[1] * J[2]; if (!(std::fabs(det) > 1e-9)) return {NAN, NAN}; D dx = (J[3] * e.x - J[1] * e.y) / det, dy = (J[0] * e.y - J[2] * e.x) / det; p.x -= dx; p.y -= dy; if (std::fabs(dx) + std::fabs(dy) < 1e-14) break; }
        return p;
    }
    template <class C> void apply(C& cam) const
    {
        if (kind == 0) cam.delete_distortion();
        if (kind == 1) cam.set_brown_conrady_distortion(BrownCoefficients(c[0], c[1], c[2], c[3], c[4]));
        if (kind == 2) cam.set_opencv_distortion(OpenCVCoefficients(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11]));
        if (kind == 3) cam.set_owen_distortion(OwenCoefficients(c[0], c[1], c[2], c[3], c[4], c[5]));
    }
};
// a lens of the given kind whose fixed-point contraction factor stays below lim for all |p| <= rad
inline Lens random_lens(vh::Rng& R, int kind, D rad, D lim)
{
    Lens l; l.kind = kind;
    if (!kind) return l;
    auto sc = [&](int pw) { return R.chance(.25) ? 0.0 : R.u(-.6, .6) / std::pow(rad, pw); };
    if (kind == 1) { l.c[0] = sc(2); l.c[1] = sc(4); l.c[2] = sc(6); l.c[3] = sc(1) * .3; l.c[4] = sc(1) * .3; }
    if (kind == 2) { l.c[0] = sc(2); l.c[1] = sc(4); l.c[2] = sc(6); l.c[3] = sc(2); l.c[4] = sc(4); l.c[5] = sc(6); l.c[6] = .3 * sc(1); l.c[7] = .3 * sc(1); l.c[8] = .2 * sc(1); l.c[9] = .2 * sc(3); l.c[10] = .2 * sc(1); l.c[11] = .2 * sc(3); }
    if (kind == 3) { l.c[0] = .3 * sc(1); l.c[1] = sc(2); l.c[2] = .3 * sc(3); l.c[3] = sc(4); l.c[4] = .3 * sc(1); l.c[5] = .3 * sc(1); }
    for (int t = 0; t < 40; ++t) {
        D m = 0;
        for (int i = 0; i < 160; ++i) { D a = i * 2.399963, r = rad * std::sqrt((i + .5) / 160) * 1.05; m = std::max(m, l.contraction({r * std::cos(a), r * std::sin(a)})); }
        if (m < lim) return l;
        for (D& c : l.c) c *= .8;
    }
    for (D& c : l.c) c = 0;
    return l;
}
struct RefCam {
    int rx, ry; D f, px, py, cx, cy; bool blender = false; Lens lens;
    D fx() const { return f / px; } D fy() const { return f / py; }
    // direction with unit depth
    Vec3<D> dir(D u, D v) const { P2 p = lens.undistort({(u - cx) / fx(), (v - cy) / fy()}); return blender ? Vec3<D>{p.x, -p.y, -1} : Vec3<D>{p.x, p.y, 1}; }
    D depth(Vec3<D> q) const { return blender ? -q.z : q.z; }
    P2 project(Vec3<D> q) const { D z = depth(q); P2 p = lens.distort({q.x / z, (blender ? -q.y : q.y) / z}); return {fx() * p.x + cx, fy() * p.y + cy}; }
};
inline D tri(Vec3<D> a, Vec3<D> b, Vec3<D> c)
{
    a = glm::normalize(a); b = glm::normalize(b); c = glm::normalize(c);
    return 2 * std::atan2(std::fabs(glm::dot(a, glm::cross(b - a, c - a))), 1 + glm::dot(a, b) + glm::dot(b, c) + glm::dot(c, a));
}
