// C28: triangle and arc clipping, arc interpolation and plane crossings.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using F3 = Vec3<float>;
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
static L absdot(const F3& n, const V& p) { return std::abs(n.x * p[0]) + std::abs(n.y * p[1]) + std::abs(n.z * p[2]); }
static std::vector<F3> planes(V& axis) { std::vector<F3> v; axis = R.chance(.4) ? V{0, 0, R.chance(.5) ? 1.L : -1.L} : un(rv(1)); int n = R.chance(.05) ? 0 : R.chance(.2) ? R.i(1, 3) : R.i(4, 6); L open = (L)R.lu(1e-3, 1.2); V a = un(cross(axis, un(rv(1)))), b = cross(axis, a); for (int i = 0; i < n; ++i) { L th = 2 * 3.14159265358979L * i / n, o = open * (L)R.u(.7, 1.3); V side = std::cos(th) * a + std::sin(th) * b; v.push_back(ff(un(std::sin(o) * axis - std::cos(o) * side))); } if (n && R.chance(.6)) v.push_back(ff(axis)); return v; }

template <class T> static void triangles()
{
    V ax; auto pl = planes(ax); Frustum<T> fr(pl); Triangle<T> t; L s = (L)R.lu(1e-3, 1e6), open = R.u(0, 2); bool tang = R.chance(.4); std::array<Tangent, 3> tg; for (size_t i = 0; i < 3; ++i) { auto& v = t.vertices[i]; V p = (R.chance(.85) ? 1 : -1) * s * ax + rv(s * open * R.u(.02, 1)); if (R.chance(.05) && !pl.empty()) { V n = fv(R.pick(pl)); p = p - dot(p, n) * n; } v.position = ff(p); for (size_t k = 0; k < T::size(); ++k) v.albedo[k] = R.f(); v.normal = ff(rv(1)); v.uv = {R.f(), R.f()}; tg[i] = {ff(rv(1)), ff(rv(1))}; } if (R.chance(.05)) t.vertices[2].position = t.vertices[1].position; if (tang) t.tangents = tg;
    V p0 = fv(t.vertices[0].position), p1 = fv(t.vertices[1].position), p2 = fv(t.vertices[2].position), N = cross(p1 - p0, p2 - p0); L area = len(N), mx = std::max({len(p0), len(p1), len(p2)}); vh::cur("triangle size %Lg, %zu planes", s, pl.size()); auto out = fr.clip_triangle(t); vh::ev(); vh::distinct(vh::hash(t.vertices[0].position.x, t.vertices[1].position.y)); vh::count(vh::fmt("triangles cut into %zu", out.size()).c_str());
    L edge = std::max({len(p1 - p0), len(p2 - p0), len(p2 - p1)}); bool thin = area < 1e-3L * edge * edge; auto bary = [&](const V& p) { L u = dot(N, cross(p - p0, p2 - p0)) / (area * area), v = dot(N, cross(p1 - p0, p - p0)) / (area * area); return V{1 - u - v, u, v}; }; L tol = 4e-6L * mx;
    for (auto& o : out)
    {
        VH_CHECK(o.tangents.has_value() == tang, "tangents", "tangents %s", tang ? "lost" : "invented"); V q[3]; for (size_t i = 0; i < 3; ++i) { auto& v = o.vertices[i]; q[i] = fv(v.position); for (auto& n : pl) VH_CHECK(dot(fv(n), q[i]) >= -tol, "outside", "a kept corner is %Lg sizes outside a plane", dot(fv(n), q[i]) / mx); if (thin) continue; V b = bary(q[i]); L m = 3e-5L * mx * edge / area * edge / edge + 1e-5L; if (m > .05L) continue; VH_CHECK(std::min({b[0], b[1], b[2]}) > -m, "beyond", "a kept corner lies outside the triangle (%Lg %Lg %Lg)", b[0], b[1], b[2]); VH_CHECK(std::abs(dot(N, q[i] - p0)) < area * tol * 2, "plane", "a kept corner is out of the triangle's plane"); auto mix = [&](auto g) { return b[0] * (L)g(0) + b[1] * (L)g(1) + b[2] * (L)g(2); };
            for (size_t k = 0; k < T::size(); ++k) { L e = mix([&](size_t c) { return t.vertices[c].albedo[k]; }); VH_CHECK(std::abs(e - v.albedo[k]) < 4 * m, "albedo", "albedo %g, expected %Lg", (double)v.albedo[k], e); } for (int k = 0; k < 2; ++k) { L e = mix([&](size_t c) { return t.vertices[c].uv[k]; }); VH_CHECK(std::abs(e - v.uv[k]) < 4 * m, "uv", "coordinate %g, expected %Lg", (double)v.uv[k], e); } for (int k = 0; k < 3; ++k) { L e = mix([&](size_t c) { return t.vertices[c].normal[k]; }); VH_CHECK(std::abs(e - v.normal[k]) < 15 * m, "normal", "normal %g, expected %Lg", (double)v.normal[k], e); if (tang) { L a = mix([&](size_t c) { return tg[c].tangent[k]; }), z = mix([&](size_t c) { return tg[c].bitangent[k]; }); VH_CHECK(std::abs(a - (*o.tangents)[i].tangent[k]) < 15 * m && std::abs(z - (*o.tangents)[i].bitangent[k]) < 15 * m, "tangent", "tangent frame not interpolated"); } } }
        if (!thin) VH_CHECK(dot(cross(q[1] - q[0], q[2] - q[0]), N) >= -1e-5L * mx * edge * area, "winding", "a piece is wound the other way round");
    }
    if (thin || mx > 300 * edge) return; for (int j = 0; j < 60; ++j) { L u = R.u(0, 1), v = R.u(0, 1); if (u + v > 1) { u = 1 - u; v = 1 - v; } V p = p0 + u * (p1 - p0) + v * (p2 - p0); L in = 1e30L; for (auto& n : pl) in = std::min(in, dot(fv(n), p)); if (std::abs(in) < 20 * tol) continue; int cover = 0; bool border = false; for (auto& o : out) { V a = fv(o.vertices[0].position), b = fv(o.vertices[1].position), c = fv(o.vertices[2].position); L w0 = dot(N, cross(b - a, p - a)), w1 = dot(N, cross(c - b, p - b)), w2 = dot(N, cross(a - c, p - c)), z = area * tol * 4 * edge; if (std::min({w0, w1, w2}) > z) ++cover; else if (std::min({w0, w1, w2}) > -z) border = true; } if (border) continue; if (in > 0) VH_CHECK(cover == 1, cover ? "twice" : "lost", "a point inside the view volume is in %d of the %zu pieces", cover, out.size()); else VH_CHECK(cover == 0, "extra", "a point outside the view volume is in a piece"); vh::ev(); }
}
template <class T> static void arcs()
{
    V ax; auto pl = planes(ax); int n = R.pick(std::vector<int>{1, 2, 3, 3, 3, 4, 5, 8, 16}); std::vector<F3> s; L mot = (L)R.lu(1e-9, 1); int kind = R.i(0, 3); F3 nrm{0, 0, 0}; V d0 = un(ax + rv((L)R.lu(1e-6, .5))); V vel = rv(1), acc = R.chance(.3) ? rv(.1L) : rv(2), jer = R.chance(.5) ? V{} : rv(4);
    if (kind == 0) { nrm = R.chance(.7) ? F3{R.chance(.5) ? 1.f : -1.f, 0, 0} : F3{0, 1.f, 0}; if (nrm.y == 0) d0 = {0, R.u(-1, 1), 1}; else d0 = {R.u(-1, 1), 0, 1}; V off = {}; off[nrm.y == 0 ? 0 : 1] = mot * (L)R.u(-.7, .7); d0 = d0 + off; pl.insert(pl.begin(), nrm); if (R.chance(.6)) pl.resize(1); } else if (!pl.empty()) nrm = R.pick(pl);
    for (int k = 0; k < n; ++k) { L t = n == 1 ? 0 : (L)k / (n - 1), q = t - .5L; V p = d0 + mot * (t * vel + (q * q) * acc + (q * q * q) * jer); if (kind == 2 && !R.chance(.2)) p = un(p); if (kind == 3) p = d0 + mot * rv(.5L); s.push_back(ff(p)); }
    vh::cur("arc of %d samples, motion %Lg, kind %d", n, mot, kind); TrajectoryArc arc(s); VH_CHECK(arc.sample_count() == (size_t)n, "count", "%zu samples", arc.sample_count()); vh::count(vh::fmt("arcs of %d samples", n).c_str());
    F3 big{0, 0, 0}; for (auto& p : s) for (int c = 0; c < 3; ++c) big[c] = std::max(big[c], std::abs(p[c])); L bend = 0; for (int k = 1; k + 1 < n; ++k) bend = std::max(bend, len(fv(s[(size_t)k + 1]) - 2 * fv(s[(size_t)k]) + fv(s[(size_t)k - 1])));
    for (int k = 0; k < n; ++k) { F3 p = arc.evaluate(n == 1 ? 0.f : (float)k / (float)(n - 1)); for (int c = 0; c < 3; ++c) VH_CHECK(std::abs(p[c] - s[(size_t)k][c]) <= 4e-6L * big[c] + 1e-6L * bend * n + 1e-37L, "sample", "the arc is at %.9g at sample %d of %d, which is %.9g", (double)p[c], k, n, (double)s[(size_t)k][c]); vh::ev(); }
    if (n > 1) for (int j = 0; j < 12; ++j) { L t = R.u(0, 1), x = t * (n - 1); int k = std::min(n - 2, (int)x); V lin = fv(s[(size_t)k]) + (x - k) * (fv(s[(size_t)k + 1]) - fv(s[(size_t)k])); VH_CHECK(len(fv(arc.evaluate((float)t)) - lin) <= bend * .75L + 5e-6L * len(fv(big)), "between", "the arc strays %Lg between samples bending by %Lg", len(fv(arc.evaluate((float)t)) - lin), bend); if (n == 3) { L a = (1 - t) * (1 - 2 * t), b = 4 * t * (1 - t), c = t * (2 * t - 1); V w = a * fv(s[0]) + b * fv(s[1]) + c * fv(s[2]); VH_CHECK(len(fv(arc.evaluate((float)t)) - w) <= 2e-6L * len(fv(big)) + 1e-6L * bend, "parabola", "off the parabola by %Lg", len(fv(arc.evaluate((float)t)) - w)); } vh::ev(); }
    vh::distinct(vh::hash(s[0].x, s.back().y, n));
    const int D = 1500; auto side = [&](const F3& nn, L t) { L f = dot(fv(nn), fv(arc.evaluate((float)t))), m = 3e-6L * absdot(nn, fv(big)) + 1e-6L * bend * (len(fv(nn)) > 0); m = std::max(m, 1e-38L); if (kind == 0 && (nn.x == 0) + (nn.y == 0) + (nn.z == 0) == 2) { L b2 = 0; int c = nn.x != 0 ? 0 : nn.y != 0 ? 1 : 2; for (int k = 1; k + 1 < n; ++k) b2 = std::max(b2, std::abs((L)s[(size_t)k + 1][c] - 2 * (L)s[(size_t)k][c] + (L)s[(size_t)k - 1][c])); m = 3e-6L * (big[c] + b2) + 1e-38L; } return std::pair<int, L>{f > m ? 1 : f < -m ? -1 : 0, f}; };
    if (n > 1 && len(fv(nrm)) > 0)
    { // every confident change of side has a crossing, every crossing is on the plane
        auto cr = arc.find_plane_crossings(nrm); L prev = 0; for (float t : cr) { VH_CHECK(t >= 0 && t <= 1 && t >= prev, "order", "crossing at %g after %Lg", (double)t, prev); prev = t; L dt = 2e-6L; auto a = side(nrm, std::max(0.L, t - dt)), b = side(nrm, t), c = side(nrm, std::min(1.L, t + dt)); VH_CHECK(b.first == 0 || a.first != b.first || c.first != b.first, "off-plane", "crossing reported at %.9g, where the arc is %Lg from the plane", (double)t, b.second); }
        int last = 0; L lt = 0; size_t changes = 0; for (int j = 0; j <= D; ++j) { L t = (L)j / D; auto [sd, f] = side(nrm, t); if (!sd) continue; if (last && sd != last) { ++changes; bool found = false; for (float c : cr) found |= c >= lt - 2e-6L && c <= t + 2e-6L; VH_CHECK(found, "crossing-missed", "the arc changes side between %.7Lg and %.7Lg, no crossing reported (%zu reported)", lt, t, cr.size()); vh::count("side changes"); } last = sd; lt = t; } vh::ev(); vh::count(vh::fmt("arcs with %zu changes", changes).c_str());
    }
    { Frustum<T> fr(pl); auto iv = fr.clip_arc(arc); L prev = -1; for (auto& [a, b] : iv) { VH_CHECK(a >= 0 && b <= 1 && a < b && a >= prev, "intervals", "kept part %g to %g after %Lg", (double)a, (double)b, prev); prev = b; }
      for (int j = 0; j < 150; ++j) { L t = R.u(0, 1); int worst = 1; for (auto& p : pl) worst = std::min(worst, side(p, t).first); if (worst == 0) continue; bool in = false, edge = false; for (auto& [a, b] : iv) { if (t >= a && t <= b) in = true; if (std::abs(t - a) < 4e-6L || std::abs(t - b) < 4e-6L) edge = true; } if (edge || t < 4e-6L || t > 1 - 4e-6L) continue; VH_CHECK(in == (worst > 0), in ? "arc-extra" : "arc-lost", "at time %.7Lg the arc is %s the view volume but %s", t, worst > 0 ? "inside" : "outside", in ? "kept" : "dropped"); vh::ev(); if (in) VH_CHECK(pl.empty() || fr.contains(arc.evaluate((float)t)), "contains", "kept point is not contained"); } vh::count(vh::fmt("arcs kept in %zu parts", iv.size()).c_str()); }
}
template <class T> static void contains() { V ax; auto pl = planes(ax); Frustum<T> f(pl); VH_CHECK(f.plane_count() == pl.size() && f.plane_normals() == pl, "planes", "planes"); for (int j = 0; j < 30; ++j) { V d = un(ax + rv(R.u(.01, 2))); L in = 1; for (auto& n : pl) in = std::min(in, dot(fv(n), d)); if (std::abs(in) < 1e-6L) continue; VH_CHECK(f.contains(ff(d)) == (in > 0), "contains", "direction at %Lg", in); vh::ev(); } VH_CHECK(vh::throws([] { TrajectoryArc a{std::vector<F3>{}}; }), "no-samples", "an arc without samples accepted"); }
static void body() { R = vh::Rng(vh::seed() * 43 + 28); for (int i = 0, N = vh::n(4000, 150000); i < N; ++i) { vh::watchdog(30); if (i % 6 == 5) { triangles<Visible8>(); arcs<Visible8>(); contains<Visible8>(); } else { triangles<RGB>(); triangles<RGB>(); arcs<RGB>(); } } }
VH_MAIN(body())
