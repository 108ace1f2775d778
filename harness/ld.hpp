// Long-double vectors, rotations and analytic motions shared by the scene monitors.
#pragma once
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/core/rotation.hpp"
using namespace huira;
using L = long double; using V = cs::V3; using M = cs::M33; using S = RGB;
[[maybe_unused]] static vh::Rng R(1);
[[maybe_unused]] static V operator+(V a, const V& b) { for (size_t i = 0; i < 3; ++i) a[i] += b[i]; return a; }
[[maybe_unused]] static V operator-(V a, const V& b) { for (size_t i = 0; i < 3; ++i) a[i] -= b[i]; return a; }
[[maybe_unused]] static V operator*(L k, V a) { for (auto& x : a) x *= k; return a; }
[[maybe_unused]] static L dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
[[maybe_unused]] static L len(const V& a) { return std::sqrt(dot(a, a)); }
[[maybe_unused]] static V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
[[maybe_unused]] static V app(const M& m, const V& v) { V r{}; for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 3; ++k) r[i] += m[i][k] * v[k]; return r; }
[[maybe_unused]] static M mul(const M& a, const M& b) { M r{}; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) for (size_t k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; return r; }
[[maybe_unused]] static M tr(const M& a) { M r{}; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) r[i][j] = a[j][i]; return r; }
[[maybe_unused]] static M turn(const V& ax, L a) { L n = len(ax), x = ax[0] / n, y = ax[1] / n, z = ax[2] / n, c = std::cos(a), s = std::sin(a), t = 1 - c; return {{{t * x * x + c, t * x * y - s * z, t * x * z + s * y}, {t * x * y + s * z, t * y * y + c, t * y * z - s * x}, {t * x * z - s * y, t * y * z + s * x, t * z * z + c}}}; } // active
[[maybe_unused]] static V lv(const Vec3<double>& v) { return {v.x, v.y, v.z}; }
[[maybe_unused]] static Vec3<double> dv(const V& v) { return {(double)v[0], (double)v[1], (double)v[2]}; }
[[maybe_unused]] static M lm(const Rotation<double>& r) { auto m = r.local_to_parent_matrix(); M o; for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) o[i][j] = m[(int)j][(int)i]; return o; }
[[maybe_unused]] static Rotation<double> dr(const M& m) { Mat3<double> o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[j][i] = (double)m[(size_t)i][(size_t)j]; return Rotation<double>::from_local_to_parent(o); }
[[maybe_unused]] static V rv(L s) { return {(L)(double)(R.gauss() * (double)s), (L)(double)(R.gauss() * (double)s), (L)(double)(R.gauss() * (double)s)}; }
[[maybe_unused]] static M rrot() { return lm(dr(turn(rv(1), R.u(-3.2, 3.2)))); }
// analytic motions
struct Move { V c{}, a{}, b{}; L w = 0; V at(L t, L t0) const { return c + std::sin(w * (t - t0)) * a + std::cos(w * (t - t0)) * b; } V vel(L t, L t0) const { return (w * std::cos(w * (t - t0))) * a - (w * std::sin(w * (t - t0))) * b; } };
struct Spin { V ax{0, 0, 1}; L w = 0, q = 0; M r0{}; M at(L t, L t0) const { return mul(turn(ax, w * (t - t0) + q * std::sin(w * (t - t0))), r0); } V om(L t, L t0) const { return ((w + q * w * std::cos(w * (t - t0))) / len(ax)) * ax; } };
[[maybe_unused]] static L T0 = 0;
[[maybe_unused]] static Move rmove() { L s = (L)R.lu(1, 1e6); return {rv(s), rv(s), rv(s), (L)(double)R.u(.01, 1)}; }
[[maybe_unused]] static Spin rspin() { return {rv(1), (L)(double)R.u(-.5, .5), R.chance(.5) ? 0 : (L)(double)R.u(-.9, .9), rrot()}; }

// the solar-system barycentre and J2000 as one motionless frame
[[maybe_unused]] static void still_frames() { cs::action = "RETURN"; cs::eph = [](const std::string&, L, const std::string&, const std::string&, const std::string&, cs::State& st, L& lt) { st = {}; lt = 0; return true; }; cs::att = [](const std::string&, const std::string&, L, cs::Attitude& o) { o = {}; o.r[0][0] = o.r[1][1] = o.r[2][2] = 1; return true; }; }
