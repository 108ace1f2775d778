// C21: reflection models against long-double formulas, symmetry relations, and their own sampling.
#include "vh.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "ld.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
#include "huira/materials/bsdfs/hapke_bsdf.hpp"
#include "huira/materials/bsdfs/lambertian_bsdf.hpp"
#include "huira/materials/bsdfs/lommel_seeliger_bsdf.hpp"
#include "huira/materials/bsdfs/mcewen_bsdf.hpp"
#include "huira/materials/bsdfs/null_bsdf.hpp"
#include "huira/materials/bsdfs/oren_nayar_bsdf.hpp"
using F3 = Vec3<float>; using Is = Interaction<S>; using Sh = ShadingParams<S>;
static const L PI_ = std::acos(-1.L);
enum Model_ { LAM, OREN, COOK, HAP, LOM, MCE, NM };
static const char* mn[] = {"lambert", "oren-nayar", "cook-torrance", "hapke", "lommel-seeliger", "mcewen"};
struct HP { L h, B0, b, c; };
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
struct Ref { L v[3]; L pdf; };
static Ref ref(int m, const HP& hp, const V& o, const V& i, const V& n, const Sh& p)
{
    Ref r{}; L ci = dot(i, n), co = dot(o, n); bool up = ci > 0 && co > 0; if (m == LAM ? ci <= 0 : !up) return r; L ca = std::clamp(dot(i, o), -1.L, 1.L), al = std::atan2(len(cross(i, o)), dot(i, o));
    r.pdf = ci / PI_;
    for (size_t k = 0; k < 3; ++k)
    {
        L rho = p.albedo[k]; L& f = r.v[k];
        switch (m)
        {
        case LAM: f = rho / PI_; break;
        case OREN: { L s = p.roughness * PI_ / 2, s2 = s * s, A = 1 - .5L * s2 / (s2 + .33L), B = .45L * s2 / (s2 + .09L), cphi = ca - ci * co, t = cphi > 0 ? cphi / std::max(ci, co) : 0; f = rho / PI_ * (A + B * t); break; }
        case LOM: f = rho / (4 * PI_ * (ci + co)); break;
        case MCE: { L be = std::exp(-al / (PI_ / 3)); f = rho * ((1 - be) / PI_ + be / (4 * PI_ * (ci + co))); break; }
        case HAP: { auto hg = [](L g, L c) { return (1 - g * g) / std::pow(1 + g * g - 2 * g * c, 1.5L); }; L P = (1 - hp.c) * hg(-hp.b, ca) + hp.c * hg(hp.b, ca), B = hp.h > 0 ? hp.B0 / (1 + std::tan(al / 2) / hp.h) : 0; auto H = [&](L u) { return (1 + 2 * u) / (1 + 2 * u * std::sqrt(1 - rho)); }; f = rho / (4 * PI_ * (ci + co)) * ((1 + B) * P + H(ci) * H(co) - 1); break; }
        case COOK:
        {
            L ro = std::clamp((L)p.roughness, (L)0.01f, 1.L), me = std::clamp((L)p.metallic, 0.L, 1.L), a = ro * ro, a2 = a * a; V h = un(o + i); V nh = cross(n, h); L s2 = dot(nh, nh), D = a2 / (PI_ * std::pow(a2 * (1 - s2) + s2, 2)), oh = dot(o, h);
            auto lam = [&](L c) { return (-1 + std::sqrt(1 + a2 * (1 - c * c) / (c * c))) / 2; }; L G = 1 / (1 + lam(ci) + lam(co)), f0 = rho * me + .04L * (1 - me), F = f0 + (1 - f0) * std::pow(1 - oh, 5); f = (1 - me) * rho / PI_ + D * F * G / (4 * ci * co);
            L w = .5L * (1 + me); r.pdf = w * D / (1 + lam(co)) / (4 * co) + (1 - w) * ci / PI_; break;
        }
        }
    }
    return r;
}
static std::unique_ptr<BSDF<S>> make(int m, HP& hp)
{
    switch (m) { case LAM: return std::make_unique<LambertianBSDF<S>>(); case OREN: return std::make_unique<OrenNayarBSDF<S>>(); case COOK: return std::make_unique<CookTorranceBSDF<S>>(); case LOM: return std::make_unique<LommelSeeligerBSDF<S>>(); case MCE: return std::make_unique<McEwenBSDF<S>>();
    default: { float h = R.chance(.1) ? 0.f : (float)R.lu(.005, 2), B0 = (float)R.u(0, 1.5), b = (float)R.u(0, .8), c = R.f(); hp = {h, B0, b, c}; return std::make_unique<HapkeBSDF<S>>(h, B0, b, c); } }
}
static Is frame(V& n)
{
    Is is{}; V t; if (R.chance(.15)) { n = {0, 0, R.chance(.5) ? 1.L : -1.L}; t = {1, 0, 0}; } else { n = un(rv(1)); t = un(cross(n, un(rv(1)))); } V b = cross(n, t); is.normal_s = is.normal_g = ff(n); is.tangent = ff(t); is.bitangent = ff(b); n = un(fv(is.normal_s)); return is;
}
static V dir(const V& n, bool up)
{
    V d = un(rv(1)); double k = R.f(); if (k < .15) { V t = un(d - dot(d, n) * n); L e = (L)R.lu(1e-5, .1); d = un(t + e * n); } else if (k < .25) d = un(n + (L)R.lu(1e-6, .3) * d); if (up && dot(d, n) < 0) d = d - (2 * dot(d, n)) * n; return d;
}
static Sh shade(int m) { Sh p; for (size_t k = 0; k < 3; ++k) p.albedo[k] = R.chance(.1) ? 1.f : R.chance(.1) ? 0.f : R.f(); p.roughness = R.chance(.12) ? 0.f : R.chance(.12) ? 1.f : R.chance(.3) ? (float)R.lu(.005, .1) : R.f(); p.metallic = R.chance(.3) ? 1.f : R.chance(.3) ? 0.f : R.f(); if (m == COOK && R.chance(.03)) { p.roughness = R.chance(.5) ? -1.f : 2.f; p.metallic = R.chance(.5) ? -1.f : 2.f; } return p; }
static void pairs(int m)
{
    HP hp{}; auto f = make(m, hp); V n; Is is = frame(n); Sh p = shade(m); bool mirror = m == COOK && R.chance(.35); V o = dir(n, !R.chance(.1)), i = dir(n, !R.chance(.1)); L al = std::pow(std::clamp((L)p.roughness, .01L, 1.L), 2);
    if (mirror) { i = (2 * dot(o, n)) * n - o; if (R.chance(.8)) i = un(i + (al * (L)R.lu(1e-3, 10)) * un(rv(1))); } if (R.chance(.1)) i = o;
    F3 wo = ff(o), wi = ff(i); o = un(fv(wo)); i = un(fv(wi)); L ci = dot(i, n), co = dot(o, n); if (std::abs(ci) < 2e-6L || std::abs(co) < 2e-6L) return;
    vh::cur("%s wo=(%.9g,%.9g,%.9g) wi=(%.9g,%.9g,%.9g) n=(%.9g,%.9g,%.9g) rough=%g metal=%g albedo=(%g,%g,%g) hapke=(%Lg,%Lg,%Lg,%Lg)", mn[m], wo.x, wo.y, wo.z, wi.x, wi.y, wi.z, is.normal_s.x, is.normal_s.y, is.normal_s.z, p.roughness, p.metallic, p.albedo[0], p.albedo[1], p.albedo[2], hp.h, hp.B0, hp.b, hp.c);
    Ref r = ref(m, hp, o, i, n, p); S e = f->eval(wo, wi, is, p), q = f->eval(wi, wo, is, p); float pd = f->pdf(wo, wi, is, p); bool up = ci > 0 && co > 0;
    L tol = 3e-5L + 1.5e-6L / std::abs(ci) + 1.5e-6L / std::abs(co); if (m == COOK) { tol += 4e-6L / al + 1.5e-6L / (al * len(o + i)); if (std::min(std::abs(ci), std::abs(co)) < 1.2e-4L) tol = 1; /* cosines below 1e-4 are clamped */ if (tol > .5L) { VH_CHECK(std::isfinite(e[0]) && e[0] >= 0 && std::isfinite(pd) && pd >= 0, "not-finite", "%s eval %g pdf %g", mn[m], (double)e[0], (double)pd); vh::count("ill-conditioned"); return; } }
    if (m == HAP || m == MCE) { L sa = len(cross(o, i)), da = std::min(1.2e-3L, 5e-7L / std::max(sa, 1e-9L)); tol += 8 * da; if (m == HAP) { tol += 3e-6L / std::pow(1 - hp.b, 2); if (hp.h > 0) tol += da / hp.h; } } // acos of a rounded cosine
    for (size_t k = 0; k < 3; ++k) {
        VH_CHECK(std::isfinite(e[k]) && e[k] >= 0, "not-finite", "%s eval gives %g", mn[m], (double)e[k]);
        L at = m == OREN && up ? 2e-6L / std::max(ci, co) : 0; VH_CHECK(std::abs((L)e[k] - r.v[k]) <= tol * r.v[k] + at + 1e-9L, "value", "%s eval[%zu]=%.9g expected %.9Lg", mn[m], k, (double)e[k], r.v[k]);
        if (up) VH_CHECK(std::abs((L)e[k] - (L)q[k]) <= tol * r.v[k] + at + 1e-9L, "reciprocity", "%s f(o,i)=%.9g f(i,o)=%.9g", mn[m], (double)e[k], (double)q[k]); }
    if (up) { VH_CHECK(std::isfinite(pd) && std::abs((L)pd - r.pdf) <= (tol + 2e-6L / ci) * r.pdf + 1e-9L, "pdf", "%s pdf=%.9g expected %.9Lg", mn[m], (double)pd, r.pdf);
        // turning everything about the normal changes nothing
        M t = turn(n, (L)R.u(-3, 3)); S w = f->eval(ff(app(t, o)), ff(app(t, i)), is, p); for (size_t k = 0; k < 3; ++k) VH_CHECK(std::abs((L)e[k] - (L)w[k]) <= 2 * tol * r.v[k] + (m == OREN ? 4e-6L / std::max(ci, co) : 0) + 1e-9L, "isotropy", "%s changes from %g to %g when turned about the normal", mn[m], (double)e[k], (double)w[k]); }
    else VH_CHECK(pd == 0 || (m == LAM && ci > 0), "pdf-below", "%s pdf=%g below the surface", mn[m], (double)pd);
    vh::count(mn[m]); if (mirror) vh::count("near mirror"); if (!up) vh::count("below surface"); vh::ev(); if (up) vh::distinct(vh::hash(wo.x, wi.y, p.roughness, p.metallic, m));
}
static void draws(int m)
{
    HP hp{}; auto f = make(m, hp); V n; Is is = frame(n); Sh p = shade(m); V o = dir(n, true); F3 wo = ff(o); o = un(fv(wo)); if (dot(o, n) < 1e-5L) return; L al = std::pow(std::clamp((L)p.roughness, .01L, 1.L), 2);
    for (int j = 0; j < 12; ++j)
    {
        float u1 = R.chance(.1) ? 0.f : R.chance(.1) ? 0x1.fffffep-1f : R.chance(.1) ? (float)R.lu(1e-9, 1e-3) : R.f(), u2 = R.chance(.1) ? 0.f : R.chance(.1) ? 0x1.fffffep-1f : R.f(); if (u1 >= 1) u1 = 0x1.fffffep-1f; if (u2 >= 1) u2 = 0x1.fffffep-1f;
        vh::cur("sample %s wo=(%.9g,%.9g,%.9g) n=(%.9g,%.9g,%.9g) rough=%g metal=%g u=(%.9g,%.9g)", mn[m], wo.x, wo.y, wo.z, is.normal_s.x, is.normal_s.y, is.normal_s.z, p.roughness, p.metallic, u1, u2);
        auto s = f->sample(wo, is, p, u1, u2); vh::ev(); for (size_t k = 0; k < 3; ++k) VH_CHECK(std::isfinite(s.value[k]) && s.value[k] >= 0 && std::isfinite(s.pdf), "sample-not-finite", "%s value %g pdf %g", mn[m], (double)s.value[k], (double)s.pdf);
        VH_CHECK(!s.is_delta, "delta", "%s claims a delta sample", mn[m]); if (!s.is_valid()) { for (size_t k = 0; k < 3; ++k) VH_CHECK(s.value[k] == 0 || s.pdf == 0, "invalid-sample", "invalid sample with value"); vh::count("rejected samples"); continue; }
        V i = fv(s.wi); L l = len(i); VH_CHECK(std::abs(l - 1) < 2e-5L, "not-unit", "%s direction of length %Lg", mn[m], l); i = un(i); L ci = dot(i, n); VH_CHECK(ci > -1e-6L, "below", "%s sampled below the surface (cos %Lg)", mn[m], ci); if (ci < 1e-3L) continue;
        float q = f->pdf(wo, s.wi, is, p); L tol = 1e-4L + 2e-6L / ci + 2e-6L / dot(o, n); VH_CHECK(std::abs((L)q - s.pdf) <= tol * s.pdf, "pdf-mismatch", "%s sample says %.9g, pdf() %.9g", mn[m], (double)s.pdf, (double)q);
        S e = f->eval(wo, s.wi, is, p); for (size_t k = 0; k < 3; ++k) { L w = (L)e[k] * ci / s.pdf; VH_CHECK(std::abs(w - (L)s.value[k]) <= (tol + (m == OREN ? 1e-3L : 0)) * w + 1e-7L, "sample-value", "%s sample value %.9g, eval*cos/pdf %.9Lg", mn[m], (double)s.value[k], w); }
        if (m == COOK && dot(o, n) > 1.5e-4L) { Ref r = ref(m, hp, o, i, n, p); L t = 1e-3L + 4e-5L / al + 3e-6L / (al * len(o + i)) + 4e-6L / ci + 4e-6L / dot(o, n); if (t < .5L) VH_CHECK(std::abs((L)q - r.pdf) <= t * r.pdf, "pdf", "%s pdf of a sample %.9g expected %.9Lg", mn[m], (double)q, r.pdf); }
    }
}
// sampled directions fill the hemisphere with the density reported, and average to the reflected energy
static void totals(int m)
{
    HP hp{}; auto f = make(m, hp); V n; Is is = frame(n); Sh p = shade(m); if (m == COOK) p.roughness = (float)R.u(.3, 1); V o = dir(n, true); L co = dot(o, n); while (co < (m == COOK ? .15L : .05L)) { o = un(o + .2L * n); co = dot(o, n); } F3 wo = ff(o); o = un(fv(wo));
    V t = un(fv(is.tangent)), b = cross(n, t); const int Z = 8, PH = 8, Q = m == COOK ? 64 : 24; /* the specular lobe is narrow */ L bin[Z][PH] = {}, tot[3] = {}, mass = 0;
    for (int a = 0; a < Z * Q; ++a) for (int c = 0; c < PH * Q; ++c) { L z = (a + .5L) / (Z * Q), ph = 2 * PI_ * (c + .5L) / (PH * Q), r = std::sqrt(1 - z * z); V i = r * std::cos(ph) * t + r * std::sin(ph) * b + z * n; Ref q = ref(m, hp, o, i, n, p); L w = 2 * PI_ / (Z * Q * PH * Q); bin[a / Q][c / Q] += q.pdf * w; mass += q.pdf * w; for (size_t k = 0; k < 3; ++k) tot[k] += q.v[k] * z * w; }
    const int N = 160; L got[Z][PH] = {}, val[3] = {}; vh::cur("totals %s rough=%g metal=%g cos_o=%Lg", mn[m], p.roughness, p.metallic, dot(o, n));
    for (int a = 0; a < N; ++a) for (int c = 0; c < N; ++c) { auto s = f->sample(wo, is, p, ((float)a + R.f()) / N, ((float)c + R.f()) / N); if (!s.is_valid()) continue; V i = fv(s.wi); L z = std::clamp(dot(i, n), 0.L, .999999L), ph = std::atan2(dot(i, b), dot(i, t)); if (ph < 0) ph += 2 * PI_; got[(int)(z * Z)][std::min(PH - 1, (int)(ph / (2 * PI_) * PH))] += 1.L / (N * N); for (size_t k = 0; k < 3; ++k) val[k] += s.value[k] / (N * N); }
    for (int a = 0; a < Z; ++a) for (int c = 0; c < PH; ++c) VH_CHECK(std::abs(bin[a][c] - got[a][c]) < .004L + .05L * bin[a][c], "density", "%s region (%d,%d): %Lg of the samples, density says %Lg", mn[m], a, c, got[a][c], bin[a][c]);
    VH_CHECK(mass <= 1.005L, "mass", "%s density integrates to %Lg", mn[m], mass);
    for (size_t k = 0; k < 3; ++k) { VH_CHECK(std::abs(val[k] - tot[k]) <= .02L * tot[k] + .002L, "energy", "%s sampling reflects %Lg, its formula %Lg", mn[m], val[k], tot[k]); if (m == LAM) VH_CHECK(std::abs(val[k] - p.albedo[k]) < 1e-4L, "lambert-albedo", "reflects %Lg with albedo %g", val[k], (double)p.albedo[k]);
        if (m != HAP && !(m == COOK && p.metallic < 1)) VH_CHECK(val[k] <= 1.01L, "gain", "%s reflects %Lg times what arrives", mn[m], val[k]); }
    vh::count("energy balances"); vh::ev();
}
static void body()
{
    R = vh::Rng(vh::seed() * 31 + 21); NullBSDF<S> nul;
    for (int j = 0; j < 200; ++j) { V n; Is is = frame(n); F3 wo = ff(dir(n, false)), wi = ff(dir(n, false)); Sh p; auto s = nul.sample(wo, is, p, R.f(), R.f()); S e = nul.eval(wo, wi, is, p); VH_CHECK(s.wi == -wo && s.is_delta && s.is_valid() && s.value == S{1.f} && e == S{0.f} && nul.pdf(wo, wi, is, p) == 0, "null", "the null surface does not pass light straight through"); vh::ev(); }
    for (int i = 0, N = vh::n(60000, 1500000); i < N; ++i) pairs(i % NM);
    for (int i = 0, N = vh::n(12000, 300000); i < N; ++i) draws(i % NM);
    for (int i = 0, N = vh::n(60, 1200); i < N; ++i) { vh::watchdog(60); totals(i % NM); }
}
VH_MAIN(body())
