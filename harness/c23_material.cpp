// C23: histories of material and texture calls; the parameters and shading frame evaluated afterwards are compared
// with a model of the documented channels and long-double normal mapping.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using F3 = Vec3<float>;
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
template <class T> static T spec(float lo, float hi) { T t{0.f}; for (size_t i = 0; i < T::size(); ++i) t[i] = R.chance(.1) ? 0.f : R.chance(.1) ? 1.f : (float)R.u(lo, hi); return t; }
template <class P, class Fn> static Image<P> image(Fn f) { Image<P> im(R.chance(.2) ? Resolution{1, 1} : Resolution{R.i(1, 7), R.i(1, 7)}); for (size_t i = 0; i < im.size(); ++i) im[i] = f(); return im; }
template <class T> struct Tex { std::vector<std::pair<Image<T>, TextureHandle<T>>> spec; std::vector<std::pair<Image<float>, TextureHandle<float>>> mono; std::vector<std::pair<Image<F3>, TextureHandle<F3>>> nrm; };
template <class T> struct Mod
{
    std::shared_ptr<BSDF<T>> b; const Image<T>*al = nullptr, *tr = nullptr, *em = nullptr; const Image<float>*op = nullptr, *me = nullptr, *ro = nullptr; const Image<F3>* no = nullptr; T fal{1.f}, ftr{0.f}, fem{0.f}; float fop = 1, fme = 0, fro = 1, fno = 1;
};
static bool close(L a, L b, L s = 1) { return std::abs(a - b) <= 3e-6L * std::max({std::abs(a), std::abs(b), s * 1e-3L}); }
template <class T> static F3 at(const Image<F3>* im, const Vec2<float>& uv) { return im ? im->sample_bilinear(uv.x, uv.y) : F3{0, 0, 1}; }
template <class T> static void check(MaterialHandle<T>& h, const Mod<T>& m)
{
    auto mat = h.get(); Interaction<T> is{}; V g = un(rv(1)), n = R.chance(.5) ? g : un(g + .3L * un(rv(1))); if (R.chance(.1)) n = {0, 0, R.chance(.5) ? 1.L : -1.L}; V t = un(cross(n, un(rv(1)))), b = cross(n, t); double k = R.f(); bool skew = false;
    if (k < .15) { t = {0, 0, 0}; b = {0, 0, 0}; } else if (k < .25) { t = n; b = un(cross(n, un(rv(1)))); skew = true; } else if (k < .4) { t = un(t + .4L * un(rv(1))); skew = true; } else if (k < .5) b = -1.L * b;
    is.position = ff(rv(10)); is.normal_g = ff(g); is.normal_s = ff(n); is.tangent = ff(t); is.bitangent = ff(b); is.wo = ff(un(rv(1))); is.uv = R.chance(.2) ? Vec2<float>{(float)R.i(-2, 2), (float)R.i(-2, 2)} : Vec2<float>{(float)R.u(-2, 3), (float)R.u(-2, 3)}; is.vertex_albedo = R.chance(.5) ? T{1.f} : spec<T>(0, 1); n = fv(is.normal_s); t = fv(is.tangent); b = fv(is.bitangent);
    vh::cur("uv=(%g,%g) n=(%.9g,%.9g,%.9g) t=(%.9g,%.9g,%.9g) normal map %d factor %g", is.uv.x, is.uv.y, is.normal_s.x, is.normal_s.y, is.normal_s.z, is.tangent.x, is.tangent.y, is.tangent.z, m.no != nullptr, m.fno);
    auto e = mat->evaluate(is); vh::ev(); auto q = m.b->requirements(); auto S1 = [&](const Image<T>* im, const T& f) { T v = im ? im->sample_bilinear(is.uv.x, is.uv.y) : T{1.f}; return v * f; }; auto M1 = [&](const Image<float>* im, float f) { return (im ? im->sample_bilinear(is.uv.x, is.uv.y) : 1.f) * f; };
    T al = q.needs_albedo ? S1(m.al, m.fal) * is.vertex_albedo : T{1.f}, tr = S1(m.tr, m.ftr), em = S1(m.em, m.fem); float op = M1(m.op, m.fop), me = q.needs_metallic ? M1(m.me, m.fme) : 0.f, ro = q.needs_roughness ? M1(m.ro, m.fro) : .5f;
    for (size_t i = 0; i < T::size(); ++i) { VH_CHECK(close(e.params.albedo[i], al[i]), "albedo", "bin %zu is %g, expected %g", i, (double)e.params.albedo[i], (double)al[i]); VH_CHECK(close(e.params.transmission[i], tr[i]), "transmission", "bin %zu is %g, expected %g", i, (double)e.params.transmission[i], (double)tr[i]); VH_CHECK(close(e.params.emission[i], em[i]), "emission", "bin %zu is %g, expected %g", i, (double)e.params.emission[i], (double)em[i]); }
    VH_CHECK(close(e.params.opacity, op), "opacity", "%g, expected %g", (double)e.params.opacity, (double)op); VH_CHECK(close(e.params.metallic, me), "metallic", "%g, expected %g", (double)e.params.metallic, (double)me); VH_CHECK(close(e.params.roughness, ro), "roughness", "%g, expected %g", (double)e.params.roughness, (double)ro);
    VH_CHECK(mat->alpha_factor() == m.fop && mat->has_alpha_texture() == (m.op != nullptr), "alpha-state", "factor %g texture %d", (double)mat->alpha_factor(), (int)mat->has_alpha_texture()); if (m.op || m.fop < 1) VH_CHECK(mat->has_alpha(), "has-alpha", "a see-through material says it is opaque");
    // shading frame
    V N = fv(e.isect.normal_s), T1 = fv(e.isect.tangent), B1 = fv(e.isect.bitangent); bool fin = std::isfinite(N[0] + N[1] + N[2] + T1[0] + T1[1] + T1[2] + B1[0] + B1[1] + B1[2]); VH_CHECK(fin, "not-finite", "normal (%Lg,%Lg,%Lg) tangent (%Lg,%Lg,%Lg)", N[0], N[1], N[2], T1[0], T1[1], T1[2]); if (!fin) return;
    VH_CHECK(std::abs(len(N) - 1) < 4e-6L, "normal-length", "%Lg", len(N)); V pt = t - dot(t, N) * N; L tol = len(pt) > .1L || len(pt) == 0 ? 8e-6L : 4e-7L / std::max(1e-3L, len(pt)) + 8e-6L; VH_CHECK(std::abs(len(T1) - 1) < tol && std::abs(len(B1) - 1) < tol && std::abs(dot(T1, N)) < tol && std::abs(dot(B1, N)) < tol && std::abs(dot(T1, B1)) < tol && len(cross(N, T1) - B1) < tol, "frame", "t=(%Lg,%Lg,%Lg) b=(%Lg,%Lg,%Lg) n=(%Lg,%Lg,%Lg)", T1[0], T1[1], T1[2], B1[0], B1[1], B1[2], N[0], N[1], N[2]);
    if (len(pt) > .02L) VH_CHECK(len(T1 - un(pt)) < 3e-5L, "tangent", "the shading tangent is not the surface tangent projected");
    bool map = q.needs_normal && len(t) > 0; V want = n; bool known = true; if (map) { F3 s = at<T>(m.no, is.uv); V p = ((L)s.x * m.fno) * t + ((L)s.y * m.fno) * b + (L)s.z * n; L pl = len(p); if (!(pl > 1e-3L)) known = !(pl == pl) ? false : pl > 1e-3L; if (known) want = un(p); else vh::count("degenerate normal samples"); }
    if (known) VH_CHECK(len(N - want) < 2e-5L + (map ? 3e-6L : 0), "normal", "(%.7Lg,%.7Lg,%.7Lg), expected (%.7Lg,%.7Lg,%.7Lg)", N[0], N[1], N[2], want[0], want[1], want[2]); if (map && m.no) vh::count("normal-mapped"); if (skew) vh::count("skewed tangents");
    VH_CHECK(e.isect.position == is.position && e.isect.normal_g == is.normal_g && e.isect.uv == is.uv && e.isect.wo == is.wo && e.isect.vertex_albedo == is.vertex_albedo, "untouched", "evaluation changed position, geometric normal, coordinates, direction or vertex colour");
    // the material hands exactly these to its model
    F3 wi = ff(un(rv(1))); float u1 = R.f(), u2 = R.f(); auto x = mat->bsdf_sample(is.wo, e, u1, u2), y = m.b->sample(is.wo, e.isect, e.params, u1, u2); auto same = [](float a, float c) { return a == c || (a != a && c != c); }; T ea = mat->bsdf_eval(is.wo, wi, e), eb = m.b->eval(is.wo, wi, e.isect, e.params); bool ok = same(mat->bsdf_pdf(is.wo, wi, e), m.b->pdf(is.wo, wi, e.isect, e.params)) && same(x.pdf, y.pdf) && x.is_delta == y.is_delta; for (int i = 0; i < 3; ++i) ok &= same(x.wi[i], y.wi[i]); for (size_t i = 0; i < T::size(); ++i) ok &= same(x.value[i], y.value[i]) && same(ea[i], eb[i]); VH_CHECK(ok, "delegation", "%s: the material and its model disagree", m.b->type().c_str());
    bool fine = std::isfinite(x.pdf); for (size_t i = 0; i < T::size(); ++i) fine &= std::isfinite(ea[i]) && std::isfinite(x.value[i]); bool le1 = true; for (size_t i = 0; i < T::size(); ++i) le1 &= al[i] <= 1; if (le1) VH_CHECK(fine, "bsdf-not-finite", "%s rough %g metal %g albedo %g: eval %g sample %g pdf %g wi.n %g wo.n %g", m.b->type().c_str(), (double)ro, (double)me, (double)al[0], (double)ea[0], (double)x.value[0], (double)x.pdf, (double)glm::dot(wi, e.isect.normal_s), (double)glm::dot(is.wo, e.isect.normal_s));
    vh::distinct(vh::hash(is.uv.x, is.normal_s.y, m.fno, ro));
}
template <class T> static void history()
{
    auto sp = std::make_unique<Scene<T>>(); auto& s = *sp; std::vector<std::shared_ptr<BSDF<T>>> bs; auto addb = [&](BSDFHandle<T> h) { bs.push_back(h.get()); return h; };
    std::vector<BSDFHandle<T>> bh{addb(s.new_bsdf_lambertian()), addb(s.new_bsdf_cook_torrance()), addb(s.new_bsdf_null()), addb(s.new_bsdf_oren_nayar()), addb(s.new_bsdf_mcewen()), addb(s.new_bsdf_lommel_seeliger()), addb(s.new_bsdf_hapke(.1f, .5f, .3f, .4f))};
    Tex<T> x; for (int i = 0; i < 3; ++i)
    {
        auto a = image<T>([] { return spec<T>(0, 1); }); auto ca = a; x.spec.emplace_back(std::move(ca), s.add_texture(std::move(a))); auto b = image<float>([] { return R.f(); }); auto cb = b; x.mono.emplace_back(std::move(cb), s.add_texture(std::move(b)));
        bool bad = R.chance(.3); auto c = image<F3>([&] { return bad && R.chance(.4) ? (R.chance(.5) ? F3{.5f, .5f, .5f} : F3{1, .5f, .5f}) : R.chance(.1) ? F3{.5f, .5f, 1} : F3{R.f(), R.f(), (float)R.u(.3, 1)}; }); if (bad && c.size() > 1 && R.chance(.5)) c[0] = F3{1, 1, 1} - c[1]; auto cc = c; Image<RGB> rgb(c.resolution()); for (size_t k = 0; k < c.size(); ++k) { rgb[k][0] = c[k].x; rgb[k][1] = c[k].y; rgb[k][2] = c[k].z; }
        bool viargb = R.chance(.5); auto h = viargb ? s.add_normal_texture(std::move(rgb)) : s.add_normal_texture(std::move(c)); auto got = h.get()->shared_image(); vh::cur("normal texture"); VH_CHECK(got->width() == cc.width() && got->height() == cc.height(), "normal-texture-size", "%d x %d", got->width(), got->height());
        for (size_t k = 0; k < cc.size() && got->size() == cc.size(); ++k) { V v = 2.L * fv(cc[k]) - V{1, 1, 1}; F3 w = (*got)[k]; vh::ev(); VH_CHECK(std::isfinite(w.x + w.y + w.z), "normal-texture-nan", "colour (%g,%g,%g) decodes to (%g,%g,%g)", cc[k].x, cc[k].y, cc[k].z, w.x, w.y, w.z); if (len(v) > 1e-2L) VH_CHECK(len(fv(w) - un(v)) < 3e-5L, "normal-texture", "colour (%g,%g,%g) decodes to (%g,%g,%g)", cc[k].x, cc[k].y, cc[k].z, w.x, w.y, w.z); }
        auto cp = *got; x.nrm.emplace_back(std::move(cp), h); auto d = image<F3>([] { return ff(un(rv(1))); }); auto cd = d; if (R.chance(.3)) x.nrm.emplace_back(std::move(cd), s.add_texture(std::move(d)));
    }
    std::vector<MaterialHandle<T>> h; std::vector<Mod<T>> m; for (int i = 0, n = R.i(1, 3); i < n; ++i) { size_t k = R.below(bh.size()); h.push_back(s.new_material(bh[k])); m.push_back({}); m.back().b = bs[k]; } check(h[0], m[0]);
    for (int i = 0, n = R.i(5, 30); i < n; ++i)
    {
        size_t j = R.below(h.size()); auto& H = h[j]; auto& Q = m[j]; auto& sp = x.spec[R.below(x.spec.size())]; auto& mo = x.mono[R.below(x.mono.size())]; auto& nr = x.nrm[R.below(x.nrm.size())]; T f = R.chance(.15) ? T{0.f} : spec<T>(0, 2); float c = R.chance(.15) ? 0.f : R.chance(.15) ? 1.f : (float)R.u(0, 2); int op = R.i(0, 21);
        vh::cur("operation %d", op);
        switch (op)
        {
        case 0: { size_t k = R.below(bs.size()); H.set_bsdf(bs[k]); Q.b = bs[k]; break; }
        case 1: H.set_albedo_image(sp.second); Q.al = &sp.first; break; case 2: H.set_albedo_factor(f); Q.fal = f; break; case 3: H.reset_albedo(); Q.al = nullptr; Q.fal = T{1.f}; break;
        case 4: H.set_alpha_image(mo.second); Q.op = &mo.first; break; case 5: H.set_alpha_factor(c); Q.fop = c; break; case 6: H.reset_alpha(); Q.op = nullptr; Q.fop = 1; break;
        case 7: H.set_metallic_image(mo.second); Q.me = &mo.first; if (Q.fme == 0) Q.fme = 1; break; case 8: H.set_metallic_factor(c); Q.fme = c; break; case 9: H.reset_metallic(); Q.me = nullptr; Q.fme = 0; break;
        case 10: H.set_roughness_image(mo.second); Q.ro = &mo.first; break; case 11: H.set_roughness_factor(c); Q.fro = c; break; case 12: H.reset_roughness(); Q.ro = nullptr; Q.fro = 1; break;
        case 13: H.set_normal_image(nr.second); Q.no = &nr.first; break; case 14: H.set_normal_factor(c); Q.fno = c; break; case 15: H.reset_normal(); Q.no = nullptr; Q.fno = 1; break;
        case 16: H.set_transmission_image(sp.second); Q.tr = &sp.first; if (Q.ftr == T{0.f}) Q.ftr = T{1.f}; break; case 17: H.set_transmission_factor(f); Q.ftr = f; break; case 18: H.reset_transmission(); Q.tr = nullptr; Q.ftr = T{0.f}; break;
        case 19: H.set_emissive_image(sp.second); Q.em = &sp.first; if (Q.fem == T{0.f}) Q.fem = T{1.f}; break; case 20: H.set_emissive_factor(f); Q.fem = f; break; default: H.reset_emissive(); Q.em = nullptr; Q.fem = T{0.f}; break;
        }
        for (int r = 0; r < 3; ++r) check(H, Q); size_t o = R.below(h.size()); check(h[o], m[o]);
    }
    vh::count("histories");
}
static void body() { R = vh::Rng(vh::seed() * 31 + 23); for (int i = 0, N = vh::n(3000, 60000); i < N; ++i) { vh::watchdog(30); history<RGB>(); if (i % 4 == 0) history<Visible8>(); } }
VH_MAIN(body())
