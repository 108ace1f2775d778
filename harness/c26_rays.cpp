// C26: rays against meshes and ellipsoids, checked with a long-double intersector.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using F3 = Vec3<float>;
static const L PI_ = std::acos(-1.L), EPS = std::pow(2.L, -24);
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
struct StCb : StateCallback { Move m; Spin s; StCb(Move a, Spin b) : m(a), s(b) {} void evaluate(const Time& t) override { state.position = dv(m.at(t.et(), T0)); state.velocity = dv(m.vel(t.et(), T0)); state.rotation = dr(s.at(t.et(), T0)); state.angular_velocity = dv(s.om(t.et(), T0)); } };
template <class T> struct Geom { bool mesh; V rad{}; IndexBuffer ib; VertexBuffer<T> vb; TangentBuffer tb; L size; std::function<Vec2<float>(const HitRecord&)> uv; };
struct Inst { int geom; M rot; V pos, sc; int frame = -1; std::vector<M> A; std::vector<V> P; L smax, smin; };
// one possible hit of the oracle
struct Cand { int inst; unsigned prim; L t, tol; bool sure; L b1, b2, cosn, btol; };
static V inv(const Inst& in, const M& A, const V& d) { V x = app(tr(A), d); for (size_t i = 0; i < 3; ++i) x[i] /= in.sc[i]; return x; }
template <class T> struct World {
    Scene<T>* sc; std::vector<Geom<T>> g; std::vector<Inst> in; L err(const Inst& i, size_t k, const V& o, L ext) const { return 6 * EPS * (len(i.P[k]) + len(o) + ext) + (NT > 1 ? 60 * EPS * (ext + len(o - i.P[k])) : 0); }
    L lrad = 0; V lpos{}; int NT = 1;
    std::vector<Cand> oracle(const V& o, const V& d, size_t k) const
    {
        std::vector<Cand> out;
        for (size_t n = 0; n < in.size(); ++n)
        {
            const Inst& I = in[n]; const Geom<T>& G = g[(size_t)I.geom]; V lo = inv(I, I.A[k], o - I.P[k]), ld = inv(I, I.A[k], d); L ext = G.size * I.smax, er = err(I, k, o, ext), el = er / I.smin; // local error
            if (!G.mesh)
            {
                V so, sd; L rmin = 1e30L; for (size_t a = 0; a < 3; ++a) { so[a] = lo[a] / G.rad[a]; sd[a] = ld[a] / G.rad[a]; rmin = std::min(rmin, G.rad[a] * I.sc[a]); } L l = len(sd); sd = (1 / l) * sd; L b = -dot(so, sd); V f = so + b * sd; L m = er / rmin, f2 = dot(f, f), h2 = 1 - f2; if (f2 > (1 + m) * (1 + m)) continue; L h = std::sqrt(std::max(0.L, h2));
                L dt = h2 > 0 ? std::min(std::sqrt(2 * m), m / std::max(h, 1e-12L)) : std::sqrt(2 * m); for (L s : {-1.L, 1.L}) { L t = (b + s * h) / l, tl = (2 * m + dt) / l + 4 * EPS * std::abs(t); if (t > -tl) out.push_back({(int)n, 0, t, tl, f2 < (1 - m) * (1 - m) && t > tl, 0, 0, h, dt + m}); } continue;
            }
            for (unsigned p = 0; p * 3 + 2 < G.ib.size(); ++p)
            {
                V a = fv(G.vb[G.ib[p * 3]].position), b = fv(G.vb[G.ib[p * 3 + 1]].position), c = fv(G.vb[G.ib[p * 3 + 2]].position), e1 = b - a, e2 = c - a, nn = cross(e1, e2); L A2 = len(nn); L longest = std::max({len(e1), len(e2), len(c - b)}); if (A2 <= 1e-30L * longest * longest) continue; L dn = dot(ld, nn), dl = len(ld), cosn = std::abs(dn) / (A2 * dl); L t = cosn > 0 ? dot(a - lo, nn) / dn : 0; V q = lo + t * ld; L alt = A2 / longest; L u = dot(nn, cross(q - a, e2)) / (A2 * A2), v = dot(nn, cross(e1, q - a)) / (A2 * A2); L m = el / alt / std::max(cosn, 1e-6L) * 2; L tl = el / dl / std::max(cosn, 1e-6L) * 2 + 4 * EPS * std::abs(t); if (cosn < 1e-5L) m = 1e9L;
                if (u < -m || v < -m || u + v > 1 + m || t < -tl) continue; out.push_back({(int)n, p, t, tl, u > m && v > m && u + v < 1 - m && t > tl && cosn > 1e-3L && alt > 1e-4L * longest, u, v, cosn, m});
            }
        }
        return out;
    }
};
template <class T> static Geom<T> rgeom(Scene<T>& s, std::vector<PrimitiveHandle<T>>& ph, const MaterialHandle<T>& mat)
{
    Geom<T> g; g.size = (float)R.lu(.01, 1e7); g.mesh = R.chance(.5);
    if (!g.mesh) { float mx = 0; for (auto& r : g.rad) { float f = (float)(g.size * (R.chance(.5) ? 1 : R.u(.15, 1))); r = f; mx = std::max(mx, f); } g.size = mx; auto h = s.add_ellipsoid(units::Meter((double)g.rad[0]), units::Meter((double)g.rad[1]), units::Meter((double)g.rad[2])); ph.push_back(s.add_primitive(h, mat)); g.uv = [p = h.get()](const HitRecord& r) { return p->compute_uv(r); }; return g; }
    int nt = R.i(1, 24); bool tang = R.chance(.4), nonorm = R.chance(.15); int nv = R.chance(.5) ? nt * 3 : R.i(3, 12);
    for (int i = 0; i < nv; ++i) { Vertex<T> v; v.position = ff(rv(g.size / 2)); for (size_t k = 0; k < T::size(); ++k) v.albedo[k] = R.f(); if (!nonorm) v.normal = ff(un(rv(1))); v.uv = {R.f() * 3 - 1, R.f()}; g.vb.push_back(v); if (tang) g.tb.push_back({ff(un(rv(1))), ff(un(rv(1)))}); }
    if (R.chance(.4)) { F3 n = ff(un(rv(1))); for (auto& v : g.vb) if (!nonorm) v.normal = ff(un(fv(n) + .3L * un(rv(1)))); }
    for (int i = 0; i < nt; ++i) for (int k = 0; k < 3; ++k) g.ib.push_back(nv == nt * 3 ? (uint32_t)(i * 3 + k) : (uint32_t)R.i(0, nv - 1)); L mx = 0; for (auto& v : g.vb) mx = std::max(mx, len(fv(v.position))); g.size = mx;
    auto h = tang ? s.add_mesh(g.ib, g.vb, g.tb) : s.add_mesh(g.ib, g.vb); ph.push_back(s.add_primitive(h, mat)); g.uv = [p = h.get()](const HitRecord& r) { return p->compute_uv(r); }; return g;
}
template <class T> static std::string compare(const World<T>& w, const Cand& c, size_t k, const Ray<T>& ray, const HitRecord& rec, const Interaction<T>& x)
{
    const Inst& I = w.in[(size_t)c.inst]; const Geom<T>& G = w.g[(size_t)I.geom]; V o = fv(ray.origin()), d = fv(ray.direction()), at = o + c.t * d, p = fv(x.position); L er = w.err(I, k, o, G.size * I.smax), slack = er * 2 + c.tol * len(d) + (G.mesh ? std::min(.02L, 2 * c.btol) * G.size * I.smax : 0); auto F = [](const char* f, auto... a) { return vh::fmt(f, a...); };
    if (!(len(p - at) <= slack * 2 + 6e-6L * G.size * I.smax)) return F("position:resolved position is %.4Lg sizes from the hit point (slack %.3Lg)", len(p - at) / (G.size * I.smax), slack / (G.size * I.smax));
    auto nrm = [&](V n) { for (size_t a = 0; a < 3; ++a) n[a] /= I.sc[a]; return un(app(I.A[k], un(n))); }; auto lin = [&](V n) { for (size_t a = 0; a < 3; ++a) n[a] *= I.sc[a]; return un(app(I.A[k], n)); };
    V ng = fv(x.normal_g), ns = fv(x.normal_s), tg = fv(x.tangent), bt = fv(x.bitangent), wo = fv(x.wo); if (len(wo + d) > 1e-6L) return "wo:outgoing direction is not back along the ray"; if (!(std::abs(len(ng) - 1) < 1e-5L && std::abs(len(ns) - 1) < 1e-5L)) return F("normal:normals have lengths %Lg and %Lg", len(ng), len(ns)); if (dot(ng, d) > 1e-5L) return "facing:the normal faces away from the ray";
    L ratio = I.smax / I.smin;
    if (!G.mesh)
    {
        V l = inv(I, I.A[k], at - I.P[k]), s, gr; L rmax = 0, rmin = 1e30L; for (size_t a = 0; a < 3; ++a) { s[a] = l[a] / G.rad[a]; gr[a] = s[a] / G.rad[a] * G.size; rmax = std::max(rmax, G.rad[a]); rmin = std::min(rmin, G.rad[a]); } L q = ratio * rmax / rmin, e = q * (c.btol * 2 + 4e-6L); if (e > .2L) return ""; V n = nrm(gr); if (dot(n, ng) < 0) n = -1.L * n; if (len(n - ng) > e) return F("ellipsoid-normal:the normal is off by %.4Lg rad (slack %.3Lg)", len(n - ng), e); if (len(n - ns) > e) return F("ellipsoid-shading:the shading normal is off by %.4Lg rad (slack %.3Lg)", len(n - ns), e);
        L st = std::hypot(s[0], s[1]), u = (std::atan2(s[1], s[0]) + PI_) / (2 * PI_), v = std::atan2(st, s[2]) / PI_, es = c.btol * 2 + 2e-6L, du = std::abs(u - x.uv.x); du = std::min(du, 1 - du); if (st > 10 * es && du > es / st) return F("ellipsoid-uv:u is %g, expected %Lg", (double)x.uv.x, u); if (std::abs(v - x.uv.y) > es) return F("ellipsoid-uv:v is %g, expected %Lg", (double)x.uv.y, v); if (std::abs(x.uv.x - rec.u) > 0 || std::abs(x.uv.y - rec.v) > 0) return "ellipsoid-uv:hit and interaction disagree";
        if (!(std::abs(len(tg) - 1) < 1e-5L && std::abs(dot(tg, ns)) < 2e-5L * q)) return F("ellipsoid-tangent:tangent of length %Lg, cosine to the normal %Lg", len(tg), dot(tg, ns)); if (st > 10 * es && st > 1e-4L) { V east = lin({-G.rad[0] * s[1], G.rad[1] * s[0], 0}); if (len(east - tg) > q * (es / st + 1e-5L)) return F("ellipsoid-tangent:tangent is %.3Lg rad from the direction of increasing u", len(east - tg)); }
        for (size_t a = 0; a < T::size(); ++a) if (x.vertex_albedo[a] != 1) return "ellipsoid-albedo:vertex albedo is not one"; return "";
    }
    auto& v0 = G.vb[G.ib[c.prim * 3]]; auto& v1 = G.vb[G.ib[c.prim * 3 + 1]]; auto& v2 = G.vb[G.ib[c.prim * 3 + 2]]; V n = nrm(cross(fv(v1.position) - fv(v0.position), fv(v2.position) - fv(v0.position))); if (dot(n, ng) < 0) n = -1.L * n; if (len(n - ng) > 6e-5L * ratio * (1 + 3 * EPS * G.size / std::max(1e-30L, c.btol)) + 1e-3L * (c.cosn < .01L)) return F("face-normal:geometric normal is off by %.4Lg rad", len(n - ng)); L bt_ = c.btol + 2e-6L; if (bt_ > .02L) return "";
    L b0 = 1 - c.b1 - c.b2; auto mix = [&](auto get) { return b0 * get(v0) + c.b1 * get(v1) + c.b2 * get(v2); };
    for (size_t a = 0; a < 2; ++a) { L e = mix([&](const Vertex<T>& v) { return (L)v.uv[(int)a]; }); if (std::abs(e - x.uv[(int)a]) > 8 * bt_) return F("mesh-uv:coordinate %g, expected %Lg", (double)x.uv[(int)a], e); } for (size_t a = 0; a < T::size(); ++a) { L e = mix([&](const Vertex<T>& v) { return (L)v.albedo[a]; }); if (std::abs(e - x.vertex_albedo[a]) > 4 * bt_) return F("mesh-albedo:vertex albedo %g, expected %Lg", (double)x.vertex_albedo[a], e); }
    V sn = mix([&](const Vertex<T>& v) { return fv(v.normal); }); if (len(sn) > .1L) { sn = nrm(sn); if (dot(sn, ng) < 0) sn = -1.L * sn; L e = ratio * (60 * bt_ + 1e-5L), al = std::abs(dot(sn, ng)); if (e < .2L && al > e && len(sn - ns) > e) return F("mesh-shading:the shading normal is off by %.4Lg rad (slack %.3Lg)", len(sn - ns), e); } else if (len(fv(v0.normal)) == 0 && len(ns - ng) > 1e-5L) return "no-normals:a mesh without normals is not shaded with its face normal"; if (dot(ns, ng) < -1e-6L) return "shading-side:shading normal on the other side";
    if (G.tb.empty()) { if (len(tg) != 0 || len(bt) != 0) return "no-tangents:a mesh without tangents got some"; return ""; } V et{}, eb{}; L bw[3] = {b0, c.b1, c.b2}; for (size_t j = 0; j < 3; ++j) { auto& t = G.tb[G.ib[c.prim * 3 + j]]; et = et + bw[j] * fv(t.tangent); eb = eb + bw[j] * fv(t.bitangent); }
    L e = ratio * (60 * bt_ + 1e-5L); if (len(et) > .1L && e < .2L && !(len(lin(et) - tg) <= e)) return F("mesh-tangent:tangent is off by %.4Lg rad", len(lin(et) - tg)); if (len(eb) > .1L && e < .2L && !(std::min(len(lin(eb) - bt), len(lin(eb) + bt)) <= e)) return "mesh-bitangent:bitangent is off"; if (dot(cross(tg, bt), ns) < -1e-4L) return "handedness:the tangent frame is left-handed"; return "";
}
template <class T> static void cases(int seq)
{
    static Scene<T>& cams = *new Scene<T>; static auto cm = cams.new_camera_model("cam"); vh::cur("building scene %d", seq);
    World<T> w; auto sc = std::make_unique<Scene<T>>(); w.sc = sc.get(); std::vector<PrimitiveHandle<T>> ph; auto bs = sc->new_bsdf_lambertian(); auto mat = sc->new_material(bs); int ng = R.i(1, 2), ni = R.i(1, 3); for (int i = 0; i < ng; ++i) w.g.push_back(rgeom<T>(*sc, ph, mat)); if (ng > 1 && R.chance(.7)) { /* comparable sizes are the interesting ones */ }
    bool moving = R.chance(.4); w.NT = moving ? R.pick(std::vector<int>{2, 3, 5, 9}) : 1; L dur = moving ? (L)R.u(.1, 10) : 0, base = w.g[0].size, spread = (L)R.lu(.1, R.chance(.3) ? 1e4 : 30); T0 = 0; auto ci = sc->root.new_instance(cm); std::vector<FrameHandle<T>> keep; Interval iv(Time::from_et(0), Time::from_et((double)dur));
    for (int i = 0; i < ni; ++i)
    {
        Inst I; I.geom = i < ng ? i : R.i(0, ng - 1); I.pos = rv(base * spread * (R.chance(.2) ? 0 : 1)); I.rot = R.chance(.2) ? M{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}} : rrot(); L s = R.chance(.4) ? 1 : (L)R.lu(.1, 10); L fit = base / w.g[(size_t)I.geom].size; bool ani = R.chance(.4); for (auto& x : I.sc) x = (double)((ani ? (L)R.lu(.3, 3) : 1) * s * (fit > 1e2L || fit < 1e-2L ? fit : 1)); I.smax = std::max({I.sc[0], I.sc[1], I.sc[2]}); I.smin = std::min({I.sc[0], I.sc[1], I.sc[2]});
        auto put = [&](auto&& parent) { auto h = parent.new_instance(ph[(size_t)I.geom]); h.set_position(units::Meter((double)I.pos[0]), units::Meter((double)I.pos[1]), units::Meter((double)I.pos[2])); h.set_rotation(dr(I.rot)); h.set_scale((double)I.sc[0], (double)I.sc[1], (double)I.sc[2]); };
        if (moving && R.chance(.8)) { L v = base * (L)R.lu(.1, 10); Move m{rv(v), rv(v), rv(v), (L)R.u(.01, .5)}; Spin sp{rv(1), (L)R.u(-.15, .15) * 10 / dur, 0, rrot()}; if (std::abs(sp.w * dur) > 1.5L) sp.w = 1.5L / dur; auto f = sc->root.new_subframe(); f.get()->template set_custom_state_callback<StCb>(m, sp); put(f); for (int k = 0; k < w.NT; ++k) { L t = w.NT == 1 ? 0 : dur * k / (w.NT - 1); M A = sp.at(t, 0); I.A.push_back(mul(A, I.rot)); I.P.push_back(m.at(t, 0) + app(A, I.pos)); } vh::count("moving instances"); }
        else { put(sc->root); for (int k = 0; k < w.NT; ++k) { I.A.push_back(I.rot); I.P.push_back(I.pos); } }
        w.in.push_back(I);
    }
    if (R.chance(.3)) { w.lrad = (float)(base * (L)R.lu(.1, 3)); w.lpos = fv(ff(rv(base * 30))); auto lh = sc->new_sphere_light(units::Meter((double)w.lrad), units::Watt(5)); auto li = sc->root.new_instance(lh); li.set_position(units::Meter((double)w.lpos[0]), units::Meter((double)w.lpos[1]), units::Meter((double)w.lpos[2])); }
    vh::cur("view of scene %d (%d instances, %d times)", seq, ni, w.NT); SceneView<T> view(*sc, iv, ci, ObservationMode::TRUE_STATE, (size_t)w.NT); RandomSampler<float> smp((unsigned)seq + 1); std::vector<Ray<T>> rays; std::vector<HitRecord> recs; size_t kb = (size_t)R.i(0, w.NT - 1);
    for (int j = 0, N = 60; j < N; ++j)
    {
        size_t k = j < 20 ? kb : (size_t)R.i(0, w.NT - 1); const Inst& I = w.in[(size_t)R.i(0, ni - 1)]; const Geom<T>& G = w.g[(size_t)I.geom]; L sz = G.size * I.smax; V o = R.chance(.4) ? V{} : R.chance(.2) ? I.P[k] + rv(sz * .1L) : I.P[k] + ((L)R.lu(.3, R.chance(.2) ? 1e4 : 20) * sz) * un(rv(1)); V goal;
        if (G.mesh) { unsigned p = (unsigned)R.i(0, (int)G.ib.size() / 3 - 1); L a = R.u(0, 1), b = R.u(0, 1); if (a + b > 1) { a = 1 - a; b = 1 - b; } goal = (1 - a - b) * fv(G.vb[G.ib[p * 3]].position) + a * fv(G.vb[G.ib[p * 3 + 1]].position) + b * fv(G.vb[G.ib[p * 3 + 2]].position); } else { V n = un(rv(1)); if (R.chance(.2)) n = un(V{(L)R.lu(1e-6, .1), (L)R.lu(1e-6, .1), R.chance(.5) ? 1.L : -1.L}); for (size_t a = 0; a < 3; ++a) goal[a] = n[a] * G.rad[a] * (R.chance(.2) ? 1.001L : 1); }
        for (size_t a = 0; a < 3; ++a) goal[a] *= I.sc[a]; goal = I.P[k] + app(I.A[k], goal); V d = goal - fv(ff(o)); if (R.chance(.15)) d = rv(1); if (R.chance(.05)) { d = {}; d[(size_t)R.i(0, 2)] = R.chance(.5) ? 1 : -1; } if (len(d) == 0) continue; { bool lost = false; for (auto& q : w.in) lost |= len(q.P[k]) + len(o) > 3e4L * w.g[(size_t)q.geom].size * q.smin; if (lost) { vh::count("beyond single precision"); continue; } } d = un(d); Ray<T> ray(ff(o), ff(d)); o = fv(ray.origin()); d = fv(ray.direction()); float time = w.NT == 1 ? (R.chance(.5) ? 0.f : R.f()) : (float)k / (float)(w.NT - 1); if (w.NT == 1) k = 0;
        vh::cur("scene %d: %s size %Lg scale %Lg,%Lg,%Lg at %Lg sizes, origin %Lg sizes away, time %zu/%d", seq, G.mesh ? "mesh" : "ellipsoid", G.size, I.sc[0], I.sc[1], I.sc[2], len(I.P[k]) / sz, len(o - I.P[k]) / sz, k, w.NT); bool knot = w.NT == 1 || std::abs((L)time * (w.NT - 1) - (L)k) == 0 || w.NT <= 3 || w.NT == 5 || w.NT == 9; (void)knot;
        HitRecord rec = view.intersect(ray, time, 1u); auto cs_ = w.oracle(o, d, k); vh::ev(); vh::distinct(vh::hash(ray.origin().x, ray.direction().x, rec.t)); if (j < 20) { rays.push_back(ray); recs.push_back(view.intersect(ray, time)); }
        L first = 1e300L, ftol = 0; const Cand* fc = nullptr; for (auto& c : cs_) if (c.sure && c.t < first) { first = c.t; ftol = c.tol; fc = &c; }
        if (!rec.hit()) { VH_CHECK(first > 1e299L, "missed", "no hit, but a surface is crossed at t=%.7Lg", first); vh::count("misses"); }
        else
        {
            vh::count(G.mesh ? "mesh hits" : "ellipsoid hits"); VH_CHECK(rec.t <= first + 5 * ftol + 1e-30L, "not-nearest", "hit at t=%.7g (instance %u), but a nearer surface is crossed at t=%.7Lg tol %Lg, instance %d %s cos %Lg size %Lg at %Lg", (double)rec.t, rec.inst_id, first, ftol, fc ? fc->inst : -1, fc && w.g[(size_t)w.in[(size_t)fc->inst].geom].mesh ? "mesh" : "ell", fc ? fc->cosn : 0, fc ? w.g[(size_t)w.in[(size_t)fc->inst].geom].size * w.in[(size_t)fc->inst].smax : 0, fc ? len(w.in[(size_t)fc->inst].P[k]) : 0); VH_CHECK(rec.t >= 0, "behind", "hit at t=%g", (double)rec.t); Interaction<T> x = view.resolve_hit(ray, rec); { const Geom<T>* hg = nullptr; int same = 0; for (auto& c : cs_) if (std::abs(c.t - rec.t) <= 4 * c.tol) { const Geom<T>* q = &w.g[(size_t)w.in[(size_t)c.inst].geom]; if (q != hg) { hg = q; ++same; } } if (same == 1) { Vec2<float> q = hg->uv(rec); VH_CHECK(std::abs(q.x - x.uv.x) < 1e-5f && std::abs(q.y - x.uv.y) < 1e-5f, "uv-query", "asked alone, a %s says its hit has coordinates (%g, %g), and (%g, %g) in the interaction", hg->mesh ? "mesh" : "ellipsoid", (double)q.x, (double)q.y, (double)x.uv.x, (double)x.uv.y); vh::count("uv queries"); } } std::string why = "phantom:nothing is crossed at the reported distance"; bool ok = false; L best = 1e300L; for (auto& c : cs_) if (std::abs(c.t - rec.t) <= 4 * c.tol && (!w.g[(size_t)w.in[(size_t)c.inst].geom].mesh || c.prim == rec.prim_id)) { std::string s = compare(w, c, k, ray, rec, x); if (s.empty()) { ok = true; break; } if (std::abs(c.t - rec.t) < best) { best = std::abs(c.t - rec.t); why = s; } }
            if (!ok) { size_t q = why.find(':'); L near = 1e300L; for (auto& c : cs_) near = std::min(near, std::abs(c.t - rec.t) / c.tol); VH_FAIL(why.substr(0, q).c_str(), "%s (t=%.7g, nearest candidate %.3Lg tolerances away, %zu candidates)", why.c_str() + q + 1, (double)rec.t, near, cs_.size()); }
            // leaving the surface on either side does not meet it again where the ray starts
            L near = len(o) + len(I.P[k]); if (ok && ni == 1 && !G.mesh && I.smax == I.smin && near < 20 * sz) { V n = fv(x.normal_g); for (L side : {1.L, -1.L}) { V dir = un(rv(1)); if (dot(dir, n) * side < 0) dir = -1.L * dir; if (std::abs(dot(dir, n)) < .15L) continue; F3 p = offset_intersection_(x.position, ff(side * n)); VH_CHECK(len(fv(p) - fv(x.position)) < 1e-2L * (sz + len(fv(x.position))) + 1e-4L, "offset-size", "ray origin moved %Lg", len(fv(p) - fv(x.position))); V xp = fv(x.position); if (sz < .05L || n[0] * n[0] * std::abs(xp[0]) + n[1] * n[1] * std::abs(xp[1]) + n[2] * n[2] * std::abs(xp[2]) < .3L * (sz + .1L * len(I.P[k]))) continue; HitRecord again = view.intersect(Ray<T>(p, ff(dir)), time, 1u); V fs = inv(I, I.A[k], fv(x.position) - I.P[k]); L in2 = 0; for (size_t a = 0; a < 3; ++a) in2 += std::pow((inv(I, I.A[k], fv(x.position) + side * 1e-2L * sz * n - I.P[k]))[a] / G.rad[a], 2); (void)fs; bool inside = in2 < 1; if (!inside) VH_CHECK(!again.hit(), "acne", "a ray leaving an ellipsoid meets it again at t=%g sizes", (double)(again.t / sz)); else VH_CHECK(again.hit() && again.t > 1e-3L * sz, "leak", "a ray entering an ellipsoid %s", again.hit() ? vh::fmt("meets it at once (t=%g sizes)", (double)(again.t / sz)).c_str() : "never comes out"); vh::count("secondary rays"); } }
        }
        // shadow queries
        L tf = R.chance(.5) && rec.hit() ? (L)rec.t * (R.chance(.5) ? .9L : 1.1L) : (L)R.lu(1e-2, 1e4) * sz; bool blocked = false, amb = false; for (auto& c : cs_) { if (c.sure && c.t < tf - c.tol) blocked = true; else if (c.t < tf + c.tol) amb = true; } if (blocked || !amb) { T tr = view.evaluate_transmittance(ray, (float)tf, MediumStack<T>{}, smp, time); VH_CHECK(tr.max() == (blocked ? 0.f : 1.f) && tr.min() == tr.max(), "shadow", "transmittance %g over a segment that is %s", (double)tr.max(), blocked ? "blocked" : "clear"); vh::count("shadow queries"); }
        if (w.lrad > 0) { V toward = R.chance(.5) ? un(w.lpos - o) : d; if (R.chance(.5)) toward = un(toward + rv(w.lrad / std::max(w.lrad, len(w.lpos - o)) * .6L)); V td = fv(ff(toward)); L b = dot(w.lpos - o, td), f = len(w.lpos - o - b * td), m = 2e-6L * (len(o) + len(w.lpos)) + 1e-5L * w.lrad; if (len(w.lpos - o) < w.lrad * 1.01L) continue; HitRecord h = view.intersect(Ray<T>(ff(o), ff(toward)), time, 2u); bool hits = b > 0 && f < w.lrad - m, miss = b < 0 || f > w.lrad + m; if (hits) { L t = b - std::sqrt(w.lrad * w.lrad - f * f); VH_CHECK(h.hit() && std::abs(h.t - t) < m * 4 / std::sqrt(std::max(1e-6L, 1 - f * f / (w.lrad * w.lrad))) + 1e-3L * w.lrad, "light-hit", "light surface at %Lg, reported %g", t, (double)h.t); } else if (miss) VH_CHECK(!h.hit(), "light-miss", "a ray passing a light at %Lg radii hits it", f / w.lrad); vh::count("light rays"); }
    }
    { auto b = view.intersect(rays, w.NT == 1 ? 0.f : (float)kb / (float)(w.NT - 1)); VH_CHECK(b.size() == rays.size(), "batch", "sizes"); auto rs = view.resolve_hits(rays, b); for (size_t i = 0; i < b.size(); ++i) { VH_CHECK(b[i].hit() == recs[i].hit() && (!b[i].hit() || (b[i].t == recs[i].t && b[i].inst_id == recs[i].inst_id)), "batch", "ray %zu", i); } VH_CHECK(rs.size() == b.size(), "batch", "sizes"); for (size_t i = 0; i < b.size(); ++i) if (b[i].hit()) { auto one = view.resolve_hit(rays[i], b[i]); VH_CHECK(rs[i].position == one.position && rs[i].normal_g == one.normal_g && rs[i].normal_s == one.normal_s && rs[i].uv == one.uv && rs[i].wo == one.wo && rs[i].tangent == one.tangent, "batch", "hit %zu resolved in bulk differs from alone", i); vh::count("bulk hits"); } vh::ev(); }
}
template <class T> static void rejects()
{
    Scene<T> s; vh::cur("rejections"); VertexBuffer<T> vb(3); vb[1].position = {1, 0, 0}; vb[2].position = {0, 1, 0}; TangentBuffer tb(2); IndexBuffer ok{0, 1, 2}; for (uint32_t bad : {3u, 0xffffffffu, 1000u}) for (size_t at : {0u, 1u, 2u}) { IndexBuffer b = ok; b[at] = bad; VH_CHECK(vh::throws([&] { s.add_mesh(b, vb); }) && vh::throws([&] { s.add_mesh(b, vb, TangentBuffer(3)); }), "bad-index", "index %u accepted", bad); } for (size_t n : {1u, 2u, 4u}) VH_CHECK(vh::throws([&] { s.add_mesh(ok, vb, TangentBuffer(n)); }), "bad-tangents", "%zu tangents for 3 vertices accepted", n); VH_CHECK(!vh::throws([&] { s.add_mesh(ok, vb, TangentBuffer(3)); s.add_mesh(ok, vb, TangentBuffer{}); s.add_mesh(ok, vb); }), "good-mesh", "a sound mesh was refused"); vh::ev();
}
static void body() { still_frames(); R = vh::Rng(vh::seed() * 37 + 26); rejects<RGB>(); rejects<Visible8>(); for (int i = 0, N = vh::n(2500, 100000); i < N; ++i) { vh::watchdog(30); if (i % 5 == 4) cases<Visible8>(i); else cases<RGB>(i); } }
VH_MAIN(body())
