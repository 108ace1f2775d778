// Scenes with hundreds to tens of thousands of members: the same oracles at sizes the random scenes do not reach.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
using D = double; using F3 = Vec3<float>;
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
static V grid(int k, int n) { L z = 1 - (2 * k + 1.L) / n, q = std::sqrt(1 - z * z), ph = k * 2.39996322972865332L; return {q * std::cos(ph), q * std::sin(ph), z}; } // n well-spread directions
static SceneView<S> look(Scene<S>& sc, InstanceHandle<S>& ci, size_t nt = 1, D dur = 0) { return SceneView<S>(sc, Interval(Time::from_et(0), Time::from_et(dur)), ci, ObservationMode::TRUE_STATE, nt); }
static CameraModelHandle<S> camera() { static Scene<S>& cams = *new Scene<S>; return cams.new_camera_model(); }
template <class H> static void at(H& h, const V& p) { h.set_position(units::Meter((D)p[0]), units::Meter((D)p[1]), units::Meter((D)p[2])); }
struct Slide : StateCallback { V p, v; Slide(V a, V b) : p(a), v(b) {} void evaluate(const Time& t) override { state.position = dv(p + (L)t.et() * v); state.velocity = dv(v); state.rotation = Rotation<D>(); state.angular_velocity = {0, 0, 0}; } };

// C26: every one of many bodies is hit where it is, under its own identity; a mesh with more vertices than 16 bits count
static void rays()
{
    auto sc = std::make_unique<Scene<S>>(); auto cm = camera(); auto ci = sc->root.new_instance(cm); auto mat = sc->new_material(sc->new_bsdf_lambertian());
    int n = R.i(300, 900), np = R.i(257, 320); std::vector<PrimitiveHandle<S>> pr; std::vector<D> rad; L spread = std::sqrt(4.L / n) * 10; // neighbours are about this far apart at ten metres
    for (int k = 0; k < np; ++k) { D r = (D)(float)R.u(.05, .3) * (D)spread; rad.push_back((D)(float)r); auto g = sc->add_ellipsoid(units::Meter(r), units::Meter(r), units::Meter(r)); pr.push_back(sc->add_primitive(g, mat)); }
    struct B { int prim; V p; }; std::vector<B> bs; bool moving = R.chance(.4); int nt = moving ? R.pick(std::vector<int>{2, 17, 33, 40}) : 1; L speed = moving ? .1L * spread : 0; std::vector<V> vel;
    for (int k = 0; k < n; ++k) { B b{k < np ? k : R.i(0, np - 1), 10 * grid(k, n)}; V v = moving ? speed * un(rv(1)) : V{}; if (moving) { auto f = sc->root.new_subframe(); f.get()->set_custom_state_callback<Slide>(b.p, v); f.new_instance(pr[(size_t)b.prim]); } else { auto h = sc->root.new_instance(pr[(size_t)b.prim]); at(h, b.p); } bs.push_back(b); vel.push_back(v); }
    vh::cur("crowd of %d bodies of %d kinds, %d times", n, np, nt); auto view = look(*sc, ci, (size_t)nt, moving ? 1. : 0.);
    std::vector<Ray<S>> all; for (int k = 0; k < n; ++k)
    {
        L s = moving ? (L)R.u(0, 1) : 0; if (moving && R.chance(.5)) s = (L)R.i(0, nt - 1) / (nt - 1); V p = bs[(size_t)k].p + s * vel[(size_t)k]; Ray<S> ray(F3{0, 0, 0}, ff(un(p))); auto h = view.intersect(ray, (float)s); vh::ev(); L want = len(p) - rad[(size_t)bs[(size_t)k].prim];
        VH_CHECK(h.hit() && std::abs(h.t - want) < 2e-3L * spread, "crowd-hit", "body %d of %d: %s at %g, should be at %Lg", k, n, h.hit() ? "hit" : "missed", (D)h.t, want);
        if (h.hit()) { auto& m = view.instance_mappings_[h.inst_id]; auto& b = view.primitives_[m.batch_index]; VH_CHECK(b.primitive == pr[(size_t)bs[(size_t)k].prim].get(), "crowd-identity", "body %d of %d is reported as another", k, n); auto x = view.resolve_hit(ray, h); VH_CHECK(len(fv(x.position) - want * un(p)) < 4e-3L * spread, "crowd-position", "body %d of %d resolved %Lg m off", k, n, len(fv(x.position) - want * un(p))); }
        if (!moving) all.push_back(ray); vh::count("crowded bodies");
    }
    if (!moving) for (int k = 0; k < 20000; ++k) all.push_back(Ray<S>(F3{0, 0, 0}, ff(un(rv(1))))); // bulk queries over many work chunks
    if (!all.empty()) { auto h = view.intersect(all, 0.f); auto x = view.resolve_hits(all, h); for (size_t i = 0; i < all.size(); ++i) { auto o = view.intersect(all[i], 0.f); bool same = o.hit() == h[i].hit() && (!o.hit() || (o.t == h[i].t && o.inst_id == h[i].inst_id)); if (same && o.hit()) same = view.resolve_hit(all[i], o).position == x[i].position; if (!same) { VH_FAIL("crowd-bulk", "ray %zu of %zu differs in bulk", i, all.size()); break; } } vh::ev(); vh::count("bulk rays", (long)all.size()); }
    // height field
    int W = R.i(258, 300), H = R.i(258, 300); IndexBuffer ib; VertexBuffer<S> vb; TangentBuffer tb; bool tang = R.chance(.5);
    for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { Vertex<S> v; v.position = {(float)x, (float)y, (float)R.u(-.3, .3)}; v.normal = ff(un(V{R.u(-.2, .2), R.u(-.2, .2), 1})); v.uv = {(float)x / (float)W, (float)y / (float)H}; for (size_t b = 0; b < 3; ++b) v.albedo[b] = R.f(); vb.push_back(v); if (tang) tb.push_back({ff(un(rv(1))), ff(un(rv(1)))}); }
    for (int y = 0; y + 1 < H; ++y) for (int x = 0; x + 1 < W; ++x) { auto i = (uint32_t)(y * W + x), w = (uint32_t)W; for (uint32_t q : {i, i + 1, i + w, i + 1, i + w + 1, i + w}) ib.push_back(q); }
    auto s2 = std::make_unique<Scene<S>>(); auto mh = tang ? s2->add_mesh(ib, vb, tb) : s2->add_mesh(ib, vb); auto ph = s2->add_primitive(mh, s2->new_material(s2->new_bsdf_lambertian())); auto c2 = s2->root.new_instance(cm); s2->root.new_instance(ph); vh::cur("height field %d x %d", W, H); auto v2 = look(*s2, c2);
    auto mp = std::dynamic_pointer_cast<Mesh<S>>(mh.get()); VH_CHECK(mp && mp->vertex_count() == vb.size() && mp->triangle_count() == ib.size() / 3 && mp->index_count() == ib.size(), "crowd-counts", "a mesh of %zu vertices says %zu", vb.size(), mp->vertex_count());
    for (int k = 0; k < 4000; ++k)
    {
        unsigned t = k == 0 ? 0 : k == 1 ? (unsigned)ib.size() / 3 - 1 : (unsigned)R.below(ib.size() / 3); L a = R.u(.05, .6), b = R.u(.05, .95 - (D)a - .05), c = 1 - a - b; auto& v0 = vb[ib[t * 3]]; auto& v1 = vb[ib[t * 3 + 1]]; auto& w2 = vb[ib[t * 3 + 2]]; V p = c * fv(v0.position) + a * fv(v1.position) + b * fv(w2.position); Ray<S> ray(ff(V{p[0], p[1], 5}), F3{0, 0, -1}); auto h = v2.intersect(ray, 0.f); vh::ev();
        VH_CHECK(h.hit() && h.prim_id == t && std::abs(h.t - (5 - p[2])) < 1e-4L, "crowd-triangle", "triangle %u of %zu: hit %d, reported as %u at %g, should be at %Lg", t, ib.size() / 3, (int)h.hit(), h.prim_id, (D)h.t, 5 - p[2]); if (!h.hit() || h.prim_id != t) continue;
        auto x = v2.resolve_hit(ray, h); for (size_t i = 0; i < 3; ++i) { L e = c * v0.albedo[i] + a * v1.albedo[i] + b * w2.albedo[i]; VH_CHECK(std::abs(e - x.vertex_albedo[i]) < 2e-3L, "crowd-vertex", "triangle %u: colour %g, expected %Lg", t, (D)x.vertex_albedo[i], e); } L u = c * v0.uv.x + a * v1.uv.x + b * w2.uv.x; VH_CHECK(std::abs(u - x.uv.x) < 1e-4L, "crowd-vertex", "triangle %u: u %g, expected %Lg", t, (D)x.uv.x, u);
        V sn = un(c * fv(v0.normal) + a * fv(v1.normal) + b * fv(w2.normal)); VH_CHECK(len(sn - fv(x.normal_s)) < 3e-3L, "crowd-vertex", "triangle %u: shading normal %Lg off", t, len(sn - fv(x.normal_s))); vh::count("triangles of a big mesh");
    }
}
// C31: many bodies in one image keep their identities, and many lamps add up
static void render()
{
    auto sc = std::make_unique<Scene<S>>(); auto cm = camera(); auto c = cm.get(); int w = R.i(260, 330), h = R.i(17, 40); c->configure_sensor_from_pitch(Resolution{w, h}, units::Meter(1e-5)); c->set_focal_length(units::Meter(.01)); auto ci = sc->root.new_instance(cm); std::vector<PrimitiveHandle<S>> pr; std::vector<S> col; const int N = R.i(262, 300); D f = .01 / 1e-5;
    struct B { int x, y, k; }; std::vector<B> at_; std::vector<std::pair<int, int>> cells; for (int y = 1; y + 1 < h; y += 3) for (int x = 1; x + 1 < w; x += 3) cells.push_back({x, y}); for (size_t i = cells.size(); i > 1; --i) std::swap(cells[i - 1], cells[R.below(i)]);
    for (int k = 0; k < N; ++k) { S a; for (size_t b = 0; b < 3; ++b) a[b] = (float)R.u(.1, 1); col.push_back(a); auto m = sc->new_material(sc->new_bsdf_lambertian()); m.set_albedo_factor(a); D r = 1.2; auto g = sc->add_ellipsoid(units::Meter(r), units::Meter(r), units::Meter(r)); pr.push_back(sc->add_primitive(g, m)); auto in = sc->root.new_instance(pr.back()); auto q = cells[(size_t)k % cells.size()]; D z = f; V p{(q.first + .5 - w / 2.) / f * z, (q.second + .5 - h / 2.) / f * z, z}; at(in, p); at_.push_back({q.first, q.second, k}); }
    vh::cur("image %dx%d of %d bodies", w, h, N); auto view = look(*sc, ci); auto fb = c->make_frame_buffer(); fb.enable_geometry_ids(); fb.enable_albedo(); fb.enable_depth(); fb.enable_received_power(); Renderer<S> ren; ren.set_samples_per_pixel(2); ren.set_max_bounces(1); ren.render(view, fb);
    std::vector<uint64_t> own(w * h, std::numeric_limits<uint64_t>::max()); for (auto& b : at_) { if ((size_t)b.k >= cells.size()) break; uint64_t id = fb.geometry_ids()(b.x, b.y); vh::ev(); auto al = fb.albedo()(b.x, b.y); bool alb = true; for (size_t i = 0; i < 3; ++i) alb = alb && std::fabs(al[i] - col[(size_t)b.k][i]) < 1e-5f; VH_CHECK(alb && std::fabs((D)fb.depth()(b.x, b.y) - f * (D)len(V{(b.x + .5 - w / 2.) / f, (b.y + .5 - h / 2.) / f, 1})) < 2, "crowd-albedo", "body %d of %d at (%d,%d): albedo %g for %g, depth %g", b.k, N, b.x, b.y, (D)al[0], (D)col[(size_t)b.k][0], (D)fb.depth()(b.x, b.y)); VH_CHECK(id == pr[(size_t)b.k].get()->geometry->id(), "crowd-id", "body %d of %d shows identity %llu", b.k, N, (unsigned long long)id); vh::count("bodies in an image"); own[(size_t)(b.y * w + b.x)] = id; }
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { uint64_t id = fb.geometry_ids()(x, y); if (id != std::numeric_limits<uint64_t>::max()) continue; VH_CHECK(!std::isfinite(fb.depth()(x, y)) && fb.albedo()(x, y)[0] == 0, "crowd-empty", "empty pixel (%d,%d) has depth %g", x, y, (D)fb.depth()(x, y)); }
    // lamps far to the side of a matte wall: irradiances add up
    auto s2 = std::make_unique<Scene<S>>(); c->configure_sensor_from_pitch(Resolution{5, 4}, units::Meter(1e-5)); auto c2 = s2->root.new_instance(cm); auto m2 = s2->new_material(s2->new_bsdf_lambertian()); m2.set_albedo_factor(S{.5f, .5f, .5f}); VertexBuffer<S> vb(4); for (int i = 0; i < 4; ++i) { vb[(size_t)i].position = {i & 1 ? 50.f : -50.f, i & 2 ? 50.f : -50.f, 0}; vb[(size_t)i].normal = {0, 0, -1}; } auto wall = s2->add_primitive(s2->add_mesh(IndexBuffer{0, 2, 1, 1, 2, 3}, vb), m2); auto wi = s2->root.new_instance(wall); at(wi, V{0, 0, 100}); S want{0}; const int NL = R.i(258, 400);
    for (int k = 0; k < NL; ++k) { D P = R.lu(1, 30), rl = .02; V p{R.u(30, 200) * (R.chance(.5) ? 1 : -1), R.u(-200, 200), R.u(-100, 20)}; V d = V{0, 0, 100} - p; auto l = s2->new_sphere_light(units::Meter(rl), units::Watt(P * 1e6)); auto li = s2->root.new_instance(l); at(li, p); S Le = l.get()->radiance(ff(p), ff(un(d))); for (size_t b = 0; b < 3; ++b) want[b] += (float)((L)Le[b] * 3.14159265358979L * (L)(rl * rl) / dot(d, d) * d[2] / len(d) * .5L / 3.14159265358979L); }
    vh::cur("%d lamps", NL); auto v2 = look(*s2, c2); auto f2 = c->make_frame_buffer(); f2.enable_received_power(); ren.set_samples_per_pixel(4); ren.render(v2, f2); D got[3]{}, ref[3]{}; for (int y = 0; y < 4; ++y) for (int x = 0; x < 5; ++x) for (size_t b = 0; b < 3; ++b) { got[b] += f2.received_power()(x, y)[b]; ref[b] += want[b] * c->pixel_radiance_to_power(x, y); } for (size_t b = 0; b < 3; ++b) VH_CHECK(std::fabs(got[b] / ref[b] - 1) < 5e-3, "crowd-lamps", "%d lamps: band %zu receives %.6g W, should be %.6g", NL, b, got[b], ref[b]); vh::ev(); vh::count("lamps in one scene", NL);
}
// C30: thousands of stars and distant objects in one image
static void stars()
{
    auto sc = std::make_unique<Scene<S>>(); auto cm = camera(); auto c = cm.get(); int w = R.i(400, 700), h = R.i(300, 600); c->delete_psf(); c->configure_sensor_from_pitch(Resolution{w, h}, units::Meter(1e-5)); c->set_focal_length(units::Meter(.02)); if (R.chance(.5)) c->template set_psf<AiryDisk<S>>(units::Meter(.02), units::Meter(1e-5), units::Meter(1e-5), units::Meter(.005), 3, 2); int ext = c->has_psf() ? c->get_psf_radius() : 0; auto ci = sc->root.new_instance(cm); D f = .02 / 1e-5; std::vector<Star<S>> st; std::vector<D> want((size_t)w * (size_t)h, 0); D sum[3]{}; int n = R.i(5000, 20000), out = 0;
    auto lay = [&](D x, D y, V d, const S& e) { if (x < ext + 1 || y < ext + 1 || x > w - ext - 1 || y > h - ext - 1) return; D a = (D)c->aperture_->get_area().to_si() * (D)d[2]; for (size_t b = 0; b < 3; ++b) sum[b] += e[b] * a; if (!ext) want[(size_t)((int)y * w + (int)x)] += e[0] * a; };
    for (int k = 0; k < n; ++k) { bool in = R.chance(.6); D x = (int)R.u(ext + 2, w - ext - 3) + R.u(.1, .9), y = (int)R.u(ext + 2, h - ext - 3) + R.u(.1, .9); V d = un(V{(x - w / 2.) / f, (y - h / 2.) / f, 1}); if (!in) { d = un(rv(1)); if (d[2] > 0 && std::fabs(d[0] / d[2]) * f < w / 2. + 20 && std::fabs(d[1] / d[2]) * f < h / 2. + 20) d[2] = -d[2]; ++out; } S e; for (size_t b = 0; b < 3; ++b) e[b] = (float)R.lu(1e-9, 1e-7); st.push_back(Star<S>(dv(d), e)); if (in) lay(x, y, d, e); }
    int no = R.i(300, 500); for (int k = 0; k < no; ++k) { D x = (int)R.u(ext + 2, w - ext - 3) + R.u(.1, .9), y = (int)R.u(ext + 2, h - ext - 3) + R.u(.1, .9); V d = un(V{(x - w / 2.) / f, (y - h / 2.) / f, 1}); S e; for (size_t b = 0; b < 3; ++b) e[b] = (float)R.lu(1e-8, 1e-6); auto o = sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(e)); auto in = sc->root.new_instance(o); at(in, 1e6 * d); lay(x, y, d, e); }
    sc->set_stars(st); vh::cur("%d stars and %d objects on %dx%d, kernel radius %d", n, no, w, h, ext); auto view = look(*sc, ci); auto fb = c->make_frame_buffer(); fb.enable_received_power(); Renderer<S> ren; ren.set_samples_per_pixel(1); ren.set_max_bounces(1); ren.render(view, fb); D got[3]{}; auto& im = fb.received_power(); long bad = 0; D worst = 0;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { for (size_t b = 0; b < 3; ++b) got[b] += im(x, y)[b]; if (!ext) { D q = want[(size_t)(y * w + x)]; D e = std::fabs(im(x, y)[0] - q); if (e > 1e-4 * q + 1e-20) { ++bad; worst = std::max(worst, e); } } } VH_CHECK(bad == 0, "crowd-pixels", "%ld of %d pixels differ, by up to %g W", bad, w * h, worst); for (size_t b = 0; b < 3; ++b) VH_CHECK(std::fabs(got[b] / sum[b] - 1) < (ext ? 2e-4 : 1e-4), "crowd-power", "%d stars and %d objects: %.7g W in the image, should be %.7g", n, no, got[b], sum[b]); vh::ev(); vh::count("stars in one image", n - out); c->delete_psf();
}
// C14: deep and wide trees
static void tree()
{
    auto sc = std::make_unique<Scene<S>>(); auto pr = sc->add_primitive(sc->add_ellipsoid(units::Meter(1.), units::Meter(1.), units::Meter(1.)), sc->new_material(sc->new_bsdf_lambertian())); int depth = R.i(60, 150); std::vector<FrameHandle<S>> fr; FrameHandle<S> cur = sc->root; V p{}; M r{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; L s = 1; std::vector<V> ps; std::vector<M> rs;
    for (int k = 0; k < depth; ++k) { cur = cur.new_subframe(); M q = rrot(); V o = rv(10); L g = k % 2 ? .5L : 2.L; at(cur, o); cur.set_rotation(dr(q)); cur.set_scale((D)g); p = p + s * app(r, V{(D)o[0], (D)o[1], (D)o[2]}); r = mul(r, q); s *= g; fr.push_back(cur); ps.push_back(p); rs.push_back(r); }
    vh::cur("chain of %d frames", depth); for (int k = 0; k < depth; ++k) { auto t = fr[(size_t)k].get()->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(0), Time::from_et(0), {}); vh::ev(); V g = lv(t.position); L e = 0; auto m = lm(t.rotation); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) e = std::max(e, std::abs(m[i][j] - rs[(size_t)k][i][j])); VH_CHECK(len(g - ps[(size_t)k]) < 1e-10L * (10 * (k + 1)) && e < 1e-11L, "crowd-depth", "frame %d deep is %Lg m off, rotation by %Lg", k + 1, len(g - ps[(size_t)k]), e); vh::count("frames of a deep chain"); }
    std::vector<FrameHandle<S>> wide; std::vector<V> wp; int n = R.i(1000, 2000); for (int k = 0; k < n; ++k) { auto f = sc->root.new_subframe(); V o = rv(1e3); at(f, o); wide.push_back(f); wp.push_back(o); } for (int k = 0; k < n; ++k) { auto t = wide[(size_t)k].get()->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(0), Time::from_et(0), {}); vh::ev(); VH_CHECK(len(lv(t.position) - wp[(size_t)k]) < 1e-9L, "crowd-width", "frame %d of %d is elsewhere", k, n); } vh::count("siblings", n); (void)pr;
}
// C16: thousands of named and unnamed things
static void names()
{
    auto sc = std::make_unique<Scene<S>>(); auto mat = sc->new_material(sc->new_bsdf_lambertian()); int n = R.i(600, 1200); std::vector<std::optional<GeometryHandle<S>>> g; std::vector<std::string> nm; std::set<std::string> live; std::set<uint64_t> ids; std::string base = R.chance(.5) ? "" : "thing";
    for (int k = 0; k < n; ++k) { std::string ask = R.chance(.5) ? base : vh::fmt("body %d", k); auto h = sc->add_ellipsoid(units::Meter(1. + k), units::Meter(1.), units::Meter(1.), ask); g.push_back(h); nm.push_back(h.name()); vh::ev(); VH_CHECK(live.insert(h.name()).second, "crowd-name", "object %d got the name '%s' again", k, h.name().c_str()); VH_CHECK(ids.insert(h.id()).second, "crowd-number", "object %d got number %llu again", k, (unsigned long long)h.id());
        if (R.chance(.3)) { size_t q = R.below(g.size()); if (g[q]) { sc->delete_geometry(*g[q]); live.erase(nm[q]); g[q].reset(); } } }
    vh::cur("%d geometries", n); for (size_t k = 0; k < g.size(); ++k) { bool found = true; uint64_t id = 0; try { id = sc->get_geometry(nm[k]).id(); } catch (const std::exception&) { found = false; } vh::ev(); if (g[k]) VH_CHECK(found && id == g[k]->id(), "crowd-lookup", "'%s' among %d %s", nm[k].c_str(), n, found ? "finds another object" : "is not found"); else if (!live.count(nm[k])) VH_CHECK(!found, "crowd-deleted", "deleted '%s' is found", nm[k].c_str()); } vh::count("named objects", n);
}
static void body()
{
    still_frames(); R = vh::Rng(vh::seed() * 131 + 5); std::string part = getenv("VH_PART") ? getenv("VH_PART") : ""; auto run = [&](const char* p, int q, int t, auto f) { if (!part.empty() && part != p) return; for (int i = 0; i < vh::n(q, t); ++i) { R = vh::Rng(vh::seed() * 7919 + (uint64_t)i * 1000003 + 17); f(); vh::distinct(R.next()); } };
    run("rays", 8, 80, rays); run("render", 12, 120, render); run("stars", 6, 60, stars); run("tree", 12, 200, tree); run("names", 12, 200, names);
}
VH_MAIN(body())
