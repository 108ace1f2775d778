// C16: random histories of creating, naming, looking up, instancing and deleting scene objects, checked after
// every step against a model of names, handle validity and the graph.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "ld.hpp"
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <set>
using Str = std::string;
using Inst = InstanceHandle<S>; using Frame = FrameHandle<S>; using SC = Scene<S>;
enum Kind { G, P, LI, U, C, MO, NK };
static const char* kn[] = {"geometry", "primitive", "light", "unresolved", "camera", "model"};
struct Obj { int kind; bool alive = true; Str name; std::uint64_t id; std::function<bool()> valid; std::function<Str()> nm; std::function<std::uint64_t()> idf; std::function<void(SC&, const Str&)> rename; std::function<void(SC&)> del; std::function<Inst(const Frame&)> inst; int geom = -1; };
struct NodeM { bool alive = true, frame; int parent, asset = -1; std::unique_ptr<Frame> f; std::unique_ptr<Inst> i; std::uint64_t id; std::vector<int> kids; };
struct World
{
    std::vector<std::shared_ptr<void>> held; // nodes somebody still points at when the scene deletes them
    SC s; std::vector<Obj> o; std::vector<NodeM> g; std::array<std::set<Str>, NK> live;
    static std::uint64_t look(SC& s, int k, const Str& n)
    {
        switch (k) { case G: return s.get_geometry(n).id(); case P: return s.get_primitive(n).id(); case LI: return s.get_light(n).id(); case U: return s.get_unresolved_object(n).id(); case C: return s.get_camera_model(n).id(); default: return s.get_model(n).id(); }
    }
    bool has(int k, const Str& n) { try { look(s, k, n); return true; } catch (const std::exception&) { return false; } }
    World() { NodeM r; r.frame = true; r.parent = -1; r.f = std::make_unique<Frame>(std::weak_ptr<FrameNode<S>>(s.root.get())); r.id = s.root.id(); g.push_back(std::move(r)); }
};
static std::vector<Str> pool = {"a", "b", "a_1", "a_1_1", "Sun", "x y", "SphereLight.1", "\xc3\xa9t\xc3\xa9", "_1", "a_2"};
// objects that are only created and handed out: materials, textures, media and their parts
struct Extra { int kind; std::function<bool()> valid; std::function<Str()> nm; Str name; };
static std::vector<Extra> extras; static std::array<int, 8> made; static bool foreign_extras = false;
template <class H> static void extra(int k, const H& h, const Str& asked)
{
    static const char* en[] = {"bsdf", "material", "density field", "phase function", "medium", "spectral texture", "texture", "vector texture"}; Extra e{k, [h] { return h.valid(); }, [h] { return h.name(); }, h.name()}; bool taken = false, dup = false; for (auto& x : extras) if (x.kind == k) taken |= x.name == asked, dup |= x.name == e.name;
    VH_CHECK(!dup && !e.name.empty(), "duplicate-name", "%s asked '%s' got '%s', which another has", en[k], asked.c_str(), e.name.c_str()); if (!asked.empty()) { VH_CHECK(e.name.rfind(asked, 0) == 0, "unrelated-name", "%s asked '%s' got '%s'", en[k], asked.c_str(), e.name.c_str()); if (!taken && !foreign_extras) VH_CHECK(e.name == asked, "free-name-refused", "%s asked for free name '%s' got '%s'", en[k], asked.c_str(), e.name.c_str()); }
    extras.push_back(std::move(e)); ++made[(size_t)k]; vh::count(en[k]); vh::ev();
}
static std::vector<std::shared_ptr<void>> hold;
static void more(SC& s, const Str& nm)
{
    static std::optional<BSDFHandle<S>> b; static std::optional<DensityFieldHandle<S>> d; static std::optional<PhaseFunctionHandle<S>> p; int k = R.i(0, 7);
    if (k == 0) { switch (R.i(0, 6)) { case 0: b = s.new_bsdf_lambertian(nm); break; case 1: b = s.new_bsdf_hapke(.05f, 1.f, .3f, .5f, nm); break; case 2: b = s.new_bsdf_cook_torrance(nm); break; case 3: b = s.new_bsdf_lommel_seeliger(nm); break; case 4: b = s.new_bsdf_mcewen(nm); break; case 5: b = s.new_bsdf_null(nm); break; default: b = s.new_bsdf_oren_nayar(nm); } extra(0, *b, nm); }
    else if (k == 1) { if (b && b->valid()) extra(1, s.new_material(*b, nm), nm); }
    else if (k == 2) { d = s.new_constant_density_field(S{.1f}, S{.2f}, nm); extra(2, *d, nm); }
    else if (k == 3) { p = s.new_isotropic_phase_function(nm); extra(3, *p, nm); }
    else if (k == 4) { if (d && p && d->valid() && p->valid()) extra(4, s.new_medium(*d, *p, nm), nm); }
    else if (k == 5) extra(5, s.add_texture(Image<S>(2, 2), nm), nm);
    else if (k == 6) extra(6, s.add_texture(Image<float>(2, 2), nm), nm);
    else extra(7, R.chance(.5) ? s.add_normal_texture(Image<RGB>(2, 2), nm) : s.add_texture(Image<Vec3<float>>(2, 2), nm), nm);
}
template <class H> static int track(World& w, int k, const H& h, const Str& asked)
{
    Obj o; o.kind = k; o.name = h.name(); o.id = h.id(); auto p = std::make_shared<H>(h);
    o.valid = [p] { return p->valid(); }; o.nm = [p] { return p->name(); }; o.idf = [p] { return p->id(); };
    o.rename = [p](SC& s, const Str& n) { s.set_name(*p, n); };
    if constexpr (std::is_base_of_v<GeometryHandle<S>, H>) { o.del = [p](SC& s) { s.delete_geometry(*p); }; }
    else if constexpr (std::is_same_v<H, PrimitiveHandle<S>>) { o.del = [p](SC& s) { s.delete_primitive(*p); }; o.inst = [p](const Frame& f) { return f.new_instance(*p); }; }
    else if constexpr (std::is_same_v<H, LightHandle<S>>) { o.del = [p](SC& s) { s.delete_light(*p); }; o.inst = [p](const Frame& f) { return f.new_instance(*p); }; }
    else if constexpr (std::is_same_v<H, UnresolvedObjectHandle<S>>) { o.del = [p](SC& s) { s.delete_unresolved_object(*p); }; o.inst = [p](const Frame& f) { return f.new_instance(*p); }; }
    else if constexpr (std::is_same_v<H, CameraModelHandle<S>>) { o.del = [p](SC& s) { s.delete_camera_model(*p); }; o.inst = [p](const Frame& f) { return f.new_instance(*p); }; }
    else { o.del = [p](SC& s) { s.delete_model(*p); }; o.inst = [p](const Frame& f) { return f.new_instance(*p); }; }
    auto& lv = w.live[(size_t)k];
    if (asked.empty()) VH_CHECK(!o.name.empty() && !lv.count(o.name), "default-name", "%s created without a name got '%s' (live already: %d)", kn[k], o.name.c_str(), (int)lv.count(o.name));
    else if (!lv.count(asked)) VH_CHECK(o.name == asked, "free-name-refused", "%s asked for free name '%s' got '%s'", kn[k], asked.c_str(), o.name.c_str());
    else { VH_CHECK(!lv.count(o.name), "duplicate-name", "%s '%s' given to two live objects", kn[k], o.name.c_str()); VH_CHECK(o.name.rfind(asked, 0) == 0, "unrelated-name", "%s asked '%s' got '%s'", kn[k], asked.c_str(), o.name.c_str()); }
    for (auto& q : w.o) if (q.kind == k) VH_CHECK(q.id != o.id, "duplicate-id", "%s id %lu used twice", kn[k], (unsigned long)o.id);
    lv.insert(o.name); w.o.push_back(std::move(o)); return (int)w.o.size() - 1;
}
static void kill_node(World& w, int n)
{
    NodeM& x = w.g[(size_t)n]; x.alive = false; for (int k : x.kids) kill_node(w, k); x.kids.clear();
}
static void drop(World& w, int n) { int p = w.g[(size_t)n].parent; if (p >= 0) { auto& k = w.g[(size_t)p].kids; k.erase(std::find(k.begin(), k.end(), n)); } kill_node(w, n); }
static void gone(World& w, int oi)
{
    Obj& o = w.o[(size_t)oi]; if (!o.alive) return; o.alive = false; w.live[(size_t)o.kind].erase(o.name);
    for (size_t n = 0; n < w.g.size(); ++n) if (w.g[n].alive && w.g[n].asset == oi) drop(w, (int)n);
    if (o.kind == G) for (size_t i = 0; i < w.o.size(); ++i) if (w.o[i].alive && w.o[i].kind == P && w.o[i].geom == oi) gone(w, (int)i);
}
static void audit(World& w, bool full)
{
    for (size_t i = 0; i < w.o.size(); ++i) { Obj& o = w.o[i]; if (!full && !R.chance(.3)) continue;
        VH_CHECK(o.valid() == o.alive, o.alive ? "live-handle-invalid" : "dead-handle-valid", "%s '%s' handle valid()=%d but it is %s", kn[o.kind], o.name.c_str(), (int)o.valid(), o.alive ? "in the scene" : "deleted");
        if (o.alive) { VH_CHECK(o.nm() == o.name && o.idf() == o.id, "name-drift", "%s reads name '%s' id %lu, expected '%s' %lu", kn[o.kind], o.nm().c_str(), (unsigned long)o.idf(), o.name.c_str(), (unsigned long)o.id);
            try { VH_CHECK(World::look(w.s, o.kind, o.name) == o.id, "lookup-wrong-object", "%s lookup of '%s' returned another object", kn[o.kind], o.name.c_str()); } catch (const std::exception& e) { VH_FAIL("lookup-lost", "%s '%s' is in the scene but lookup says %s", kn[o.kind], o.name.c_str(), e.what()); } }
        else { VH_CHECK(vh::throws([&] { o.nm(); }), "dead-handle-usable", "name() of a deleted %s did not throw", kn[o.kind]); if (!w.live[(size_t)o.kind].count(o.name)) VH_CHECK(!w.has(o.kind, o.name), "deleted-name-found", "%s '%s' is still found after deletion", kn[o.kind], o.name.c_str()); }
        vh::ev(); }
    for (auto& n : pool) for (int k = 0; k < NK; ++k) if ((full || R.chance(.2)) && !w.live[(size_t)k].count(n)) VH_CHECK(!w.has(k, n), "phantom-name", "%s '%s' found but nothing in the scene has that name", kn[k], n.c_str());
    for (auto& n : w.g) { if (!full && !R.chance(.4)) continue; bool v = n.frame ? n.f->valid() : n.i->valid(); VH_CHECK(v == n.alive, n.alive ? "live-node-invalid" : "dead-node-valid", "%s node %lu valid()=%d but it is %s", n.frame ? "frame" : "instance", (unsigned long)n.id, (int)v, n.alive ? "attached" : "deleted"); vh::ev();
        if (!n.alive) { VH_CHECK(vh::throws([&] { if (n.frame) n.f->set_scale(2.); else n.i->set_scale(2.); }), "dead-node-usable", "a deleted node accepted set_scale"); continue; }
        if (n.parent >= 0) { auto pid = n.frame ? n.f->get_parent().id() : n.i->get_parent().id(); VH_CHECK(pid == w.g[(size_t)n.parent].id, "wrong-parent", "node %lu reports parent %lu not %lu", (unsigned long)n.id, (unsigned long)pid, (unsigned long)w.g[(size_t)n.parent].id); }
        if (n.frame) { std::vector<std::uint64_t> have, want; for (auto& c : n.f->get()->get_children()) have.push_back(c->id()); for (int k : n.kids) want.push_back(w.g[(size_t)k].id); VH_CHECK(have == want, "children-differ", "frame %lu has %zu children, expected %zu", (unsigned long)n.id, have.size(), want.size()); } }
}
static int alive_node(World& w, bool frame, bool root = true) { std::vector<int> c; for (size_t i = root ? 0 : 1; i < w.g.size(); ++i) if (w.g[i].alive && w.g[i].frame == frame) c.push_back((int)i); return c.empty() ? -1 : R.pick(c); }
static int pick_obj(World& w, int k, bool any = false) { std::vector<int> c; for (size_t i = 0; i < w.o.size(); ++i) if ((any || w.o[i].alive) && (k < 0 || w.o[i].kind == k)) c.push_back((int)i); return c.empty() ? -1 : R.pick(c); }
static GeometryHandle<S> geo(World& w, int i) { return w.s.get_geometry(w.o[(size_t)i].name); }
static void load(World& w, int hist)
{
    static int n = 0; fs::path f = vh::scratch(vh::fmt("m%d.obj", n % 7)); bool two = R.chance(.5); Str n1 = R.pick(pool), n2 = R.pick(pool); while (n2 == n1) n2 = R.pick(pool); for (auto* q : {&n1, &n2}) for (char& c : *q) if (c == ' ') c = '-'; ++n; (void)hist;
    { std::ofstream q(f); q << "v 0 0 5\nv 1 0 5\nv 0 1 5\nv 0 0 6\no " << n1 << "\nf 1 2 3\n"; if (two) q << "o " << n2 << "\nf 1 2 4\n"; }
    auto scan = [&](int k, const Str& b) { std::set<Str> r; if (w.has(k, b)) r.insert(b); for (int i = 1; i < 40; ++i) { Str c = b + "_" + std::to_string(i); if (w.has(k, c)) r.insert(c); } return r; };
    std::set<Str> bases{n1}; if (two) bases.insert(n2);
    std::map<std::pair<int, Str>, std::set<Str>> before; for (int k : {G, P}) for (auto& b : bases) before[{k, b}] = scan(k, b);
    Str asked = R.chance(.3) ? "" : R.pick(pool); auto m = w.s.load_model(f, asked); track(w, MO, m, asked.empty() ? f.stem().string() : asked);
    std::map<int, std::set<Str>> fresh; for (auto& [key, b] : before) { auto a = scan(key.first, key.second); for (auto& x : a) if (!b.count(x)) fresh[key.first].insert(x); }
    size_t want = two ? 2 : 1; VH_CHECK(fresh[G].size() == want && fresh[P].size() == want, "model-names", "model with %zu meshes registered %zu geometries and %zu primitives", want, fresh[G].size(), fresh[P].size());
    std::map<Geometry<S>*, int> gi; for (auto& x : fresh[G]) { auto h = w.s.get_geometry(x); VH_CHECK(!w.live[G].count(x), "duplicate-name", "geometry %s", x.c_str()); gi[h.get().get()] = track(w, G, h, x); }
    for (auto& x : fresh[P]) { auto h = w.s.get_primitive(x); int t = track(w, P, h, x); auto it = gi.find(h.get()->geometry.get()); VH_CHECK(it != gi.end(), "model-primitive", "the primitive '%s' of a loaded model has a geometry that is not registered", x.c_str()); if (it != gi.end()) w.o[(size_t)t].geom = it->second; }
}
static void view(World& w)
{
    static SC& cam_scene = *new SC; static auto cm = cam_scene.new_camera_model("c"); auto ci = w.s.root.new_instance(cm);
    { SceneView<S> v(w.s, Interval(Time::from_et(0), Time::from_et(0)), ci, ObservationMode::TRUE_STATE); for (int i = 0; i < 4; ++i) { Ray<S> r(Vec3<float>(0.f, 0.f, 0.f), glm::normalize(Vec3<float>(R.f() - .5f, R.f() - .5f, R.f() + .1f))); auto h = v.intersect(r, 0.f); (void)h; vh::ev(); } }
    w.s.root.delete_instance(ci); VH_CHECK(!ci.valid(), "dead-node-valid", "instance handle valid after delete_instance");
}
static void one(int hist)
{
    World w, other; auto foreign = other.s.new_sphere_light(units::Meter(1), units::Watt(1), "a"); int steps = R.i(15, 60); bool cams = R.chance(.03); vh::count(cams ? "with-cameras" : "no-cameras");
    IndexBuffer ib{0, 1, 2}; VertexBuffer<S> vb(3); vb[0].position = {0, 0, 5}; vb[1].position = {1, 0, 5}; vb[2].position = {0, 1, 5};
    std::uint64_t shape = 0; int same = R.chance(.1) ? R.pick(std::vector<int>{0, 3, 4, 16}) : -1; if (same >= 0) { steps += 20; vh::count("one name for all"); } extras.clear(); made = {}; foreign_extras = false;
    for (int st = 0; st < steps; ++st)
    {
        int op = R.i(0, 16); Str nm = R.chance(.25) ? "" : R.pick(pool); if (same >= 0) { if (R.chance(.85)) nm = pool[0]; if (R.chance(.6)) op = same; } shape = vh::hash(shape, op); vh::cur("history %d step %d op %d name '%s'", hist, st, op, nm.c_str());
        if (op <= 1) { if (R.chance(.5)) track(w, G, w.s.add_mesh(ib, vb, nm), nm); else track(w, G, w.s.add_ellipsoid(units::Meter(1), units::Meter(2), units::Meter(1), nm), nm); vh::count("add-geometry"); }
        else if (op == 2) { int gi = pick_obj(w, G); if (gi >= 0) { int t = track(w, P, w.s.add_primitive(geo(w, gi), nm), nm); w.o[(size_t)t].geom = gi; vh::count("add-primitive"); } }
        else if (op == 3) { track(w, LI, w.s.new_sphere_light(units::Meter(1), units::Watt(1), nm), nm); vh::count("add-light"); }
        else if (op == 4) { track(w, U, w.s.new_unresolved_emitter(units::Watt(1), nm), nm); vh::count("add-unresolved"); }
        else if (op == 5) { if (cams && R.chance(.5)) { track(w, C, w.s.new_camera_model(nm), nm); vh::count("add-camera"); } else if (R.chance(.4)) { load(w, hist); foreign_extras = true; vh::count("load-model"); } }
        else if (op == 6) { int f = alive_node(w, true); NodeM n; n.frame = true; n.parent = f; n.f = std::make_unique<Frame>(w.g[(size_t)f].f->new_subframe()); n.id = n.f->id(); if (R.chance(.3)) w.held.push_back(n.f->get()); w.g.push_back(std::move(n)); w.g[(size_t)f].kids.push_back((int)w.g.size() - 1); vh::count("subframe"); }
        else if (op <= 8) { int f = alive_node(w, true), a = pick_obj(w, R.i(P, NK - 1)); if (a >= 0) { NodeM n; n.frame = false; n.parent = f; n.asset = a; n.i = std::make_unique<Inst>(w.o[(size_t)a].inst(*w.g[(size_t)f].f)); n.id = n.i->id(); if (R.chance(.3)) w.held.push_back(n.i->get()); w.g.push_back(std::move(n)); w.g[(size_t)f].kids.push_back((int)w.g.size() - 1); vh::count("instance"); } }
        else if (op == 9)
        {
            int a = pick_obj(w, -1); if (a >= 0) { Obj& o = w.o[(size_t)a]; Str want = R.chance(.2) ? o.name : nm.empty() ? R.pick(pool) : nm; auto& lv = w.live[(size_t)o.kind]; lv.erase(o.name); Str old = o.name; o.rename(w.s, want); Str got = o.nm();
                if (!lv.count(want)) VH_CHECK(got == want, "rename-refused", "renaming %s '%s' to free name '%s' gave '%s'", kn[o.kind], old.c_str(), want.c_str(), got.c_str()); else VH_CHECK(!lv.count(got), "duplicate-name", "rename made two %s called '%s'", kn[o.kind], got.c_str());
                o.name = got; lv.insert(got); vh::count("rename"); if (old != got && !lv.count(old)) VH_CHECK(!w.has(o.kind, old), "old-name-found", "%s still found under its old name '%s'", kn[o.kind], old.c_str()); }
        }
        else if (op == 10) { int n = alive_node(w, false); if (n >= 0) { Inst h = *w.g[(size_t)n].i; Frame pf = *w.g[(size_t)w.g[(size_t)n].parent].f; pf.delete_instance(h); drop(w, n); vh::count("delete-instance"); } }
        else if (op == 11) { int n = alive_node(w, true, false); if (n >= 0 && R.chance(.6)) { Frame h = *w.g[(size_t)n].f; Frame pf = *w.g[(size_t)w.g[(size_t)n].parent].f; pf.delete_subframe(h); drop(w, n); vh::count("delete-subframe"); } }
        else if (op == 12 || op == 13) { int a = pick_obj(w, -1); if (a >= 0 && R.chance(.7)) { auto d = w.o[(size_t)a].del; vh::count((Str("delete-") + kn[w.o[(size_t)a].kind]).c_str()); d(w.s); gone(w, a); } }
        else if (op == 14)
        { // refused operations must change nothing
            int n = alive_node(w, false), f = alive_node(w, true); if (n >= 0 && w.g[(size_t)n].parent != f) VH_CHECK(vh::throws([&] { w.g[(size_t)f].f->delete_instance(*w.g[(size_t)n].i); }), "wrong-parent-delete", "a frame deleted an instance that belongs to another frame");
            VH_CHECK(vh::throws([&] { w.s.delete_light(foreign); }), "foreign-delete", "a scene deleted a light of another scene"); VH_CHECK(vh::throws([&] { w.s.set_name(foreign, "b"); }), "foreign-rename", "a scene renamed a light of another scene");
            VH_CHECK(foreign.valid() && foreign.name() == "a" && other.s.get_light("a").id() == foreign.id(), "foreign-disturbed", "a refused operation changed the other scene's light");
            int d = pick_obj(w, -1, true); if (d >= 0 && !w.o[(size_t)d].alive) { VH_CHECK(vh::throws([&] { w.o[(size_t)d].del(w.s); }), "double-delete", "deleting a %s twice did not throw", kn[w.o[(size_t)d].kind]); VH_CHECK(vh::throws([&] { w.o[(size_t)d].rename(w.s, "zz"); }), "rename-dead", "renaming a deleted %s did not throw", kn[w.o[(size_t)d].kind]); if (w.o[(size_t)d].inst) VH_CHECK(vh::throws([&] { w.o[(size_t)d].inst(*w.g[0].f); }), "instance-of-dead", "a deleted %s could be instanced", kn[w.o[(size_t)d].kind]); }
            vh::count("refused");
        }
        else if (op == 16) more(w.s, nm);
        else { if (R.chance(.3)) { view(w); vh::count("view"); } std::ostringstream os; auto* b = std::cout.rdbuf(os.rdbuf()); w.s.print_contents(); std::cout.rdbuf(b); size_t ni = 0; for (auto& x : w.g) ni += x.alive && !x.frame; Str t = os.str(); size_t c = 0; for (size_t p = 0; (p = t.find("Instance[", p)) != Str::npos; ++p) ++c; VH_CHECK(c == ni, "print-graph", "print_contents shows %zu instances, the graph holds %zu", c, ni); vh::count("print"); if (!foreign_extras) { auto shown = [&](const char* k) { size_t p = t.find(Str(k) + ": "); return p == Str::npos ? -1 : std::atoi(t.c_str() + p + std::strlen(k) + 2); }; VH_CHECK(shown("Materials") == made[1] && shown("Textures") == made[5] + made[6] + made[7], "print-counts", "print_contents shows %d materials and %d textures of %d and %d", shown("Materials"), shown("Textures"), made[1], made[5] + made[6] + made[7]); } }
        audit(w, false); for (auto& e : extras) VH_CHECK(e.valid() && e.nm() == e.name, "extra-lost", "an object named '%s' is no longer the scene's under that name", e.name.c_str());
    }
    audit(w, true); view(w); vh::distinct(shape);
    if (hist < 3) vh::sample(vh::fmt("history of %d steps: %zu objects and %zu nodes created", steps, w.o.size(), w.g.size()));
}
static void body() { cs::action = "RETURN"; cs::eph = [](const std::string&, L, const std::string&, const std::string&, const std::string&, cs::State& st, L& lt) { st = {}; lt = 0; return true; }; cs::att = [](const std::string&, const std::string&, L, cs::Attitude& o) { o = {}; o.r[0][0] = o.r[1][1] = o.r[2][2] = 1; return true; }; R = vh::Rng(vh::seed() * 7919 + 16); int n = vh::n(600, 12000); for (int i = 0; i < n; ++i) { vh::watchdog(60); one(i); } }
VH_MAIN(body())
