// C33: model files are written from known meshes, nodes, materials and images (glTF text, binary and with data URIs,
// and OBJ), loaded, instanced, and met by rays; every hit and every material is compared with what was written.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/huira.hpp"
#include "imgenc.hpp"
#include "ld.hpp"
#include <fstream>
using F3 = Vec3<float>;
using Bytes = enc::Bytes;
static V fv(const F3& a) { return {a.x, a.y, a.z}; }
static V un(const V& a) { return (1 / len(a)) * a; }
static F3 ff(const V& a) { return {(float)a[0], (float)a[1], (float)a[2]}; }
static L det(const M& m) { return dot(V{m[0][0], m[0][1], m[0][2]}, cross(V{m[1][0], m[1][1], m[1][2]}, V{m[2][0], m[2][1], m[2][2]})); }
static M inverse(const M& m) { V r0{m[0][0], m[0][1], m[0][2]}, r1{m[1][0], m[1][1], m[1][2]}, r2{m[2][0], m[2][1], m[2][2]}, a = cross(r1, r2), b = cross(r2, r0), c = cross(r0, r1); L d = dot(r0, a); M o; for (size_t i = 0; i < 3; ++i) { o[i][0] = a[i] / d; o[i][1] = b[i] / d; o[i][2] = c[i] / d; } return o; }

struct Tex { enc::Truth t; int store = 0; std::string uri; bool lost = false; };
struct GMat { float bc[4] = {1, 1, 1, 1}, metal = 1, rough = 1, em[3] = {0, 0, 0}; int tex = -1, mr = -1, nrm = -1, etex = -1; bool hbc = false, hm = false, hr = false, pbr = true; std::string name; };
struct GPrim { std::vector<F3> pos, nrm; std::vector<Vec2<float>> uv; std::vector<std::array<float, 4>> col; std::vector<uint32_t> idx; int mat = -1; bool lines = false; std::string name; };
struct GMesh { std::string name; std::vector<GPrim> prims; };
struct Nd { std::string name; M A; V p; std::string json; std::vector<int> kids; int mesh = -1; bool root = true; };
struct Doc { std::vector<Tex> tex; std::vector<GMat> mat; std::vector<GMesh> mesh; std::vector<Nd> node; std::string file; bool obj = false; };
struct Tri { V a, b, c; int mesh, prim; uint32_t i[3]; M A; V p; int copy; };

static std::string f9(double x) { return vh::fmt("%.9g", x); }
static std::string b64(const Bytes& b)
{
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for (size_t i = 0; i < b.size(); i += 3) { unsigned v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0); o += A[v >> 18]; o += A[(v >> 12) & 63]; o += i + 1 < b.size() ? A[(v >> 6) & 63] : '='; o += i + 2 < b.size() ? A[v & 63] : '='; }
    return o;
}
static void put(const std::string& p, const void* d, size_t n) { std::ofstream f(p, std::ios::binary); f.write((const char*)d, (std::streamsize)n); }
static enc::Truth small(enc::Fmt f) { for (;;) { enc::Truth t = enc::make(f, R, vh::scratch("enc.tmp")); if (t.w * t.h > 900) continue; if (t.space == enc::SRGB || (f == enc::HDR && t.space == enc::LIN)) return t; } }
// ---------------------------------------------------------------- content
static GPrim rprim(int nmat, L size)
{
    GPrim p; p.mat = nmat && R.chance(.9) ? R.i(0, nmat - 1) : -1; int nt = R.i(1, 6); bool uv = R.chance(.8), nrm = R.chance(.7), col = R.chance(.25);
    if (R.chance(.06)) { p.lines = true; nt = 1; }
    for (int i = 0; i < nt; ++i)
    {
        V a, b, c; for (;;) { a = rv(size); b = a + rv(size); c = a + rv(size); V n = cross(b - a, c - a); L l = std::max({len(b - a), len(c - a), len(c - b)}); if (len(n) > .25L * l * l && l > .3L * size && l < 4 * size) break; }
        V g = un(cross(fv(ff(b)) - fv(ff(a)), fv(ff(c)) - fv(ff(a)))), n0 = un(g + .4L * rv(.5)); Vec2<float> w[3];
        for (;;) { for (auto& x : w) x = {(float)R.u(-1, 2), (float)R.u(-1, 2)}; double A = (w[1].x - w[0].x) * (w[2].y - w[0].y) - (w[1].y - w[0].y) * (w[2].x - w[0].x); if (A < -.2) break; }
        int k = 0; for (V q : {a, b, c}) { p.pos.push_back(ff(q)); if (nrm) p.nrm.push_back(ff(un(n0 + .2L * rv(.5)))); if (uv) p.uv.push_back(w[k]); if (col) p.col.push_back({R.f(), R.f(), R.f(), 1}); p.idx.push_back((uint32_t)p.idx.size()); ++k; }
    }
    // share vertices of flat-sided neighbours by listing triangles twice over permuted indices is left to the importer's joining
    return p;
}
static void rtrs(Nd& n, bool leaf, L size, bool mirror)
{
    V t = rv(size * 2); for (auto& x : t) x = (float)x; V ax = un(rv(1)); L an = (L)R.u(-3.1, 3.1); double q[4] = {(double)(ax[0] * std::sin(an / 2)), (double)(ax[1] * std::sin(an / 2)), (double)(ax[2] * std::sin(an / 2)), (double)std::cos(an / 2)}; L s = R.chance(.5) ? 1 : (L)R.u(.4, 2.5); V sc{s, s, s}; if (leaf && R.chance(.4)) for (auto& x : sc) x = (L)R.u(.4, 2.5); if (mirror) { if (leaf && R.chance(.6)) { size_t k = (size_t)R.i(0, 2); sc[k] = -sc[k]; } else sc = -1.L * sc; } if (leaf && R.chance(.05)) { sc[0] = -sc[0]; sc[1] = -sc[1]; }
    M rot = turn(ax, an); bool hr = !R.chance(.2), ht = !R.chance(.2), hs = !R.chance(.2) || mirror; if (!hr) rot = M{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; if (!ht) t = {}; if (!hs) sc = {1, 1, 1};
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) n.A[i][j] = rot[i][j] * sc[j]; n.p = t; std::string j;
    if (R.chance(.3)) { j = ",\"matrix\":["; for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) j += (c || r ? "," : "") + f9(r == 3 ? (c == 3) : c == 3 ? (double)t[r] : (double)n.A[r][c]); j += "]"; }
    else { if (ht) j += ",\"translation\":[" + f9((double)t[0]) + "," + f9((double)t[1]) + "," + f9((double)t[2]) + "]"; if (hr) j += ",\"rotation\":[" + f9(q[0]) + "," + f9(q[1]) + "," + f9(q[2]) + "," + f9(q[3]) + "]"; if (hs) j += ",\"scale\":[" + f9((double)sc[0]) + "," + f9((double)sc[1]) + "," + f9((double)sc[2]) + "]"; }
    n.json = j;
}
static Doc rdoc(int id)
{
    Doc d; d.obj = R.chance(.15); L size = (L)R.lu(.2, 500); int nt = d.obj ? 0 : R.i(0, 5), nm = d.obj ? 0 : R.i(0, 4);
    for (int i = 0; i < nt; ++i) { Tex t; double k = R.f(); t.t = small(k < .65 ? enc::PNG : k < .9 ? enc::JPEG : k < .94 ? enc::TGA : k < .97 ? enc::BMP : enc::HDR); t.store = k < .9 ? R.i(0, 2) : 0; t.uri = vh::fmt("tex%d%s.%s", i, R.chance(.2) ? "_a" : "", enc::EXT[t.t.fmt]); d.tex.push_back(t); }
    auto pick = [&] { return nt && R.chance(.45) ? R.i(0, nt - 1) : -1; };
    std::vector<int> role((size_t)std::max(nt, 1), 0); // one image is not both a packed map and a normal map
    for (int i = 0; i < nm; ++i)
    {
        GMat m; m.name = vh::fmt("mat%d", i); m.hbc = R.chance(.7); if (m.hbc) for (auto& x : m.bc) x = (float)R.u(.05, 1); if (R.chance(.6)) m.bc[3] = 1; m.hm = R.chance(.6); if (m.hm) m.metal = R.chance(.3) ? 0.f : R.f(); m.hr = R.chance(.6); if (m.hr) m.rough = R.f(); m.tex = pick(); m.mr = pick(); if (m.mr >= 0) { if (role[(size_t)m.mr] == 2) m.mr = -1; else role[(size_t)m.mr] = 1; } m.nrm = pick(); if (m.nrm >= 0) { if (role[(size_t)m.nrm] == 1 || d.tex[(size_t)m.nrm].t.fmt == enc::HDR) m.nrm = -1; else role[(size_t)m.nrm] = 2; } m.etex = pick(); if (R.chance(.6) || m.etex >= 0) for (auto& x : m.em) x = R.f(); d.mat.push_back(m);
    }
    int ns = R.i(1, 3); for (int i = 0; i < ns; ++i) { GMesh m; m.name = vh::fmt("mesh%d_%d", i, id); int np = d.obj ? 1 : R.chance(.7) ? 1 : R.i(2, 3); for (int k = 0; k < np; ++k) { m.prims.push_back(rprim(nm, size)); m.prims.back().name = m.name + (np > 1 ? vh::fmt("-%d", k) : ""); if (d.obj) { m.prims.back().lines = false; m.prims.back().col.clear(); m.prims.back().mat = -1; } } d.mesh.push_back(m); }
    if (d.obj) return d;
    int nn = R.i(1, 6); bool mirrors = R.chance(.35); for (int i = 0; i < nn; ++i) { Nd n; n.name = vh::fmt("node%d", i); d.node.push_back(n); if (i && R.chance(.7)) { int pa = R.i(0, i - 1); d.node[(size_t)pa].kids.push_back(i); d.node[(size_t)i].root = false; } }
    for (auto& n : d.node) { bool leaf = n.kids.empty(); rtrs(n, leaf, size, mirrors && R.chance(.4)); if (R.chance(leaf ? .95 : .4)) n.mesh = R.i(0, ns - 1); }
    d.node.back().mesh = R.i(0, ns - 1); // the importer refuses a scene without meshes
    return d;
}
// ---------------------------------------------------------------- writers
static std::string write_gltf(Doc& d, const std::string& dir, int kind) // 0 .gltf + .bin, 1 .gltf with data URI, 2 .glb
{
    Bytes bin; std::string views, acc; int nv = 0, na = 0;
    auto view = [&](const void* p, size_t n) { while (bin.size() % 4) bin.push_back(0); views += (nv ? "," : "") + vh::fmt("{\"buffer\":0,\"byteOffset\":%zu,\"byteLength\":%zu}", bin.size(), n); bin.insert(bin.end(), (const unsigned char*)p, (const unsigned char*)p + n); return nv++; };
    auto accessor = [&](const void* p, size_t n, size_t count, int comp, const char* type, const std::string& extra = "") { int v = view(p, n); acc += (na ? "," : "") + vh::fmt("{\"bufferView\":%d,\"componentType\":%d,\"count\":%zu,\"type\":\"%s\"%s}", v, comp, count, type, extra.c_str()); return na++; };
    std::string meshes;
    for (auto& m : d.mesh)
    {
        meshes += (meshes.empty() ? "" : ",") + ("{\"name\":\"" + m.name + "\",\"primitives\":["); bool first = true;
        for (auto& p : m.prims)
        {
            F3 lo = p.pos[0], hi = lo; for (auto& q : p.pos) { lo = glm::min(lo, q); hi = glm::max(hi, q); } auto v3 = [](const F3& q) { return "[" + f9(q.x) + "," + f9(q.y) + "," + f9(q.z) + "]"; };
            std::string at = vh::fmt("\"POSITION\":%d", accessor(p.pos.data(), p.pos.size() * 12, p.pos.size(), 5126, "VEC3", ",\"min\":" + v3(lo) + ",\"max\":" + v3(hi)));
            if (!p.nrm.empty()) at += vh::fmt(",\"NORMAL\":%d", accessor(p.nrm.data(), p.nrm.size() * 12, p.nrm.size(), 5126, "VEC3"));
            if (!p.uv.empty()) at += vh::fmt(",\"TEXCOORD_0\":%d", accessor(p.uv.data(), p.uv.size() * 8, p.uv.size(), 5126, "VEC2"));
            if (!p.col.empty()) at += vh::fmt(",\"COLOR_0\":%d", accessor(p.col.data(), p.col.size() * 16, p.col.size(), 5126, "VEC4"));
            std::string ix; if (p.lines || R.chance(.7)) { if (R.chance(.5)) { std::vector<uint16_t> s(p.idx.begin(), p.idx.end()); ix = vh::fmt(",\"indices\":%d", accessor(s.data(), s.size() * 2, s.size(), 5123, "SCALAR")); } else ix = vh::fmt(",\"indices\":%d", accessor(p.idx.data(), p.idx.size() * 4, p.idx.size(), 5125, "SCALAR")); }
            if (p.lines) { uint16_t s[2] = {0, 1}; ix = vh::fmt(",\"indices\":%d,\"mode\":1", accessor(s, 4, 2, 5123, "SCALAR")); }
            meshes += (first ? "" : ",") + ("{\"attributes\":{" + at + "}" + ix) + (p.mat >= 0 ? vh::fmt(",\"material\":%d", p.mat) : "") + "}"; first = false;
        }
        meshes += "]}";
    }
    std::string images, textures; int n = 0;
    for (auto& t : d.tex)
    {
        const char* mime = t.t.fmt == enc::JPEG ? "image/jpeg" : "image/png"; std::string im; if (t.store == 0) { if (!t.lost) put(dir + "/" + t.uri, t.t.file.data(), t.t.file.size()); im = "\"uri\":\"" + t.uri + "\""; } else if (t.store == 1) im = std::string("\"uri\":\"data:") + mime + ";base64," + b64(t.t.file) + "\""; else im = vh::fmt("\"bufferView\":%d,\"mimeType\":\"%s\"", view(t.t.file.data(), t.t.file.size()), mime);
        images += (n ? ",{" : "{") + im + "}"; textures += (n ? "," : "") + vh::fmt("{\"source\":%d}", n); ++n;
    }
    std::string mats;
    for (auto& m : d.mat)
    {
        std::string pb; auto add = [&](const std::string& s) { pb += (pb.empty() ? "" : ",") + s; }; if (m.hbc) add("\"baseColorFactor\":[" + f9(m.bc[0]) + "," + f9(m.bc[1]) + "," + f9(m.bc[2]) + "," + f9(m.bc[3]) + "]"); if (m.tex >= 0) add(vh::fmt("\"baseColorTexture\":{\"index\":%d}", m.tex)); if (m.hm) add("\"metallicFactor\":" + f9(m.metal)); if (m.hr) add("\"roughnessFactor\":" + f9(m.rough)); if (m.mr >= 0) add(vh::fmt("\"metallicRoughnessTexture\":{\"index\":%d}", m.mr));
        mats += (mats.empty() ? "" : ",") + ("{\"name\":\"" + m.name + "\",\"pbrMetallicRoughness\":{" + pb + "}") + ",\"alphaMode\":\"BLEND\"" + (m.nrm >= 0 ? vh::fmt(",\"normalTexture\":{\"index\":%d}", m.nrm) : "") + (m.etex >= 0 ? vh::fmt(",\"emissiveTexture\":{\"index\":%d}", m.etex) : "") + ",\"emissiveFactor\":[" + f9(m.em[0]) + "," + f9(m.em[1]) + "," + f9(m.em[2]) + "]}";
    }
    std::string nodes, roots; for (size_t i = 0; i < d.node.size(); ++i) { auto& k = d.node[i]; std::string s = "{\"name\":\"" + k.name + "\"" + k.json; if (k.mesh >= 0) s += vh::fmt(",\"mesh\":%d", k.mesh); if (!k.kids.empty()) { s += ",\"children\":["; for (size_t j = 0; j < k.kids.size(); ++j) s += (j ? "," : "") + std::to_string(k.kids[j]); s += "]"; } nodes += (i ? "," : "") + s + "}"; if (k.root) roots += (roots.empty() ? "" : ",") + std::to_string(i); }
    while (bin.size() % 4) bin.push_back(0);
    std::string buf = vh::fmt("{\"byteLength\":%zu", bin.size()) + (kind == 0 ? ",\"uri\":\"model.bin\"}" : kind == 1 ? ",\"uri\":\"data:application/octet-stream;base64," + b64(bin) + "\"}" : "}");
    std::string js = "{\"asset\":{\"version\":\"2.0\"},\"scene\":0,\"scenes\":[{\"nodes\":[" + roots + "]}],\"nodes\":[" + nodes + "],\"meshes\":[" + meshes + "]" + (mats.empty() ? "" : ",\"materials\":[" + mats + "]") + (n ? ",\"textures\":[" + textures + "],\"images\":[" + images + "]" : "") + ",\"accessors\":[" + acc + "],\"bufferViews\":[" + views + "],\"buffers\":[" + buf + "]}";
    if (kind == 2) { while (js.size() % 4) js += ' '; Bytes o; for (char c : std::string("glTF")) o.push_back((unsigned char)c); enc::p32(o, 2); enc::p32(o, (unsigned)(12 + 8 + js.size() + 8 + bin.size())); enc::p32(o, (unsigned)js.size()); enc::p32(o, 0x4E4F534A); o.insert(o.end(), js.begin(), js.end()); enc::p32(o, (unsigned)bin.size()); enc::p32(o, 0x004E4942); o.insert(o.end(), bin.begin(), bin.end()); d.file = dir + "/model.glb"; put(d.file, o.data(), o.size()); return d.file; }
    if (kind == 0) put(dir + "/model.bin", bin.data(), bin.size()); d.file = dir + "/model.gltf"; put(d.file, js.data(), js.size()); return d.file;
}
static std::string write_obj(Doc& d, const std::string& dir)
{
    std::string s = "# model\n"; int nv = 0, nt = 0, nn = 0;
    for (auto& m : d.mesh) for (auto& p : m.prims) { s += "o " + p.name + "\n"; for (auto& q : p.pos) s += "v " + f9(q.x) + " " + f9(q.y) + " " + f9(q.z) + "\n"; for (auto& q : p.uv) s += "vt " + f9(q.x) + " " + f9(q.y) + "\n"; for (auto& q : p.nrm) s += "vn " + f9(q.x) + " " + f9(q.y) + " " + f9(q.z) + "\n"; for (size_t i = 0; i < p.idx.size(); i += 3) { s += "f"; for (size_t k = 0; k < 3; ++k) { int j = (int)p.idx[i + k] + 1; s += " " + std::to_string(nv + j); if (!p.uv.empty() || !p.nrm.empty()) s += "/" + (p.uv.empty() ? "" : std::to_string(nt + j)); if (!p.nrm.empty()) s += "/" + std::to_string(nn + j); } s += "\n"; } nv += (int)p.pos.size(); nt += (int)p.uv.size(); nn += (int)p.nrm.size(); }
    d.file = dir + "/model.obj"; put(d.file, s.data(), s.size()); return d.file;
}
// ---------------------------------------------------------------- oracle
static void collect(const Doc& d, int node, const M& A, const V& p, int copy, std::vector<Tri>& out)
{
    auto mesh = [&](int m, const M& B, const V& q) { for (size_t k = 0; k < d.mesh[(size_t)m].prims.size(); ++k) { auto& pr = d.mesh[(size_t)m].prims[k]; if (pr.lines) continue; for (size_t i = 0; i < pr.idx.size(); i += 3) { Tri t; t.mesh = m; t.prim = (int)k; t.A = B; t.p = q; t.copy = copy; V* c[3] = {&t.a, &t.b, &t.c}; for (size_t j = 0; j < 3; ++j) { t.i[j] = pr.idx[i + j]; *c[j] = q + app(B, fv(pr.pos[t.i[j]])); } out.push_back(t); } } };
    if (d.obj) { for (size_t m = 0; m < d.mesh.size(); ++m) mesh((int)m, A, p); return; }
    if (node < 0) { for (size_t i = 0; i < d.node.size(); ++i) if (d.node[i].root) collect(d, (int)i, A, p, copy, out); return; }
    auto& n = d.node[(size_t)node]; M B = mul(A, n.A); V q = p + app(A, n.p); if (n.mesh >= 0) mesh(n.mesh, B, q); for (int k : n.kids) collect(d, k, B, q, copy, out);
}
static double lin(double c) { return c <= .04045 ? c / 12.92 : std::pow((c + .055) / 1.055, 2.4); }
template <class T> static Image<T> colour(const Tex& t) { Image<T> im(t.t.w, t.t.h); for (int y = 0; y < t.t.h; ++y) for (int x = 0; x < t.t.w; ++x) { auto& p = t.t.px[(size_t)y * (size_t)t.t.w + (size_t)x]; auto g = [&](double c) { return (float)(t.t.space == enc::LIN ? c : lin(c)); }; im(x, y) = convert_rgb_to_spectral<T>(RGB{g(p.r), g(p.g), g(p.b)}); } return im; }
static Image<float> chan(const Tex& t, int c) { Image<float> im(t.t.w, t.t.h); for (int y = 0; y < t.t.h; ++y) for (int x = 0; x < t.t.w; ++x) { auto& p = t.t.px[(size_t)y * (size_t)t.t.w + (size_t)x]; im(x, y) = (float)(c == 0 ? p.r : c == 1 ? p.g : c == 2 ? p.b : p.a); } return im; }
template <class T> static void material(const Doc& d, const GMat& m, const GPrim& p, const std::shared_ptr<Material<T>>& mat)
{
    auto ok = [&](int t) { return t >= 0 && !d.tex[(size_t)t].lost ? &d.tex[(size_t)t] : nullptr; }; const Tex *tb = ok(m.tex), *tm = ok(m.mr), *tn = ok(m.nrm), *te = ok(m.etex);
    Image<T> ib(1, 1), ie(1, 1); Image<float> ia(1, 1), ir(1, 1), im(1, 1), n0(1, 1), n1(1, 1), n2(1, 1); if (tb) { ib = colour<T>(*tb); ia = chan(*tb, 3); } if (te) ie = colour<T>(*te); if (tm) { ir = chan(*tm, 1); im = chan(*tm, 2); } if (tn) { n0 = chan(*tn, 0); n1 = chan(*tn, 1); n2 = chan(*tn, 2); }
    auto tol = [](const Tex* t) { return t ? 4 * t->t.tol + 2e-5 : 2e-5; };
    for (int k = 0; k < 6; ++k)
    {
        Interaction<T> is{}; is.uv = {(float)R.u(-2, 3), (float)R.u(-2, 3)}; is.normal_g = is.normal_s = {0, 0, 1}; is.tangent = {1, 0, 0}; is.bitangent = {0, 1, 0}; is.vertex_albedo = T{1.f}; is.wo = {0, 0, 1};
        const Tex* any[] = {tb, te, tm, tn}; const Tex* px = any[R.below(4)]; if (px) is.uv = {px->t.w < 2 ? R.f() : (float)R.i(0, px->t.w - 2) / (float)(px->t.w - 1), px->t.h < 2 ? R.f() : (float)R.i(0, px->t.h - 2) / (float)(px->t.h - 1)}; vh::cur("%s material %s (base %s, packed %s, normal %s, emission %s)", d.file.c_str(), m.name.c_str(), tb ? tb->t.variant.c_str() : "-", tm ? tm->t.variant.c_str() : "-", tn ? tn->t.variant.c_str() : "-", te ? te->t.variant.c_str() : "-");
        auto e = mat->evaluate(is); vh::ev(); vh::distinct(vh::hash(is.uv.x, e.params.roughness, (float)e.params.albedo[0])); float u = is.uv.x, v = is.uv.y;
        T fb = convert_rgb_to_spectral<T>(RGB{m.bc[0], m.bc[1], m.bc[2]}), fe = convert_rgb_to_spectral<T>(RGB{m.em[0], m.em[1], m.em[2]}); T wb = (tb ? ib.sample_bilinear(u, v) : T{1.f}) * fb, we = (te ? ie.sample_bilinear(u, v) : T{1.f}) * fe;
        for (size_t i = 0; i < T::size(); ++i) { VH_CHECK(std::abs(e.params.albedo[i] - wb[i]) <= tol(tb) * std::max(1.f, std::abs(wb[i])), "albedo", "band %zu is %g, the file says %g%s", i, (double)e.params.albedo[i], (double)wb[i], tb ? tb->store ? " (embedded texture)" : " (texture file)" : ""); VH_CHECK(std::abs(e.params.emission[i] - we[i]) <= tol(te) * std::max(1.f, std::abs(we[i])), "emission", "band %zu is %g, the file says %g%s", i, (double)e.params.emission[i], (double)we[i], te ? te->store ? " (embedded texture)" : " (texture file)" : ""); VH_CHECK(e.params.transmission[i] == 0, "transmission", "%g", (double)e.params.transmission[i]); }
        float wa = (tb && tb->t.alpha ? ia.sample_bilinear(u, v) : 1.f) * m.bc[3], wr = (tm ? ir.sample_bilinear(u, v) : 1.f) * m.rough, wm = (tm ? im.sample_bilinear(u, v) : 1.f) * m.metal;
        VH_CHECK(std::abs(e.params.opacity - wa) <= tol(tb), "opacity", "%g, the file says %g%s", (double)e.params.opacity, (double)wa, tb ? tb->store ? " (embedded texture)" : " (texture file)" : ""); VH_CHECK(std::abs(e.params.roughness - wr) <= tol(tm), "roughness", "%g, the file says %g", (double)e.params.roughness, (double)wr); VH_CHECK(std::abs(e.params.metallic - wm) <= tol(tm), "metallic", "%g, the file says %g", (double)e.params.metallic, (double)wm);
        if (tn && k && px == tn) { V w{2 * (L)n0.sample_bilinear(u, v) - 1, 2 * (L)n1.sample_bilinear(u, v) - 1, 2 * (L)n2.sample_bilinear(u, v) - 1}; if (len(w) > .3L) { VH_CHECK(len(fv(e.isect.normal_s) - un(w)) < 12 * tn->t.tol / len(w) + 1e-3L / len(w), "normal-map", "normal (%g,%g,%g), the file says (%Lg,%Lg,%Lg) at %g,%g of %d x %d length %Lg", (double)e.isect.normal_s.x, (double)e.isect.normal_s.y, (double)e.isect.normal_s.z, w[0] / len(w), w[1] / len(w), w[2] / len(w), u * (float)tn->t.w, v * (float)tn->t.h, tn->t.w, tn->t.h, len(w)); vh::count("normal-mapped points"); } }
        if (!tn) VH_CHECK(len(fv(e.isect.normal_s) - V{0, 0, 1}) < 1e-6L, "normal-map", "a material without normal map bends normals");
        if (tb) vh::count(tb->store ? "embedded colour samples" : "colour samples from files");
    }
    (void)p;
}
template <class T> struct Sh { std::unique_ptr<Scene<T>> sc; InstanceHandle<T> cam; };
struct Place { M A; V p; };
template <class T> static Place place(InstanceHandle<T>& h, L size, bool plain)
{
    Place q; M r = rrot(); L s = plain ? 1 : R.chance(.5) ? 1 : (L)R.u(.5, 2); q.p = fv(ff(rv(size * 3))); h.set_position(units::Meter((double)q.p[0]), units::Meter((double)q.p[1]), units::Meter((double)q.p[2])); h.set_rotation(dr(r)); h.set_scale((double)s, (double)s, (double)s); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) q.A[i][j] = r[i][j] * s; return q;
}
template <class T> static void rays(const Doc& d, SceneView<T>& view, const std::vector<Tri>& tris, int N, const char* when)
{
    if (tris.empty()) { HitRecord h = view.intersect(Ray<T>({0, 0, 0}, ff(un(rv(1)))), 0.f, 1u); VH_CHECK(!h.hit(), "phantom", "a model without triangles is hit"); return; }
    L ext = 0; V mid{}; for (auto& t : tris) mid = mid + (1.L / (L)tris.size()) * t.a; for (auto& t : tris) for (auto& q : {t.a, t.b, t.c}) ext = std::max(ext, len(q - mid));
    for (int j = 0; j < N; ++j)
    {
        const Tri& g = tris[R.below(tris.size())]; L a = R.u(.05, 1), b = R.u(.05, 1), c = R.u(.05, 1), s = a + b + c; V goal = (a / s) * g.a + (b / s) * g.b + (c / s) * g.c, n = un(cross(g.b - g.a, g.c - g.a)), dir = un((R.chance(.5) ? 1.L : -1.L) * n + .6L * un(rv(1))), o = goal - (ext * (L)R.lu(.01, 3)) * dir; Ray<T> ray(ff(o), ff(un(goal - fv(ff(o))))); o = fv(ray.origin()); V dr_ = fv(ray.direction());
        vh::cur("%s (%s): ray at triangle of mesh %d primitive %d copy %d, determinant %Lg", d.file.c_str(), when, g.mesh, g.prim, g.copy, det(g.A)); HitRecord h = view.intersect(ray, 0.f, 1u); vh::ev();
        // nearest crossing and everything that could compete with it
        L err = 3e-6L * (len(mid) + 2 * ext) ; const Tri* best = nullptr; L bt = 1e300L, bu = 0, bv = 0; bool clear = true, any = false; std::vector<L> ts;
        for (auto& t : tris) { V e1 = t.b - t.a, e2 = t.c - t.a, nn = cross(e1, e2); L A2 = len(nn), dn = dot(dr_, nn), cs = std::abs(dn) / A2; L lng = std::max({len(e1), len(e2), len(t.c - t.b)}), alt = A2 / lng; if (cs < .05L) { V q = t.a; L dd = len(cross(q - o, dr_)); if (dd < 3 * lng) clear = false; continue; } L tt = dot(t.a - o, nn) / dn; V q = o + tt * dr_; L u = dot(nn, cross(q - t.a, e2)) / (A2 * A2), v = dot(nn, cross(e1, q - t.a)) / (A2 * A2), m = err / alt / cs * 4; if (u < -m || v < -m || u + v > 1 + m || tt < -err * 20) continue; if (u < m || v < m || u + v > 1 - m || tt < err * 20) { clear = false; continue; } any = true; ts.push_back(tt); if (tt < bt) { bt = tt; best = &t; bu = u; bv = v; } }
        if (!clear || !any) { vh::count("ambiguous rays"); continue; } for (L t : ts) if (t != bt && t - bt < err * 60) best = nullptr; if (!best) { vh::count("ambiguous rays"); continue; }
        VH_CHECK(h.hit(), "missing-triangle", "no hit where the file has a triangle at %.7Lg", bt); if (!h.hit()) continue; VH_CHECK(std::abs(h.t - bt) < err * 40, "placement", "hit at %.7g, the file has a triangle at %.7Lg (model size %Lg)", (double)h.t, bt, ext); if (!(std::abs(h.t - bt) < err * 40)) continue;
        auto x = view.resolve_hit(ray, h); auto& P = d.mesh[(size_t)best->mesh].prims[(size_t)best->prim]; L w[3] = {1 - bu - bv, bu, bv}; V gn = un(cross(best->b - best->a, best->c - best->a)); if (dot(gn, dr_) > 0) gn = -1.L * gn; V e1 = best->b - best->a, e2 = best->c - best->a; L alt = len(cross(e1, e2)) / std::max({len(e1), len(e2), len(e2 - e1)}), be = err / alt * 40 + 1e-5L;
        VH_CHECK(len(fv(x.normal_g) - gn) < 10 * be, "face-normal", "off by %Lg", len(fv(x.normal_g) - gn));
        M it = tr(inverse(best->A)); V sn{}; if (P.nrm.empty()) sn = gn; else { for (size_t k = 0; k < 3; ++k) sn = sn + w[k] * fv(P.nrm[best->i[k]]); sn = un(app(it, sn)); } if (dot(sn, gn) < 0) sn = -1.L * sn; if (dot(sn, gn) > .02L) VH_CHECK(len(fv(x.normal_s) - sn) < 40 * be + 2e-4L, "shading-normal", "off by %Lg rad (%s)", len(fv(x.normal_s) - sn), P.nrm.empty() ? "generated" : "from the file");
        if (!P.uv.empty()) { for (int k = 0; k < 2; ++k) { L e = 0; for (size_t q = 0; q < 3; ++q) { auto uv = P.uv[best->i[q]]; e += w[q] * (k && d.obj ? 1 - (L)uv[1] : (L)uv[k]); } VH_CHECK(std::abs(e - x.uv[k]) < 8 * be + 1e-4L, "texture-coordinates", "%c is %g, the file says %Lg", k ? 'v' : 'u', (double)x.uv[k], e); } }
        else VH_CHECK(x.uv.x == 0 && x.uv.y == 0, "texture-coordinates", "coordinates (%g,%g) out of nowhere", (double)x.uv.x, (double)x.uv.y);
        T col{0.f}; for (size_t q = 0; q < 3; ++q) col += (P.col.empty() ? T{1.f} : convert_rgb_to_spectral<T>(RGB{P.col[best->i[q]][0], P.col[best->i[q]][1], P.col[best->i[q]][2]})) * (float)w[q]; for (size_t k = 0; k < T::size(); ++k) VH_CHECK(std::abs(col[k] - x.vertex_albedo[k]) < 8 * be + 1e-4L, "vertex-colour", "band %zu is %g, the file says %g", k, (double)x.vertex_albedo[k], (double)col[k]);
        if (!P.uv.empty()) // tangent along growing u, bitangent towards the top of the image
        {
            auto gr = [&](int c) { L d1 = P.uv[best->i[1]][c] - P.uv[best->i[0]][c], d2 = P.uv[best->i[2]][c] - P.uv[best->i[0]][c]; (void)d2; return std::pair<L, L>{d1, d2}; }; auto U = gr(0), W = gr(1); L D = U.first * W.second - U.second * W.first; V p0 = fv(P.pos[best->i[0]]), f1 = fv(P.pos[best->i[1]]) - p0, f2 = fv(P.pos[best->i[2]]) - p0; V du = (1 / D) * (W.second * f1 - W.first * f2); if (d.obj) { }
            V loc{}; for (size_t k = 0; k < 3; ++k) { V nk = P.nrm.empty() ? un(cross(f1, f2)) : fv(P.nrm[best->i[k]]); V t = du - dot(du, nk) * nk; loc = loc + w[k] * un(t); } V tw = un(app(best->A, loc)); V tg = fv(x.tangent); VH_CHECK(len(tg) > .5L, "tangent", "a textured mesh has no tangent"); if (std::abs(dot(tw, sn)) < .9L) VH_CHECK(dot(un(tg), tw) > .98L, "tangent", "tangent is %Lg rad from the direction of increasing u", std::acos(std::min(1.L, dot(un(tg), tw))));
        }
        vh::count(det(best->A) < 0 ? "mirrored hits" : "hits"); vh::distinct(vh::hash(ray.origin().x, h.t));
    }
}
template <class T> static void load_case(int id)
{
    Doc d = rdoc(id); std::string dir = vh::scratch(vh::fmt("m%d", id).c_str()); fs::create_directories(dir); int kind = R.i(0, 2); for (auto& t : d.tex) if (t.store == 0 && R.chance(.08)) t.lost = true; if (d.obj) write_obj(d, dir); else write_gltf(d, dir, kind); vh::cur("loading %s", d.file.c_str()); vh::count(d.obj ? "OBJ files" : kind == 0 ? "glTF files" : kind == 1 ? "glTF files with data URIs" : "binary glTF files");
    auto sc = std::make_unique<Scene<T>>(); static Scene<T>& cams = *new Scene<T>; static auto cm = cams.new_camera_model("cam"); auto ci = sc->root.new_instance(cm); bool named = R.chance(.3); int copies = R.chance(.3) ? 2 : 1; std::vector<ModelHandle<T>> h; std::string why; bool threw = false;
    for (int c = 0; c < copies && !threw; ++c) try { h.push_back(sc->load_model(d.file, named ? "thing" : "")); } catch (const std::exception& e) { threw = true; why = e.what(); } VH_CHECK(!threw, "refused", "a sound model is refused: %.150s", why.c_str()); if (threw) { fs::remove_all(dir); return; }
    VH_CHECK(h[0].get()->name() == (named ? "thing" : "model") && h[0].get()->source_path() == fs::path(d.file), "model-name", "the model is called %s from %s", h[0].get()->name().c_str(), h[0].get()->source_path().string().c_str()); if (copies == 2) { VH_CHECK(h[0].get() != h[1].get() && h[0].get()->name() != h[1].get()->name() && h[0].get()->id() != h[1].get()->id(), "copies", "two loads share the model %s", h[0].get()->name().c_str()); VH_CHECK(sc->get_model(h[1].get()->name()).get() == h[1].get() && sc->get_model(h[0].get()->name()).get() == h[0].get(), "copies", "a model is not found by its name"); }
    // materials
    for (auto& m : d.mesh) { bool used = d.obj; for (auto& n : d.node) used |= n.mesh >= 0 && d.mesh[(size_t)n.mesh].name == m.name; if (!used) continue; for (auto& p : m.prims) if (!p.lines) { std::shared_ptr<Primitive<T>> pr; bool none = vh::throws([&] { pr = sc->get_primitive(p.name).get(); }); VH_CHECK(!none && pr, "primitive-name", "no primitive called %s", p.name.c_str()); if (none || !pr) continue; if (!d.obj) { material<T>(d, p.mat >= 0 ? d.mat[(size_t)p.mat] : GMat{}, p, pr->material); if (p.mat >= 0 && copies == 2) { VH_CHECK(!vh::throws([&] { (void)h[0].get()->get_material_by_id(pr->material->id()); }) && vh::throws([&] { (void)h[1].get()->get_material_by_id(pr->material->id()); }), "copies", "the second load shares the material of the first"); } } } }
    // geometry
    L size = 0; for (auto& m : d.mesh) for (auto& p : m.prims) for (auto& q : p.pos) size = std::max(size, len(fv(q))); std::vector<Tri> tris; std::vector<InstanceHandle<T>> inst; for (int c = 0; c < copies; ++c) { inst.push_back(sc->root.new_instance(h[(size_t)c])); Place q = place<T>(inst.back(), size * 3, false); collect(d, -1, q.A, q.p, c, tris); } if (copies == 1 && R.chance(.3)) { inst.push_back(sc->root.new_instance(h[0])); Place q = place<T>(inst.back(), size * 3, false); collect(d, -1, q.A, q.p, 1, tris); }
    Interval iv(Time::from_et(0), Time::from_et(1)); { SceneView<T> view(*sc, iv, ci, ObservationMode::TRUE_STATE, 1); rays<T>(d, view, tris, 40, "loaded"); }
    // what the handle says about the model
    if constexpr (requires(Model<T> mo, Material<T> ma) { mo.root_node_; ma.bsdf_; }) {
        std::vector<std::vector<std::shared_ptr<Material<T>>>> mats(h.size()); std::vector<size_t> nodes(h.size(), 0); std::set<Geometry<T>*> seen;
        for (size_t c = 0; c < h.size(); ++c) { std::function<void(const Node<T>*)> walk = [&](const Node<T>* n) { ++nodes[c]; if (auto i = dynamic_cast<const Instance<T>*>(n)) if (auto p = std::get_if<Primitive<T>*>(&i->asset())) { if ((*p)->material) mats[c].push_back((*p)->material); if (auto* m = dynamic_cast<Mesh<T>*>((*p)->geometry.get())) { seen.insert(m); auto& ib = m->index_buffer(); auto& vb = m->vertex_buffer(); bool in = true; for (auto k : ib) in &= k < vb.size(); VH_CHECK(in && m->index_count() == ib.size() && m->vertex_count() == vb.size() && m->triangle_count() * 3 == ib.size(), "mesh-counts", "a mesh of %zu vertices and %zu indices says %zu, %zu and %zu triangles", vb.size(), ib.size(), m->vertex_count(), m->index_count(), m->triangle_count()); } } for (auto& k : n->get_children()) walk(k.get()); }; walk(h[c].get()->root_node_.get());
            for (auto& m : mats[c]) VH_CHECK(!vh::throws([&] { VH_CHECK(h[c].get_material_by_id(m->id()).get() == m, "material-by-id", "another material is found by the identity of a material"); }), "material-by-id", "a material of the model is not found by its identity"); VH_CHECK(vh::throws([&] { (void)h[c].get_material_by_id(0xFFFFFFFFFFull); }), "material-by-id", "a material is found by an identity that none has");
            std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); h[c].print_graph(); std::cout.rdbuf(old); std::string t = o.str(); size_t k = 0; for (size_t q = t.find("-- "); q != std::string::npos; q = t.find("-- ", q + 1)) ++k; VH_CHECK(k >= nodes[c] && t.find(d.file) != std::string::npos, "print-graph", "the printed graph has %zu lines, the model %zu nodes", k, nodes[c]); }
        if (R.chance(.5)) { auto lam = sc->new_bsdf_lambertian(); std::vector<std::shared_ptr<BSDF<T>>> other; if (h.size() > 1) for (auto& m : mats[1]) other.push_back(m->bsdf_); h[0].set_all_bsdfs(lam); for (auto& m : mats[0]) VH_CHECK(m->bsdf_ == lam.get(), "all-bsdfs", "a material of the model did not get the reflectance model"); if (h.size() > 1) for (size_t i = 0; i < mats[1].size(); ++i) VH_CHECK(mats[1][i]->bsdf_ == other[i], "all-bsdfs", "a material of the other model got the reflectance model"); }
    }
    if (copies == 2) { sc->delete_model(h[0]); std::vector<Tri> left; for (auto& t : tris) if (t.copy == 1) left.push_back(t); SceneView<T> view(*sc, iv, ci, ObservationMode::TRUE_STATE, 1); rays<T>(d, view, left, 15, "other copy deleted"); vh::count("deleted copies"); }
    if (id < 3) vh::sample(vh::fmt("%s: %zu meshes %zu nodes %zu materials %zu images", d.file.substr(d.file.size() - 10).c_str(), d.mesh.size(), d.node.size(), d.mat.size(), d.tex.size())); fs::remove_all(dir);
}
// missing, malformed and cut files
template <class T> static void faults(int id)
{
    Doc d = rdoc(id); std::string dir = vh::scratch(vh::fmt("f%d", id).c_str()); fs::create_directories(dir); int kind = R.i(0, 2); for (auto& t : d.tex) if (R.chance(.7)) { auto& b = t.t.file; switch (R.i(0, 4)) { case 0: b.resize(R.below(b.size())); break; case 1: for (int k = 0; k < 4; ++k) b[R.below(b.size())] ^= (unsigned char)(1 + R.below(255)); break; case 2: b.clear(); break; case 3: b.assign(b.size(), 0); break; default: b.resize(b.size() - R.below(b.size() / 2 + 1)); } if (b.empty() && t.store) b.push_back(0); } if (d.obj) write_obj(d, dir); else write_gltf(d, dir, kind);
    auto sc = std::make_unique<Scene<T>>(); bool loaded = true; std::string what = "damaged textures"; vh::cur("%s with damaged textures", d.file.c_str()); ModelHandle<T>* keep = nullptr; std::optional<ModelHandle<T>> h; try { h = sc->load_model(d.file, "m"); } catch (const std::exception& e) { loaded = false; what = e.what(); } (void)keep; vh::ev(); VH_CHECK(loaded, "texture-fault", "a damaged texture prevents loading: %.120s", what.c_str());
    if (loaded) { for (auto& m : d.mesh) for (auto& p : m.prims) { std::shared_ptr<Primitive<T>> pr; if (vh::throws([&] { pr = sc->get_primitive(p.name).get(); }) || !pr) continue; Interaction<T> is{}; is.normal_g = is.normal_s = {0, 0, 1}; is.tangent = {1, 0, 0}; is.bitangent = {0, 1, 0}; is.vertex_albedo = T{1.f}; for (int k = 0; k < 4; ++k) { is.uv = {(float)R.u(-2, 3), (float)R.u(-2, 3)}; (void)pr->material->evaluate(is); } } vh::count("models with damaged textures"); }
    std::ifstream f(d.file, std::ios::binary); std::string all((std::istreambuf_iterator<char>(f)), {}); f.close();
    for (int k = 0; k < 3; ++k)
    {
        std::string b = all; bool must = !d.obj; const char* how = "cut"; int w = d.obj ? R.i(2, 3) : R.i(0, 3);
        switch (w) { case 0: b.resize(kind == 2 ? R.below(b.size() * 9 / 10) : R.below(b.size() - 2)); break; case 1: b.resize(R.below(20)); how = "cut to almost nothing"; break; case 2: b.clear(); how = "empty"; must = true; break; default: b = std::string(R.below(300) + 1, (char)R.below(256)); how = "filled with one character"; }
        std::string p = dir + "/bad" + fs::path(d.file).extension().string(); put(p, b.data(), b.size()); vh::cur("%s %s (%zu bytes of %zu)", p.c_str(), how, b.size(), all.size()); bool t = vh::throws([&] { sc->load_model(p, vh::fmt("bad%d", k)); }); vh::ev(); vh::count("malformed files"); VH_CHECK(t || !must, "accepts-bad", "a file %s was loaded", how); if (t) { bool left = !vh::throws([&] { auto g = sc->get_model(vh::fmt("bad%d", k)); if (!g.get()) throw std::runtime_error("none"); }); VH_CHECK(!left, "leftover", "a model that failed to load is listed"); }
    }
    if (!d.obj && kind == 0) { std::string bp = dir + "/model.bin"; auto n = fs::file_size(bp); if (R.chance(.5)) fs::resize_file(bp, R.below(n / 2)); else fs::remove(bp); vh::cur("%s without its buffer", d.file.c_str()); bool t = vh::throws([&] { sc->load_model(d.file, "bad"); }); VH_CHECK(t, "accepts-bad", "a model without its buffer was loaded"); vh::ev(); }
    VH_CHECK(vh::throws([&] { sc->load_model(dir + "/none.glb"); }) && vh::throws([&] { sc->load_model(dir); }), "accepts-bad", "a missing file or a folder was loaded"); fs::remove_all(dir);
}
static void body() { still_frames(); R = vh::Rng(vh::seed() * 41 + 33); for (int i = 0, N = vh::n(900, 20000); i < N; ++i) { vh::watchdog(60); if (i % 5 == 4) load_case<Visible8>(i); else load_case<RGB>(i); if (i % 3 == 0) faults<RGB>(i); } }
VH_MAIN(body())
