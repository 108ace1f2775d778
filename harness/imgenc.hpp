// Independent encoders for the image formats, with the pixels every conforming reader must return.
#pragma once
#include "vh.hpp"
#include <csetjmp>
#include <fitsio.h>
#include <png.h>
#include <tiffio.h>
#include <turbojpeg.h>
#include <zlib.h>
namespace enc {
using Bytes = std::vector<unsigned char>;
enum Fmt { BMP, TGA, HDR, PNG, JPEG, TIFF_, FITS, NFMT };
static const char* const EXT[] = {"bmp", "tga", "hdr", "png", "jpg", "tif", "fits"};
struct Px { double r = 0, g = 0, b = 0, a = 1; };
enum Space { LIN, SRGB, GAMMA, UNK, ANY };
struct Truth {
    Fmt fmt = BMP;
    Bytes file;
    int w = 0, h = 0;
    std::vector<Px> px; // top row first
    bool alpha = false, gray = false;
    double tol = 1e-6;
    Space space = SRGB;
    double gamma = 1;
    int sensor_bits = 0;
    std::string variant;
    Px& at(int x, int y) { return px[(size_t)y * w + x]; }
};
inline void p16(Bytes& b, unsigned v) { b.push_back(v & 255); b.push_back((v >> 8) & 255); }
inline void p32(Bytes& b, unsigned v) { p16(b, v & 65535); p16(b, v >> 16); }
inline unsigned lvl(vh::Rng& R, unsigned max) { switch (R.below(5)) { case 0: return 0; case 1: return max; default: return (unsigned)R.below((uint64_t)max + 1); } }
inline double long_share = 0; // of images far longer than a buffer or a counter of 15 bits
inline void dims(vh::Rng& R, int& w, int& h, int cap = 40)
{
    w = R.i(1, cap); h = R.i(1, cap);
    if (R.chance(.15)) w = R.i(1, 4); if (R.chance(.15)) h = R.i(1, 4); if (R.chance(.05)) w = R.i(130, 300);
    if (long_share > 0 && R.chance(long_share)) { w = R.pick(std::vector<int>{1023, 1024, 1025, 4095, 4097, 8191, 8193, 16385, 32767, 32768, 32769, 40000, 65500}); h = R.i(1, 3); if (R.chance(.4)) std::swap(w, h); vh::count("long images"); }
}
// a 'runny' content so that run-length packets appear
struct Content {
    vh::Rng& R; unsigned max; bool runs; unsigned last = 0;
    Content(vh::Rng& r, unsigned m) : R(r), max(m), runs(r.chance(.5)) {}
    unsigned operator()() { if (!runs || R.chance(.25)) last = lvl(R, max); return last; }
};
inline Truth bmp(vh::Rng& R)
{
    Truth t; t.fmt = BMP; dims(R, t.w, t.h); bool td = R.chance(.4); int bpp = R.chance(.5) ? 24 : 32;
    unsigned dib = R.pick(std::vector<unsigned>{40, 40, 52, 56, 108, 124}); bool bf = bpp == 32 && (dib >= 52 || R.chance(.4)) && R.chance(.6);
    // byte position of R,G,B,A within the pixel
    int pos[4] = {2, 1, 0, 3}; bool amask = bf && dib >= 56 && R.chance(.7);
    if (bf && R.chance(.6)) { for (int i = 3; i > 0; --i) std::swap(pos[i], pos[R.below(i + 1)]); }
    t.alpha = bf ? amask : bpp == 32;
    Bytes b; b.push_back('B'); b.push_back('M'); unsigned gap = R.chance(.3) ? (unsigned)R.i(1, 40) : 0;
    size_t stride = ((size_t)t.w * bpp / 8 + 3) & ~size_t(3); unsigned off = 14 + dib + (bf && dib == 40 ? 12 : 0) + gap;
    if (off < 70 && false) off = 70;
    p32(b, off + (unsigned)(stride * t.h)); p32(b, 0); p32(b, off); p32(b, dib); p32(b, t.w); p32(b, td ? (unsigned)-t.h : t.h); p16(b, 1); p16(b, bpp); p32(b, bf ? 3 : 0); p32(b, (unsigned)(stride * t.h)); p32(b, 2835); p32(b, 2835); p32(b, 0); p32(b, 0);
    unsigned m[4]; for (int c = 0; c < 4; ++c) m[c] = bf ? 255u << (8 * pos[c]) : 0; if (!amask) m[3] = 0;
    if (bf || dib >= 52) { p32(b, m[0]); p32(b, m[1]); p32(b, m[2]); }
    if (dib >= 56) p32(b, m[3]);
    while (b.size() < off) b.push_back((unsigned char)R.below(256));
    t.px.resize((size_t)t.w * t.h); Content C(R, 255);
    for (int row = 0; row < t.h; ++row) {
        int y = td ? row : t.h - 1 - row; size_t s = b.size();
        for (int x = 0; x < t.w; ++x) {
            unsigned v[4] = {C(), C(), C(), C()}; t.at(x, y) = {v[0] / 255., v[1] / 255., v[2] / 255., t.alpha ? v[3] / 255. : 1};
            if (bpp == 24) { b.push_back(v[2]); b.push_back(v[1]); b.push_back(v[0]); }
            else { unsigned char q[4]; for (int c = 0; c < 4; ++c) q[pos[c]] = v[c]; b.insert(b.end(), q, q + 4); }
        }
        while (b.size() < s + stride) b.push_back(0);
    }
    if (R.chance(.2)) for (int i = R.i(1, 30); i--;) b.push_back(0);
    char s[100]; snprintf(s, 100, "bmp%d%s%s dib%u%s", bpp, td ? " top-down" : "", bf ? " bitfields" : "", dib, amask ? " amask" : ""); t.variant = s; t.file = b; return t;
}
inline Truth tga(vh::Rng& R)
{
    Truth t; t.fmt = TGA; dims(R, t.w, t.h); int kind = (int)R.below(3); bool rle = R.chance(.6), top = R.chance(.5), rtl = R.chance(.25);
    int depth = kind == 0 ? (R.chance(.5) ? 8 : 16) : kind == 1 ? (R.chance(.5) ? 24 : 32) : 8; int esz = R.chance(.5) ? 24 : 32;
    int first = kind == 0 && R.chance(.4) ? R.i(0, 100) : 0, len = kind == 0 ? R.i(1, depth == 8 ? 256 - first : 600) : 0; bool stray = kind != 0 && R.chance(.2);
    if (stray) len = R.i(1, 20);
    Bytes b; int id = R.chance(.4) ? R.i(1, 255) : 0; b.push_back(id); b.push_back(kind == 0 || stray); b.push_back((kind == 0 ? 1 : kind == 1 ? 2 : 3) + (rle ? 8 : 0));
    p16(b, first); p16(b, len); b.push_back(kind == 0 || stray ? esz : 0); p16(b, (unsigned)R.below(50)); p16(b, (unsigned)R.below(50)); p16(b, t.w); p16(b, t.h); b.push_back(depth); b.push_back((top ? 0x20 : 0) | (rtl ? 0x10 : 0) | (depth == 32 ? 8 : 0));
    for (int i = 0; i < id; ++i) b.push_back((unsigned char)R.below(256));
    std::vector<std::array<unsigned, 4>> pal;
    for (int i = 0; i < len; ++i) { std::array<unsigned, 4> e{lvl(R, 255), lvl(R, 255), lvl(R, 255), lvl(R, 255)}; pal.push_back(e); b.push_back(e[2]); b.push_back(e[1]); b.push_back(e[0]); if (esz == 32) b.push_back(e[3]); }
    t.alpha = kind == 0 ? esz == 32 : depth == 32; t.gray = kind == 2; t.px.resize((size_t)t.w * t.h);
    int B = depth / 8; std::vector<Bytes> raw; Content C(R, kind == 0 ? len - 1 : 255); bool runny = R.chance(.6); Bytes last; Px lp;
    for (int row = 0; row < t.h; ++row) for (int col = 0; col < t.w; ++col) {
        int y = top ? row : t.h - 1 - row, x = rtl ? t.w - 1 - col : col;
        if (last.empty() || !runny || R.chance(.2)) {
            last.clear();
            if (kind == 0) { unsigned i = C(); auto& e = pal[i]; lp = {e[0] / 255., e[1] / 255., e[2] / 255., esz == 32 ? e[3] / 255. : 1}; last.push_back((i + first) & 255); if (B == 2) last.push_back((i + first) >> 8); }
            else if (kind == 2) { unsigned v = C(); lp = {v / 255., v / 255., v / 255., 1}; last.push_back(v); }
            else { unsigned v[4] = {C(), C(), C(), C()}; lp = {v[0] / 255., v[1] / 255., v[2] / 255., depth == 32 ? v[3] / 255. : 1}; last = {(unsigned char)v[2], (unsigned char)v[1], (unsigned char)v[0]}; if (B == 4) last.push_back(v[3]); }
        }
        raw.push_back(last); t.at(x, y) = lp;
    }
    if (!rle) for (auto& q : raw) b.insert(b.end(), q.begin(), q.end());
    else for (size_t i = 0; i < raw.size();) {
        size_t room = raw.size() - i, run = 1; while (run < room && run < 128 && raw[i + run] == raw[i]) ++run;
        if (run > 1 || R.chance(.2)) { b.push_back(0x80 | (run - 1)); b.insert(b.end(), raw[i].begin(), raw[i].end()); i += run; }
        else { size_t n = 1 + R.below(std::min<size_t>(room, 128)); b.push_back(n - 1); for (size_t k = 0; k < n; ++k) b.insert(b.end(), raw[i + k].begin(), raw[i + k].end()); i += n; }
    }
    if (R.chance(.3)) { for (int i = 0; i < 8; ++i) b.push_back(0); for (char c : std::string("TRUEVISION-XFILE.")) b.push_back(c); b.push_back(0); }
    char s[100]; snprintf(s, 100, "tga type%d depth%d%s%s%s pal%d/%d+%d", b[2], depth, top ? " top" : "", rtl ? " right" : "", id ? " id" : "", esz, len, first); t.variant = s; t.file = b; return t;
}
inline Truth hdr(vh::Rng& R)
{
    Truth t; t.fmt = HDR; t.space = LIN; dims(R, t.w, t.h); if (R.chance(.5) && t.w < 400 && t.h < 400) t.w = R.i(8, 200);
    bool py = R.chance(.3), mx = R.chance(.3); std::string nl = R.chance(.2) ? "\r\n" : "\n"; std::string s = R.chance(.5) ? "#?RADIANCE" : "#?RGBE"; s += nl;
    if (R.chance(.5)) s += "# made by the monitor" + nl; if (R.chance(.9)) s += "FORMAT=32-bit_rle_rgbe" + nl; if (R.chance(.5)) s += "SOFTWARE=x" + nl;
    s += nl; s += std::string(py ? "+Y " : "-Y ") + std::to_string(t.h) + (mx ? " -X " : " +X ") + std::to_string(t.w) + nl; Bytes b(s.begin(), s.end());
    t.px.resize((size_t)t.w * t.h); bool rle = t.w >= 8 && t.w < 32768 && R.chance(.7); bool runny = R.chance(.6); bool bad = true; std::vector<std::array<unsigned char, 4>> line(t.w);
    (void)bad;
    for (int row = 0; row < t.h; ++row) {
        int y = py ? t.h - 1 - row : row; std::array<unsigned char, 4> q{};
        for (int col = 0; col < t.w; ++col) {
            if (col == 0 || !runny || R.chance(.2)) { q = {(unsigned char)lvl(R, 255), (unsigned char)lvl(R, 255), (unsigned char)lvl(R, 255), (unsigned char)(R.chance(.1) ? R.below(253) : R.i(118, 140))}; if (R.chance(.05)) q[3] = 0; }
            // flat scanlines must not look like run-length markers
            if (!rle && q[0] == 2 && q[1] == 2) q[0] = 3; if (!rle && q[0] == 1 && q[1] == 1 && q[2] == 1) q[0] = 3;
            line[col] = q; double m = q[3] ? std::ldexp(1.0, (int)q[3] - 136) : 0; t.at(mx ? t.w - 1 - col : col, y) = {q[0] * m, q[1] * m, q[2] * m, 1};
        }
        if (!rle) for (auto& v : line) b.insert(b.end(), v.begin(), v.end());
        else {
            b.push_back(2); b.push_back(2); b.push_back(t.w >> 8); b.push_back(t.w & 255);
            for (int c = 0; c < 4; ++c) for (int i = 0; i < t.w;) {
                int run = 1; while (i + run < t.w && run < 127 && line[i + run][c] == line[i][c]) ++run;
                if (run > 2 || R.chance(.1)) { b.push_back(128 + run); b.push_back(line[i][c]); i += run; }
                else { int n = 1 + (int)R.below(std::min(t.w - i, 128)); b.push_back(n); for (int k = 0; k < n; ++k) b.push_back(line[i + k][c]); i += n; }
            }
        }
    }
    t.tol = -1e-6; // relative
    t.variant = std::string("hdr ") + (rle ? "rle" : "flat") + (py ? " +Y" : " -Y") + (mx ? " -X" : " +X") + (nl.size() > 1 ? " crlf" : ""); t.file = b; return t;
}
inline void pngw(png_structp p, png_bytep d, png_size_t n) { auto* b = (Bytes*)png_get_io_ptr(p); b->insert(b->end(), d, d + n); }
inline void pngf(png_structp) {}
inline Truth png(vh::Rng& R)
{
    Truth t; t.fmt = PNG; dims(R, t.w, t.h, 30); static const int TYPES[] = {PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB_ALPHA};
    int ct = TYPES[R.below(5)], bd; if (ct == PNG_COLOR_TYPE_GRAY) bd = R.pick(std::vector<int>{1, 2, 4, 8, 16}); else if (ct == PNG_COLOR_TYPE_PALETTE) bd = R.pick(std::vector<int>{1, 2, 4, 8}); else bd = R.chance(.5) ? 8 : 16;
    bool inter = R.chance(.3), trns = R.chance(.35) && !(ct & PNG_COLOR_MASK_ALPHA);
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop in = png_create_info_struct(p); Bytes b; png_set_write_fn(p, &b, pngw, pngf);
    png_set_IHDR(p, in, t.w, t.h, bd, ct, inter ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, 0, 0);
    unsigned max = (1u << bd) - 1; std::vector<png_color> pal; std::vector<png_byte> pa; png_color_16 tr{};
    if (ct == PNG_COLOR_TYPE_PALETTE) { int n = R.i(1, 1 << bd); for (int i = 0; i < n; ++i) pal.push_back({(png_byte)lvl(R, 255), (png_byte)lvl(R, 255), (png_byte)lvl(R, 255)}); png_set_PLTE(p, in, pal.data(), n); if (trns) { int k = R.i(1, n); for (int i = 0; i < k; ++i) pa.push_back((png_byte)lvl(R, 255)); png_set_tRNS(p, in, pa.data(), k, 0); } max = n - 1; }
    else if (trns) { tr.gray = (png_uint_16)R.below(max + 1); tr.red = (png_uint_16)lvl(R, max); tr.green = (png_uint_16)lvl(R, max); tr.blue = (png_uint_16)lvl(R, max); png_set_tRNS(p, in, 0, 0, &tr); }
    int cs = (int)R.below(5); t.space = SRGB;
    if (cs == 1) png_set_sRGB(p, in, 0); else if (cs == 2) { png_set_gAMA(p, in, 1.0); t.space = LIN; } else if (cs == 3) { double g = R.pick(std::vector<double>{.25, .35, .6, .8, .55}); png_set_gAMA(p, in, g); t.space = GAMMA; t.gamma = 1 / g; } else if (cs == 4) png_set_gAMA(p, in, .45455);
    if (R.chance(.2)) { png_text tx{}; tx.compression = PNG_TEXT_COMPRESSION_NONE; tx.key = (char*)"Comment"; tx.text = (char*)"x"; png_set_text(p, in, &tx, 1); }
    png_set_filter(p, 0, R.chance(.5) ? PNG_ALL_FILTERS : PNG_FILTER_NONE);
    int ch = ct == PNG_COLOR_TYPE_GRAY || ct == PNG_COLOR_TYPE_PALETTE ? 1 : ct == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : ct == PNG_COLOR_TYPE_RGB ? 3 : 4; size_t rb = ((size_t)t.w * ch * bd + 7) / 8;
    std::vector<Bytes> rows(t.h, Bytes(rb, 0)); t.px.resize((size_t)t.w * t.h); Content C(R, max); double M = (double)((1u << bd) - 1);
    for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) {
        unsigned v[4]; for (int c = 0; c < ch; ++c) v[c] = C();
        if (trns && ct == PNG_COLOR_TYPE_GRAY && R.chance(.3)) v[0] = tr.gray; if (trns && ct == PNG_COLOR_TYPE_RGB && R.chance(.4)) { v[0] = tr.red; v[1] = tr.green; if (R.chance(.7)) v[2] = tr.blue; }
        for (int c = 0; c < ch; ++c) { size_t i = (size_t)x * ch + c; if (bd == 8) rows[y][i] = v[c]; else if (bd == 16) { rows[y][2 * i] = v[c] >> 8; rows[y][2 * i + 1] = v[c] & 255; } else rows[y][i * bd / 8] |= v[c] << (8 - bd - (i * bd) % 8); }
        Px q; if (ct == PNG_COLOR_TYPE_PALETTE) { q = {pal[v[0]].red / 255., pal[v[0]].green / 255., pal[v[0]].blue / 255., v[0] < pa.size() ? pa[v[0]] / 255. : 1}; }
        else if (ch <= 2) { q = {v[0] / M, v[0] / M, v[0] / M, ch == 2 ? v[1] / M : trns && v[0] == tr.gray ? 0. : 1.}; }
        else q = {v[0] / M, v[1] / M, v[2] / M, ch == 4 ? v[3] / M : trns && v[0] == tr.red && v[1] == tr.green && v[2] == tr.blue ? 0. : 1.};
        t.at(x, y) = q;
    }
    t.alpha = trns || (ct & PNG_COLOR_MASK_ALPHA); t.gray = ch <= 2 && ct != PNG_COLOR_TYPE_PALETTE;
    std::vector<png_bytep> rp; for (auto& r : rows) rp.push_back(r.data()); png_set_rows(p, in, rp.data()); png_write_png(p, in, PNG_TRANSFORM_IDENTITY, 0); png_destroy_write_struct(&p, &in);
    char s[100]; snprintf(s, 100, "png type%d bits%d%s%s space%d", ct, bd, inter ? " interlaced" : "", trns ? " tRNS" : "", cs); t.variant = s; t.file = b; return t;
}
inline Truth jpeg(vh::Rng& R)
{
    Truth t; t.fmt = JPEG; dims(R, t.w, t.h, 48); bool gray = R.chance(.3); int sub = gray ? TJSAMP_GRAY : R.pick(std::vector<int>{TJSAMP_444, TJSAMP_422, TJSAMP_420, TJSAMP_440}); int q = R.i(85, 100); bool prog = R.chance(.3);
    Bytes rgb((size_t)t.w * t.h * 3); double f[3][3]; for (auto& r : f) for (auto& v : r) v = R.u(-4, 4);
    double base[3] = {R.u(60, 200), R.u(60, 200), R.u(60, 200)};
    for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) for (int c = 0; c < 3; ++c) rgb[((size_t)y * t.w + x) * 3 + c] = (unsigned char)std::clamp(base[c] + f[c][0] * x * .5 + f[c][1] * y * .5, 0., 255.);
    if (gray) for (size_t i = 0; i < rgb.size(); i += 3) rgb[i + 1] = rgb[i + 2] = rgb[i];
    tjhandle h = tjInitCompress(); unsigned char* o = nullptr; unsigned long n = 0; tjCompress2(h, rgb.data(), t.w, 0, t.h, TJPF_RGB, &o, &n, sub, q, prog ? TJFLAG_PROGRESSIVE : 0); t.file.assign(o, o + n); tjFree(o); tjDestroy(h);
    t.px.resize((size_t)t.w * t.h); for (size_t i = 0; i < t.px.size(); ++i) t.px[i] = {rgb[3 * i] / 255., rgb[3 * i + 1] / 255., rgb[3 * i + 2] / 255., 1}; t.gray = gray; t.tol = .07;
    char s[100]; snprintf(s, 100, "jpeg sub%d q%d%s", sub, q, prog ? " progressive" : ""); t.variant = s; return t;
}
inline Truth tiff(vh::Rng& R, const std::string& path)
{
    TIFFSetWarningHandler(nullptr); Truth t; t.fmt = TIFF_; dims(R, t.w, t.h, 36); int kind = (int)R.below(4); // 0 minisblack 1 miniswhite 2 rgb 3 palette
    int bits = kind == 3 ? 8 : R.pick(std::vector<int>{8, 8, 16, 32, -32}); bool fl = bits < 0; bits = std::abs(bits); int alpha = kind == 3 ? 0 : (int)(R.chance(.35) ? R.i(1, 2) : 0);
    int col = kind == 2 ? 3 : 1, spp = col + (alpha ? 1 : 0); bool planar = spp > 1 && R.chance(.4), tiled = R.chance(.4); int ori = R.chance(.4) ? R.i(1, 8) : 1;
    int comp = R.pick(std::vector<int>{COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_ADOBE_DEFLATE}); if (kind == 3 && tiled && comp == COMPRESSION_NONE) comp = COMPRESSION_LZW; // libtiff 4.5's RGBA reader rejects uncompressed tiles that are not a multiple of 1 KiB
    const char* mode = R.pick(std::vector<const char*>{"w", "wl", "wb", "w8"}); TIFF* T = TIFFOpen(path.c_str(), mode);
    // visual t.w x t.h, stored W x H
    int W = ori >= 5 ? t.h : t.w, H = ori >= 5 ? t.w : t.h;
    TIFFSetField(T, TIFFTAG_IMAGEWIDTH, W); TIFFSetField(T, TIFFTAG_IMAGELENGTH, H); TIFFSetField(T, TIFFTAG_SAMPLESPERPIXEL, spp); TIFFSetField(T, TIFFTAG_BITSPERSAMPLE, bits); TIFFSetField(T, TIFFTAG_SAMPLEFORMAT, fl ? SAMPLEFORMAT_IEEEFP : SAMPLEFORMAT_UINT);
    TIFFSetField(T, TIFFTAG_PHOTOMETRIC, kind == 0 ? PHOTOMETRIC_MINISBLACK : kind == 1 ? PHOTOMETRIC_MINISWHITE : kind == 2 ? PHOTOMETRIC_RGB : PHOTOMETRIC_PALETTE); TIFFSetField(T, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG);
    if (ori != 1 || R.chance(.5)) TIFFSetField(T, TIFFTAG_ORIENTATION, ori); TIFFSetField(T, TIFFTAG_COMPRESSION, comp); if ((comp == COMPRESSION_LZW || comp == COMPRESSION_ADOBE_DEFLATE) && bits <= 16 && R.chance(.5)) TIFFSetField(T, TIFFTAG_PREDICTOR, PREDICTOR_HORIZONTAL);
    if (alpha) { uint16_t e = alpha == 1 ? EXTRASAMPLE_UNASSALPHA : EXTRASAMPLE_ASSOCALPHA; TIFFSetField(T, TIFFTAG_EXTRASAMPLES, 1, &e); }
    uint16_t cm[3][256]; if (kind == 3) { for (auto& r : cm) for (auto& v : r) v = (uint16_t)(lvl(R, 255) * 257); TIFFSetField(T, TIFFTAG_COLORMAP, cm[0], cm[1], cm[2]); }
    int tw = 16 * R.i(1, 2), th = 16 * R.i(1, 2); if (tiled) { TIFFSetField(T, TIFFTAG_TILEWIDTH, tw); TIFFSetField(T, TIFFTAG_TILELENGTH, th); } else TIFFSetField(T, TIFFTAG_ROWSPERSTRIP, R.i(1, H));
    t.px.resize((size_t)t.w * t.h); int B = bits / 8; std::vector<Bytes> st(spp, Bytes((size_t)W * H * B)); uint32_t max = bits == 8 ? 255 : bits == 16 ? 65535 : 0xffffffffu; Content C(R, max);
    for (int r = 0; r < H; ++r) for (int c = 0; c < W; ++c) {
        double v[4] = {0, 0, 0, 1};
        for (int k = 0; k < spp; ++k) { unsigned char* d = &st[k][((size_t)r * W + c) * B]; if (fl) { float f = (float)(R.chance(.8) ? R.u() : R.u(-3, 3)); memcpy(d, &f, 4); v[k] = f; } else { uint32_t n = C(); v[k] = (double)n / max; if (B == 1) d[0] = n; else if (B == 2) { uint16_t s = n; memcpy(d, &s, 2); } else memcpy(d, &n, 4); } }
        int x, y; switch (ori) { default: x = c; y = r; break; case 2: x = W - 1 - c; y = r; break; case 3: x = W - 1 - c; y = H - 1 - r; break; case 4: x = c; y = H - 1 - r; break; case 5: x = r; y = c; break; case 6: x = H - 1 - r; y = c; break; case 7: x = H - 1 - r; y = W - 1 - c; break; case 8: x = r; y = W - 1 - c; break; }
        Px q; if (kind == 3) { int i = st[0][(size_t)r * W + c]; q = {cm[0][i] / 65535., cm[1][i] / 65535., cm[2][i] / 65535., 1}; }
        else { double a = alpha ? v[spp - 1] : 1; if (col == 1) { double g = kind == 1 ? 1 - v[0] : v[0]; q = {g, g, g, a}; } else q = {v[0], v[1], v[2], a}; }
        t.at(x, y) = q;
    }
    auto sample = [&](int k, int r, int c) { return &st[k][((size_t)r * W + c) * B]; };
    if (tiled) { for (int pl = 0; pl < (planar ? spp : 1); ++pl) for (int ty = 0; ty < H; ty += th) for (int tx = 0; tx < W; tx += tw) { int n = planar ? 1 : spp; Bytes buf((size_t)tw * th * n * B, 0xAA); for (int r = 0; r < th && ty + r < H; ++r) for (int c = 0; c < tw && tx + c < W; ++c) for (int k = 0; k < n; ++k) memcpy(&buf[(((size_t)r * tw + c) * n + k) * B], sample(planar ? pl : k, ty + r, tx + c), B); TIFFWriteTile(T, buf.data(), tx, ty, 0, pl); } }
    else for (int pl = 0; pl < (planar ? spp : 1); ++pl) for (int r = 0; r < H; ++r) { int n = planar ? 1 : spp; Bytes buf((size_t)W * n * B); for (int c = 0; c < W; ++c) for (int k = 0; k < n; ++k) memcpy(&buf[((size_t)c * n + k) * B], sample(planar ? pl : k, r, c), B); TIFFWriteScanline(T, buf.data(), r, pl); }
    TIFFClose(T); std::ifstream f(path, std::ios::binary); t.file.assign(std::istreambuf_iterator<char>(f), {}); t.space = ANY; t.alpha = alpha || kind == 3; t.gray = kind < 2; t.tol = kind == 3 ? .003 : 2e-6;
    char s[160]; snprintf(s, 160, "tiff photo%d bits%d%s spp%d%s%s ori%d comp%d mode%s", kind, bits, fl ? "f" : "", spp, planar ? " planar" : "", tiled ? " tiled" : "", ori, comp, mode); t.variant = s; return t;
}
inline Truth fits(vh::Rng& R, const std::string& path)
{
    Truth t; t.fmt = FITS; t.space = ANY; t.gray = true; dims(R, t.w, t.h, 30); int type = R.pick(std::vector<int>{BYTE_IMG, SHORT_IMG, USHORT_IMG, LONG_IMG, ULONG_IMG, FLOAT_IMG, DOUBLE_IMG}); remove(path.c_str()); fitsfile* f = nullptr; int st = 0; fits_create_diskfile(&f, path.c_str(), &st);
    long ax[3] = {t.w, t.h, 1}; fits_create_img(f, type, R.chance(.2) ? 3 : 2, ax, &st);
    double div = type == BYTE_IMG ? 255 : type == SHORT_IMG ? 32767 : type == USHORT_IMG ? 65535 : type == LONG_IMG ? 2147483647. : type == ULONG_IMG ? 4294967295. : 1; double top = div; bool integer = type > 0;
    if (integer && R.chance(.5)) { int bits = R.i(4, type == BYTE_IMG ? 8 : type == SHORT_IMG ? 15 : type == USHORT_IMG ? 16 : 24); double s = std::pow(2., bits) - 1; fits_update_key_dbl(f, "SATURATE", s, 10, nullptr, &st); div = s; top = s; t.sensor_bits = bits; }
    if (R.chance(.3)) { fits_update_key_str(f, "OBJECT", (char*)"Ceres", nullptr, &st); fits_write_comment(f, "hello", &st); }
    t.px.resize((size_t)t.w * t.h); std::vector<double> v(t.px.size()); long blank = type == BYTE_IMG ? 7 : -77; bool useblank = (type == BYTE_IMG || type == SHORT_IMG || type == LONG_IMG) && R.chance(.3); if (useblank) fits_update_key_lng(f, "BLANK", blank, nullptr, &st);
    for (int r = 0; r < t.h; ++r) for (int c = 0; c < t.w; ++c) { double x; if (!integer) x = R.chance(.7) ? R.u() : R.u(-1e4, 1e4); else { x = std::floor(R.chance(.2) ? (R.chance(.5) ? 0 : top) : R.u(0, top)); if (useblank && R.chance(.1)) x = blank; } if (type == FLOAT_IMG) x = (float)x; v[(size_t)r * t.w + c] = x; double g = useblank && x == blank ? NAN : x / div; t.at(c, t.h - 1 - r) = {g, g, g, 1}; }
    long fp[3] = {1, 1, 1}; fits_write_pix(f, TDOUBLE, fp, (long)v.size(), v.data(), &st); fits_close_file(f, &st); std::ifstream g(path, std::ios::binary); t.file.assign(std::istreambuf_iterator<char>(g), {}); t.tol = integer ? 1e-6 : -1e-6;
    char s[100]; snprintf(s, 100, "fits type%d sensor%d%s", type, t.sensor_bits, useblank ? " blank" : ""); t.variant = s; if (st) t.variant += " ENCODER-FAILED"; return t;
}
inline Truth make(Fmt f, vh::Rng& R, const std::string& scratch)
{
    switch (f) { case BMP: return bmp(R); case TGA: return tga(R); case HDR: return hdr(R); case PNG: return png(R); case JPEG: return jpeg(R); case TIFF_: return tiff(R, scratch); default: return fits(R, scratch); }
}
} // namespace enc
