// C02: what a writer stores is what the matching reader, and an independent decoder, give back.
#include "imgenc.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/read_image.hpp"
#include "huira/images/io/fits_io.hpp"
using namespace huira;
static vh::Rng R(1);
static float pix() { static const float S[] = {0, 1, -.5f, 1.5f, -0.f, 1e-9f, 254.5f / 255, .5f / 255, 65534.5f / 65535, 1e9f, -1e9f, .99999f}; return R.chance(.15) ? S[R.below(12)] : R.chance(.1) ? (float)R.u(-1, 2) : R.f(); }
static void dims(int& w, int& h) { enc::dims(R, w, h, 24); }
static double clamp01(double v) { return std::min(1., std::max(0., v)); }
static bool q(double got, double want, int bits) { return std::fabs(got - clamp01(want)) <= (.5 + 2e-3) / ((1u << bits) - 1) + 2e-7; }
static fs::path target(const char* ext) { static int n = 0; fs::path p = vh::scratch("out"); if (R.chance(.3)) p /= "sub dir " + std::to_string(n++ % 5) + "/deeper"; else fs::create_directories(p); std::string s = R.pick(std::vector<std::string>{"a", "weird name (1)", "x[2]", "plus+%41", "dots.in.name"}); p /= s + "." + ext; if (R.chance(.3) && fs::exists(p.parent_path())) { std::ofstream o(p, std::ios::binary); o << std::string(200000, 'x'); } return p; }
template <class P> static void fill(Image<P>& im) { for (size_t i = 0; i < im.size(); ++i) if constexpr (std::is_same_v<P, RGB>) im[i] = RGB{pix(), pix(), pix()}; else im[i] = pix(); }
// independent decode of a PNG into rows of samples
struct Raw { int w = 0, h = 0, ch = 0, bits = 0; std::vector<unsigned> v; unsigned at(int x, int y, int c) const { return v[((size_t)y * w + x) * ch + c]; } };
static bool rawpng(const fs::path& p, Raw& r)
{
    FILE* f = fopen(p.c_str(), "rb"); if (!f) return false; png_structp g = png_create_read_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop in = png_create_info_struct(g); if (setjmp(png_jmpbuf(g))) { fclose(f); return false; }
    png_init_io(g, f); png_read_png(g, in, PNG_TRANSFORM_IDENTITY, 0); r.w = png_get_image_width(g, in); r.h = png_get_image_height(g, in); r.ch = png_get_channels(g, in); r.bits = png_get_bit_depth(g, in); png_bytepp rows = png_get_rows(g, in);
    for (int y = 0; y < r.h; ++y) for (int i = 0; i < r.w * r.ch; ++i) r.v.push_back(r.bits == 16 ? rows[y][2 * i] << 8 | rows[y][2 * i + 1] : rows[y][i]); png_destroy_read_struct(&g, &in, 0); fclose(f); return r.bits == 8 || r.bits == 16;
}
static bool rawtiff(const fs::path& p, Raw& r)
{
    TIFF* T = TIFFOpen(p.c_str(), "r"); if (!T) return false; uint32_t w, h; uint16_t b, s, pc = 1, o = 1; TIFFGetField(T, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(T, TIFFTAG_IMAGELENGTH, &h); TIFFGetFieldDefaulted(T, TIFFTAG_BITSPERSAMPLE, &b); TIFFGetFieldDefaulted(T, TIFFTAG_SAMPLESPERPIXEL, &s); TIFFGetFieldDefaulted(T, TIFFTAG_PLANARCONFIG, &pc); TIFFGetFieldDefaulted(T, TIFFTAG_ORIENTATION, &o);
    r.w = w; r.h = h; r.bits = b; r.ch = s; std::vector<unsigned char> l((size_t)TIFFScanlineSize(T)); for (uint32_t y = 0; y < h; ++y) { TIFFReadScanline(T, l.data(), y, 0); for (size_t i = 0; i < (size_t)w * s; ++i) { if (b == 8) r.v.push_back(l[i]); else { uint16_t v; memcpy(&v, &l[2 * i], 2); r.v.push_back(v); } } } TIFFClose(T); return pc == 1 && o == 1;
}
template <class P> static void grid(const char* F, const Image<P>& got, const Image<P>& want, int bits, const char* what)
{
    VH_CHECK(got.width() == want.width() && got.height() == want.height(), std::string(F) + "-size", "%s: %dx%d back from %dx%d", what, got.width(), got.height(), want.width(), want.height()); if (got.size() != want.size()) return;
    for (int y = 0; y < want.height(); ++y) for (int x = 0; x < want.width(); ++x) for (int c = 0; c < (std::is_same_v<P, RGB> ? 3 : 1); ++c) { double g, w; if constexpr (std::is_same_v<P, RGB>) { g = got(x, y)[(size_t)c]; w = want(x, y)[(size_t)c]; } else { g = got(x, y); w = want(x, y); }
        if (!q(g, w, bits)) { VH_FAIL(std::string(F) + "-pixel", "%s %d-bit (%d,%d)[%d] of %dx%d: wrote %.9g read %.9g", what, bits, x, y, c, want.width(), want.height(), w, g); return; } }
}
template <class P> static void raster(const char* F, const Raw& r, const Image<P>& want, int bits, bool alpha)
{
    VH_CHECK(r.w == want.width() && r.h == want.height() && r.bits == bits, std::string(F) + "-stored-size", "stored %dx%d %d bits", r.w, r.h, r.bits); if (r.w != want.width() || r.h != want.height()) return; double M = (1u << r.bits) - 1; (void)alpha;
    for (int y = 0; y < r.h; ++y) for (int x = 0; x < r.w; ++x) for (int c = 0; c < std::min(r.ch, 3); ++c) { double w; if constexpr (std::is_same_v<P, RGB>) w = want(x, y)[(size_t)c]; else w = want(x, y); if (!q(r.at(x, y, c) / M, w, bits)) { VH_FAIL(std::string(F) + "-stored-pixel", "(%d,%d)[%d] of %dx%d: wrote %.9g stored %u", x, y, c, r.w, r.h, w, r.at(x, y, c)); return; } }
}
template <class P> static void png_one()
{
    int w, h; dims(w, h); ImageBundle<P> b{Image<P>(w, h)}; fill(b.image); b.bit_depth = R.chance(.5) ? 8 : 16; bool a = R.chance(.5); if (a) { b.alpha = Image<float>(w, h); fill(b.alpha); }
    int cs = (int)R.below(4); b.color_space = cs == 0 ? ColorSpaceHint::sRGB : cs == 1 ? ColorSpaceHint::Linear : cs == 2 ? ColorSpaceHint::Gamma : ColorSpaceHint::Unknown; if (cs == 2) b.gamma_value = R.pick(std::vector<float>{1.4f, 1.8f, 2.6f, 3.f}); bool wrong = a && R.chance(.1); if (wrong) b.alpha = Image<float>(w + 1, h); auto p = target("png");
    vh::cur("png %dx%d %d bits alpha %d space %d -> %s", w, h, b.bit_depth, a, cs, p.c_str()); vh::ev(); vh::distinct(vh::hash(1, w, h, b.bit_depth, a, cs, R.s)); write_image_png(p, b); vh::count("png");
    Raw r; VH_CHECK(rawpng(p, r), "png-unreadable", "written PNG rejected by libpng"); raster("png", r, b.image, b.bit_depth, a);
    if (a && !wrong && r.ch == 4) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) VH_CHECK(q(r.at(x, y, 3) / (double)((1u << r.bits) - 1), b.alpha(x, y), b.bit_depth), "png-stored-alpha", "(%d,%d)", x, y);
    auto back = read_image_png(p, true); if constexpr (std::is_same_v<P, RGB>) grid("png", back.image, b.image, b.bit_depth, "colour"); auto m = read_image_png_mono(p, true); if constexpr (std::is_same_v<P, float>) grid("png", m.image, b.image, b.bit_depth, "mono");
    if (a && !wrong) { VH_CHECK(back.alpha.size() == b.image.size(), "png-alpha-lost", "%dx%d", w, h); if (back.alpha.size() == b.image.size()) grid("png", back.alpha, b.alpha, b.bit_depth, "alpha"); } else VH_CHECK(back.alpha.size() == 0, "png-alpha-invented", "%dx%d wrong %d", w, h, wrong);
    if (cs < 3) VH_CHECK(back.color_space == b.color_space, "png-colour-space", "wrote %d read %d", (int)b.color_space, (int)back.color_space); if (cs == 2) VH_CHECK(std::fabs(back.gamma_value - b.gamma_value) < 1e-3f * b.gamma_value, "png-gamma", "wrote %g read %g", b.gamma_value, back.gamma_value);
    fs::remove(p);
}
template <class P> static void tiff_one()
{
    int w, h; dims(w, h); ImageBundle<P> b{Image<P>(w, h)}; fill(b.image); b.bit_depth = R.chance(.5) ? 8 : 16; auto p = target("tiff"); vh::cur("tiff %s %dx%d %d bits -> %s", std::is_same_v<P, RGB> ? "rgb" : "mono", w, h, b.bit_depth, p.c_str()); vh::ev(); vh::distinct(vh::hash(2, w, h, b.bit_depth, R.s)); std::string d = R.chance(.4) ? "a description" : "", ar = R.chance(.4) ? "an artist" : "";
    write_image_tiff(p, b, d, ar); vh::count("tiff"); Raw r; VH_CHECK(rawtiff(p, r), "tiff-unreadable", "written TIFF rejected by libtiff"); VH_CHECK(r.ch == (std::is_same_v<P, RGB> ? 3 : 1), "tiff-channels", "%d", r.ch); raster("tiff", r, b.image, b.bit_depth, false);
    { TIFF* T = TIFFOpen(p.c_str(), "r"); char* s = nullptr; bool has = TIFFGetField(T, TIFFTAG_IMAGEDESCRIPTION, &s); VH_CHECK(has ? d == s : d.empty(), "tiff-description", "wrote '%s'", d.c_str()); s = nullptr; has = TIFFGetField(T, TIFFTAG_ARTIST, &s); VH_CHECK(has ? ar == s : ar.empty(), "tiff-artist", "wrote '%s'", ar.c_str()); std::uint16_t ph = 65535; has = TIFFGetField(T, TIFFTAG_PHOTOMETRIC, &ph); VH_CHECK(has && ph == (std::is_same_v<P, RGB> ? PHOTOMETRIC_RGB : PHOTOMETRIC_MINISBLACK), "tiff-photometric", "a file of %d channels says its samples are %d", r.ch, has ? ph : -1); TIFFClose(T); }
    if constexpr (std::is_same_v<P, RGB>) grid("tiff", read_image_tiff_rgb(p, true).image, b.image, b.bit_depth, "colour"); else { grid("tiff", read_image_tiff_mono(p, true).image, b.image, b.bit_depth, "mono"); } fs::remove(p);
}
template <class S> static void tiff_spectral()
{
    int w, h; dims(w, h); ImageBundle<S> b{Image<S>(w, h)}; Image<float> mean(w, h); for (size_t i = 0; i < b.image.size(); ++i) { double s = 0; for (size_t k = 0; k < S::size(); ++k) { b.image[i][k] = R.f(); s += b.image[i][k]; } mean[i] = (float)(s / S::size()); } b.bit_depth = R.chance(.5) ? 8 : 16; auto p = target("tif"); vh::cur("spectral tiff %dx%d", w, h); vh::ev(); write_image_tiff(p, b); auto m = read_image_tiff_mono(p, true);
    VH_CHECK(m.image.width() == w && m.image.height() == h, "tiff-spectral-size", "%dx%d", w, h); if (m.image.size() == mean.size()) for (size_t i = 0; i < mean.size(); ++i) VH_CHECK(std::fabs(m.image[i] - mean[i]) <= .51 / ((1u << b.bit_depth) - 1) + 1e-6, "tiff-spectral-pixel", "%g want %g", m.image[i], mean[i]); fs::remove(p);
}
template <class P> static void jpeg_one()
{
    int w, h; dims(w, h); ImageBundle<P> b{Image<P>(w, h)}; double f[3][3]; for (auto& r : f) { r[0] = R.u(.3, .7); r[1] = R.u(-.01, .01); r[2] = R.u(-.01, .01); } bool sat = R.chance(.2); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { auto v = [&](int c) { return (float)(f[c][0] + f[c][1] * x + f[c][2] * y + (sat ? (c ? 2. : -2.) : 0.)); }; if constexpr (std::is_same_v<P, RGB>) b.image(x, y) = RGB{v(0), v(1), v(2)}; else b.image(x, y) = v(0); }
    int qual = R.i(85, 100); auto p = target(R.chance(.5) ? "jpg" : "jpeg"); vh::cur("jpeg %dx%d q%d", w, h, qual); vh::ev(); vh::distinct(vh::hash(3, w, h, qual, R.s)); write_image_jpeg(p, b, qual); vh::count("jpeg"); auto back = read_image_jpeg(p); VH_CHECK(back.image.width() == w && back.image.height() == h, "jpeg-size", "%dx%d from %dx%d", back.image.width(), back.image.height(), w, h);
    if (back.image.size() == b.image.size()) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < 3; ++c) { double want; if constexpr (std::is_same_v<P, RGB>) want = b.image(x, y)[(size_t)c]; else want = b.image(x, y); if (std::fabs(back.image(x, y)[(size_t)c] - clamp01(want)) > .05) { VH_FAIL("jpeg-pixel", "q%d (%d,%d)[%d] of %dx%d: wrote %g read %g", qual, x, y, c, w, h, want, back.image(x, y)[(size_t)c]); y = h; x = w; break; } }
    fs::remove(p);
}
static std::string str(int max) { static const char A[] = "abcXYZ019 _-/.,:'+"; std::string s; int n = R.i(1, max); int quotes = 0; for (int i = 0; i < n; ++i) { char c = A[R.below(sizeof A - 1)]; if (c == '\'' && ++quotes > 1) c = 'q'; s += c; } if (s.back() == ' ' || s.back() == '\'') s.back() = 'e'; if (s[0] == ' ') s[0] = 's'; return s; }
static std::string txt(int max) { std::string s = str(max); return s; }
static void fits_one()
{
    int w, h; dims(w, h); Image<float> im(w, h); int bd = R.pick(std::vector<int>{8, 16, 32, -32, -64}); bool blanks = R.chance(.25); bool integer = bd > 0; double bmax = bd == 8 ? 255 : bd == 16 ? 65535 : 4294967295.; int sb = integer && R.chance(.5) ? R.i(1, bd == 32 ? 24 : bd) : 0; if (sb) im.set_sensor_bit_depth(sb); double adc = sb ? std::pow(2., sb) - 1 : bmax;
    for (size_t i = 0; i < im.size(); ++i) { im[i] = integer ? pix() : R.chance(.3) ? (float)R.u(-1e5, 1e5) : pix(); if (blanks && R.chance(.2)) im[i] = R.pick(std::vector<float>{NAN, INFINITY, -INFINITY}); } if (blanks && R.chance(.05)) im.fill(NAN);
    FitsMetadata m; auto S = [&](std::string& s) { if (R.chance(.5)) s = str(60); }; S(m.object); S(m.telescop); S(m.instrume); S(m.observer); S(m.date_obs); S(m.origin); S(m.filter); S(m.bunit); if (R.chance(.5)) m.exptime = (float)R.lu(1e-6, 1e4); auto D = [&](std::optional<double>& d) { if (R.chance(.4)) d = (R.chance(.5) ? -1 : 1) * R.lu(1e-8, 1e8); };
    D(m.crpix1); D(m.crpix2); D(m.crval1); D(m.crval2); D(m.cdelt1); D(m.cdelt2); if (R.chance(.3)) m.ctype1 = "RA---TAN"; if (R.chance(.3)) m.ctype2 = "DEC--TAN"; if (R.chance(.3)) m.equinox = R.u(1900, 2100); if (R.chance(.3)) m.radesys = "FK5"; D(m.datamin); D(m.datamax); if (!integer) D(m.saturate);
    for (int i = R.i(0, 3); i--;) m.comments.push_back(txt(60)); for (int i = R.i(0, 3); i--;) m.history.push_back(txt(60)); int nk = R.i(0, 4); for (int i = 0; i < nk; ++i) { FitsKeyword k; k.key = "KEY" + std::to_string(i); if (R.chance(.5)) k.comment = "c"; switch (R.below(4)) { case 0: k.value = str(40); break; case 1: k.value = R.u(-1e3, 1e3); break; case 2: k.value = R.i(-1000000000, 1000000000); break; default: k.value = R.chance(.5); } m.custom_keywords.push_back(k); }
    auto p = target("fits"); vh::cur("fits %dx%d bitpix %d sensor %d blanks %d -> %s", w, h, bd, sb, blanks, p.c_str()); vh::ev(); vh::distinct(vh::hash(4, w, h, bd, sb, R.s)); bool any = false, fin = false; for (size_t i = 0; i < im.size(); ++i) { any |= !std::isfinite(im[i]); fin |= std::isfinite(im[i]); }
    write_image_fits(p, im, bd, m); vh::count("fits"); VH_CHECK(fs::exists(p), "fits-file-name", "%s was not created", p.c_str()); auto [b, r] = read_image_fits(p);
    // independent look at the stored values: first FITS row is the bottom row
    { fitsfile* f = nullptr; int st = 0; fits_open_diskfile(&f, p.c_str(), READONLY, &st); std::vector<double> v((size_t)w * h); double nul = -12345; long fp[2] = {1, 1}; int an; int bp = 0, na = 0; long ax[2] = {0, 0}; fits_get_img_param(f, 2, &bp, &na, ax, &st); fits_read_pix(f, TDOUBLE, fp, w * h, &nul, v.data(), &an, &st); fits_close_file(f, &st); VH_CHECK(st == 0 && bp == bd && ax[0] == w && ax[1] == h, "fits-stored-layout", "status %d bitpix %d %ldx%ld", st, bp, ax[0], ax[1]);
      double mn = 1e300, mx = -1e300; for (int y = 0; y < h && st == 0; ++y) for (int x = 0; x < w; ++x) { double s = v[(size_t)(h - 1 - y) * w + x], px = im(x, y); if (!std::isfinite(px)) { VH_CHECK(s == nul, "fits-stored-blank", "(%d,%d) stored %g for %g", x, y, s, px); continue; } double want = integer ? std::min(bmax, std::max(any ? 1. : 0., px * adc)) : px; mn = std::min(mn, s); mx = std::max(mx, s); if (std::fabs(s - want) > (integer ? .5 + 1e-6 * adc : 1e-6 * std::fabs(want) + (std::fabs(want) < 1e-30 ? 1e-30 : 0))) { VH_FAIL("fits-stored-pixel", "bitpix %d sensor %d (%d,%d) of %dx%d: wrote %.9g stored %.9g want %.9g", bd, sb, x, y, w, h, px, s, want); y = h; break; } }
      if (fin && st == 0) { if (!m.datamin) VH_CHECK(r.datamin && vh::near(*r.datamin, mn, 1e-6, 1e-30), "fits-datamin", "%g want %g", r.datamin.value_or(NAN), mn); if (!m.datamax) VH_CHECK(r.datamax && vh::near(*r.datamax, mx, 1e-6, 1e-30), "fits-datamax", "%g want %g", r.datamax.value_or(NAN), mx); } }
    VH_CHECK(b.width() == w && b.height() == h, "fits-size", "%dx%d from %dx%d", b.width(), b.height(), w, h); if (b.size() != im.size()) return;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { double g = b(x, y), px = im(x, y); if (!std::isfinite(px)) { VH_CHECK(std::isnan(g), "fits-blank", "bitpix %d (%d,%d): wrote %g read %g", bd, x, y, px, g); continue; } double want = integer ? std::min(bmax / adc, std::max(any ? 1. / adc : 0., px)) : px; if (std::fabs(g - want) > (integer ? (.5 / adc) * 1.001 + 1e-6 * std::max(1., want) : 1e-6 * std::fabs(want) + (std::fabs(want) < 1e-30 ? 1e-30 : 0))) { VH_FAIL("fits-pixel", "bitpix %d sensor %d (%d,%d) of %dx%d: wrote %.9g read %.9g want %.9g", bd, sb, x, y, w, h, px, g, want); y = h; break; } }
    if (sb > 1) VH_CHECK(b.sensor_bit_depth() == sb, "fits-sensor-bits", "wrote %d read %d", sb, b.sensor_bit_depth());
    auto CS = [&](const char* k, const std::string& a, const std::string& g) { if (!a.empty()) VH_CHECK(a == g, "fits-metadata-string", "%s wrote '%s' read '%s'", k, a.c_str(), g.c_str()); }; CS("object", m.object, r.object); CS("telescop", m.telescop, r.telescop); CS("instrume", m.instrume, r.instrume); CS("observer", m.observer, r.observer); CS("date_obs", m.date_obs, r.date_obs); CS("origin", m.origin, r.origin); CS("filter", m.filter, r.filter); CS("bunit", m.bunit, r.bunit); CS("ctype1", m.ctype1, r.ctype1); CS("ctype2", m.ctype2, r.ctype2); if (m.has_wcs()) CS("radesys", m.radesys, r.radesys);
    auto CD = [&](const char* k, const std::optional<double>& a, const std::optional<double>& g) { if (a) VH_CHECK(g && vh::near(*a, *g, 2e-10), "fits-metadata-number", "%s wrote %.15g read %.15g", k, *a, g.value_or(NAN)); }; CD("crpix1", m.crpix1, r.crpix1); CD("crpix2", m.crpix2, r.crpix2); CD("crval1", m.crval1, r.crval1); CD("crval2", m.crval2, r.crval2); CD("cdelt1", m.cdelt1, r.cdelt1); CD("cdelt2", m.cdelt2, r.cdelt2); CD("datamin", m.datamin, r.datamin); CD("datamax", m.datamax, r.datamax); CD("saturate", m.saturate, r.saturate); if (m.has_wcs()) CD("equinox", m.equinox, r.equinox);
    auto only = [&](const char* k, const std::optional<double>& a, const std::optional<double>& g) { if (!a) VH_CHECK(!g, "fits-metadata-invented", "%s read %g", k, g.value_or(0)); }; only("crpix1", m.crpix1, r.crpix1); only("crval2", m.crval2, r.crval2);
    VH_CHECK(vh::near(m.exptime, r.exptime, 2e-6), "fits-exptime", "wrote %g read %g", m.exptime, r.exptime);
    auto sub = [&](const char* k, const std::vector<std::string>& a, const std::vector<std::string>& g) { size_t j = 0; for (auto& s : a) { while (j < g.size() && g[j] != s) ++j; VH_CHECK(j < g.size(), std::string("fits-") + k, "'%s' lost", s.c_str()); ++j; } }; sub("comments", m.comments, r.comments); sub("history", m.history, r.history); VH_CHECK(r.history.size() == m.history.size(), "fits-history-count", "%zu from %zu", r.history.size(), m.history.size());
    size_t j = 0; for (auto& k : m.custom_keywords) { while (j < r.custom_keywords.size() && r.custom_keywords[j].key != k.key) ++j; if (j >= r.custom_keywords.size()) { VH_FAIL("fits-custom-lost", "%s", k.key.c_str()); break; } auto& g = r.custom_keywords[j]; bool same = k.value.index() == g.value.index(); if (same) { if (auto* d = std::get_if<double>(&k.value)) same = vh::near(*d, std::get<double>(g.value), 2e-10); else same = k.value == g.value; } VH_CHECK(same && k.comment == g.comment, "fits-custom-value", "%s type %zu read type %zu comment '%s'", k.key.c_str(), k.value.index(), g.value.index(), g.comment.c_str()); }
    for (auto& g : r.custom_keywords) VH_CHECK(g.key.rfind("KEY", 0) == 0, "fits-custom-invented", "%s", g.key.c_str());
    // a second write of what was read is stable
    if (!any && R.chance(.3)) { auto p2 = p; p2.replace_filename("second.fits"); write_image_fits(p2, b, bd, r); auto [b2, r2] = read_image_fits(p2); for (size_t i = 0; i < b.size(); ++i) if (!(std::fabs(b[i] - b2[i]) <= 1e-6 * std::max(1.f, std::fabs(b[i])))) { VH_FAIL("fits-rewrite", "bitpix %d sensor %d: %.9g becomes %.9g", bd, sb, b[i], b2[i]); break; } VH_CHECK(r2.comments.size() >= r.comments.size() && r2.custom_keywords.size() == r.custom_keywords.size(), "fits-rewrite-metadata", "%zu custom from %zu", r2.custom_keywords.size(), r.custom_keywords.size()); fs::remove(p2); }
    fs::remove(p);
}
static void refusals()
{
    Image<float> e; ImageBundle<float> eb(e); ImageBundle<RGB> er{Image<RGB>()}; auto p = vh::scratch("refuse"); auto T = [&](const char* k, auto f) { vh::ev(); vh::cur("refusal %s", k); VH_CHECK(vh::throws(f), "not-refused", "%s", k); };
    T("empty png", [&] { write_image_png(p, er); }); T("empty tiff", [&] { write_image_tiff(p, er); }); T("empty mono tiff", [&] { write_image_tiff(p, eb); }); T("empty jpeg", [&] { write_image_jpeg(p, er, 90); }); T("empty fits", [&] { write_image_fits(p, e, 16); });
    ImageBundle<RGB> g{Image<RGB>(64, 64)}; ImageBundle<float> gm{Image<float>(64, 64)}; for (int bd : {0, 1, 7, 12, 32, -8}) { g.bit_depth = gm.bit_depth = bd; T("png depth", [&] { write_image_png(p, g); }); T("tiff depth", [&] { write_image_tiff(p, g); }); T("tiff mono depth", [&] { write_image_tiff(p, gm); }); } g.bit_depth = gm.bit_depth = 8; for (int q : {0, -1, 101}) T("jpeg quality", [&] { write_image_jpeg(p, g, q); }); for (int bd : {0, 12, 64, -16}) T("fits depth", [&] { write_image_fits(p, gm.image, bd); });
    // a full device is reported, not silently truncated
    for (size_t i = 0; i < g.image.size(); ++i) g.image[i] = RGB{R.f(), R.f(), R.f()}; ImageBundle<RGB> tiny{Image<RGB>(2, 2)};
    if (fs::exists("/dev/full") && access("/dev/full", W_OK) == 0) { fs::path l = vh::scratch("full.png"); auto link = [&](const char* n) { fs::path q = vh::scratch(n); fs::remove(q); fs::create_symlink("/dev/full", q); return q; }; T("png on a full device", [&] { write_image_png(link("full.png"), g); }); T("tiny png on a full device", [&] { write_image_png(link("fullt.png"), tiny); }); T("jpeg on a full device", [&] { write_image_jpeg(link("full.jpg"), g, 90); }); T("tiny jpeg on a full device", [&] { write_image_jpeg(link("fullt.jpg"), tiny, 90); }); }
    auto d = vh::scratch("adir.png"); fs::create_directories(d); T("png over a directory", [&] { write_image_png(d, g); }); T("jpeg over a directory", [&] { write_image_jpeg(d, g, 90); }); T("tiff over a directory", [&] { write_image_tiff(d, g); }); { std::ofstream o(vh::scratch("plainfile")); } auto u = vh::scratch("plainfile") + "/x.png"; T("png below a file", [&] { write_image_png(u, g); }); T("fits below a file", [&] { write_image_fits(u, gm.image, 16); });
}
static void body()
{
    R = vh::Rng(vh::seed() + 0xC02); enc::long_share = .006; TIFFSetWarningHandler(nullptr); Logger::set_level(LogLevel::Error); vh::watchdog((int)vh::n(250, 1800)); long N = vh::n(1200, 40000);
    auto guard = [&](auto f) { try { f(); } catch (const std::exception& e) { VH_FAIL("write-or-read-failed", "%s while %s", e.what(), vh::st().cur ? vh::st().cur : ""); } };
    for (long k = 0; k < N; ++k) { guard(png_one<RGB>); guard(png_one<float>); guard(tiff_one<RGB>); guard(tiff_one<float>); guard(jpeg_one<RGB>); guard(jpeg_one<float>); guard(fits_one); guard(fits_one); guard(tiff_spectral<SpectralBins<4, 400, 800>>); guard(tiff_spectral<Visible8>); }
    refusals();
}
VH_MAIN(body())
