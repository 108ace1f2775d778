// C03: readers decode every accepted variant; truth comes from independent encoders.
#include "imgenc.hpp"
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/read_image.hpp"
#include "huira/images/io/fits_io.hpp"
using namespace huira;
using enc::Truth; using enc::Px;
static vh::Rng R(1);
static bool ok(double got, double want, double tol) { if (std::isnan(want)) return std::isnan(got); double t = tol < 0 ? -tol * std::max(std::fabs(want), 1e-30) : tol; return std::fabs(got - want) <= t; }
static std::string F;
static void hint(const Truth& t, ColorSpaceHint h, float g, const char* how)
{
    if (t.space == enc::ANY) return; static const ColorSpaceHint M[] = {ColorSpaceHint::Linear, ColorSpaceHint::sRGB, ColorSpaceHint::Gamma, ColorSpaceHint::Unknown};
    VH_CHECK(h == M[t.space], F + "-colour-space", "%s %s: hint %d want %d", t.variant.c_str(), how, (int)h, t.space);
    if (t.space == enc::GAMMA) VH_CHECK(std::fabs(g - t.gamma) < 1e-3 * t.gamma, F + "-gamma", "%s: %g want %g", t.variant.c_str(), g, t.gamma);
}
static void alpha(const Truth& t, const Image<float>& a, bool want, const char* how)
{
    if (!want || !t.alpha) { VH_CHECK(a.width() == 0 && a.height() == 0, F + "-unwanted-alpha", "%s %s", t.variant.c_str(), how); return; }
    VH_CHECK(a.width() == t.w && a.height() == t.h, F + "-alpha-missing", "%s %s: %dx%d want %dx%d", t.variant.c_str(), how, a.width(), a.height(), t.w, t.h); if (a.width() != t.w || a.height() != t.h) return;
    for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) if (double w = t.px[(size_t)y * t.w + x].a; !ok(a(x, y), w, t.tol)) { VH_FAIL(F + "-alpha", "%s %s (%d,%d) of %dx%d: %g want %g", t.variant.c_str(), how, x, y, t.w, t.h, a(x, y), w); return; }
}
static void rgb(const Truth& t, const ImageBundle<RGB>& b, bool wa, const char* how)
{
    vh::ev(); VH_CHECK(b.image.width() == t.w && b.image.height() == t.h, F + "-size", "%s %s: %dx%d want %dx%d", t.variant.c_str(), how, b.image.width(), b.image.height(), t.w, t.h); if (b.image.width() != t.w || b.image.height() != t.h) return;
    for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) { auto& w = t.px[(size_t)y * t.w + x]; auto& g = b.image(x, y); if (!ok(g[0], w.r, t.tol) || !ok(g[1], w.g, t.tol) || !ok(g[2], w.b, t.tol)) { VH_FAIL(F + "-pixel", "%s %s (%d,%d) of %dx%d: %.6g %.6g %.6g want %.6g %.6g %.6g", t.variant.c_str(), how, x, y, t.w, t.h, g[0], g[1], g[2], w.r, w.g, w.b); return; } }
    hint(t, b.color_space, b.gamma_value, how); alpha(t, b.alpha, wa, how);
}
static void mono(const Truth& t, const ImageBundle<float>& b, bool wa, const char* how)
{
    vh::ev(); VH_CHECK(b.image.width() == t.w && b.image.height() == t.h, F + "-size", "%s %s: %dx%d want %dx%d", t.variant.c_str(), how, b.image.width(), b.image.height(), t.w, t.h); if (b.image.width() != t.w || b.image.height() != t.h) return;
    for (int y = 0; y < t.h; ++y) for (int x = 0; x < t.w; ++x) { auto& w = t.px[(size_t)y * t.w + x]; double g = b.image(x, y), m = t.gray ? w.r : t.fmt == enc::JPEG ? .299 * w.r + .587 * w.g + .114 * w.b : (w.r + w.g + w.b) / 3; double tol = t.tol < 0 && !t.gray ? t.tol * 3 : t.tol; if (!ok(g, m, tol)) { VH_FAIL(F + "-mono-pixel", "%s %s (%d,%d) of %dx%d: %.6g want %.6g", t.variant.c_str(), how, x, y, t.w, t.h, g, m); return; } }
    hint(t, b.color_space, b.gamma_value, how); alpha(t, b.alpha, wa, how);
}
template <class P> static bool same(const ImageBundle<P>& a, const ImageBundle<P>& b)
{
    if (!(a.image.resolution() == b.image.resolution()) || !(a.alpha.resolution() == b.alpha.resolution()) || a.color_space != b.color_space || a.bit_depth != b.bit_depth) return false;
    return memcmp(a.image.data(), b.image.data(), a.image.size() * sizeof(P)) == 0 && (a.alpha.size() == 0 || memcmp(a.alpha.data(), b.alpha.data(), a.alpha.size() * sizeof(float)) == 0);
}
// a FITS file that is not one plane of pixels is refused
static void fits_shape()
{
    int naxis = R.pick(std::vector<int>{1, 2, 3, 3, 3, 4, 4}); long ax[4] = {R.i(1, 9), R.i(1, 9), R.pick(std::vector<int>{1, 1, 2, 3, 7}), R.pick(std::vector<int>{1, 1, 2, 3})}; int type = R.pick(std::vector<int>{BYTE_IMG, SHORT_IMG, LONG_IMG, FLOAT_IMG, DOUBLE_IMG}); std::string p = vh::scratch("shape.fits"); remove(p.c_str()); vh::cur("FITS of %d axes, %ld x %ld x %ld", naxis, ax[0], ax[1], ax[2]); vh::ev(); vh::distinct(vh::hash(naxis, ax[0], ax[1], ax[2], type));
    int st = 0; fitsfile* f = nullptr; fits_create_diskfile(&f, p.c_str(), &st); fits_create_img(f, type, naxis, ax, &st); long n = ax[0]; for (int i = 1; i < naxis; ++i) n *= ax[i]; std::vector<double> v((size_t)n); for (size_t i = 0; i < v.size(); ++i) v[i] = (double)(i % 100); long fp[4] = {1, 1, 1, 1}; fits_write_pix(f, TDOUBLE, fp, n, v.data(), &st); fits_close_file(f, &st); if (st) return;
    bool plane = naxis == 2 || (naxis > 2 && ax[2] == 1 && (naxis < 4 || ax[3] == 1)), ok = true; try { auto [im, md] = read_image_fits(p); VH_CHECK(!plane || (im.width() == ax[0] && im.height() == ax[1]), "fits-shape", "%d x %d pixels", im.width(), im.height()); } catch (const std::exception&) { ok = false; }
    VH_CHECK(ok == plane, "fits-shape", "a FITS file with %d axes of %ld, %ld, %ld, %ld is %s", naxis, ax[0], naxis > 1 ? ax[1] : 1, naxis > 2 ? ax[2] : 1, naxis > 3 ? ax[3] : 1, ok ? "read as an image" : "refused"); remove(p.c_str()); vh::count("fits shapes");
}
static void one(enc::Fmt f, int k)
{
    Truth t = enc::make(f, R, vh::scratch("enc")); F = enc::EXT[f]; vh::cur("%s #%d %s %dx%d", F.c_str(), k, t.variant.c_str(), t.w, t.h); vh::distinct(vh::hash_bytes(t.file.data(), t.file.size())); vh::count("files_" + F); { std::string v = t.variant; vh::count("variant " + v.substr(0, v.find(' ', v.find(' ') + 1))); }
    if (k < 1) vh::sample(t.variant + " " + std::to_string(t.w) + "x" + std::to_string(t.h));
    std::vector<std::string> exts{F}; std::string up = F; for (auto& c : up) c = (char)toupper(c); exts.push_back(up); if (f == enc::JPEG) { exts.push_back("jpeg"); exts.push_back("JPEG"); } if (f == enc::TIFF_) { exts.push_back("tiff"); exts.push_back("TIFF"); }
    fs::path p = vh::scratch("in." + R.pick(exts)); { std::ofstream o(p, std::ios::binary); o.write((const char*)t.file.data(), (long)t.file.size()); }
    try {
        if (f == enc::FITS) {
            auto [im, md] = read_image_fits(p); ImageBundle<float> b(im); mono(t, b, false, "read_image_fits"); if (t.sensor_bits) VH_CHECK(im.sensor_bit_depth() == t.sensor_bits, "fits-sensor-bits", "%d want %d", im.sensor_bit_depth(), t.sensor_bits); fs::remove(p); return;
        }
        bool wa = R.chance(.7); const unsigned char* d = t.file.data(); size_t n = t.file.size();
        auto viaMem = [&](bool a) -> ImageBundle<RGB> { switch (f) { case enc::BMP: return read_image_bmp(d, n, a); case enc::TGA: return read_image_tga(d, n, a); case enc::HDR: return read_image_hdr(d, n); case enc::PNG: return read_image_png(d, n, a); case enc::JPEG: return read_image_jpeg(d, n); default: return read_image_tiff_rgb(d, n, a); } };
        auto viaMemM = [&](bool a) -> ImageBundle<float> { switch (f) { case enc::BMP: return read_image_bmp_mono(d, n, a); case enc::TGA: return read_image_tga_mono(d, n, a); case enc::HDR: return read_image_hdr_mono(d, n); case enc::PNG: return read_image_png_mono(d, n, a); case enc::JPEG: return read_image_jpeg_mono(d, n); default: return read_image_tiff_mono(d, n, a); } };
        auto viaFile = [&](bool a) -> ImageBundle<RGB> { switch (f) { case enc::BMP: return read_image_bmp(p, a); case enc::TGA: return read_image_tga(p, a); case enc::HDR: return read_image_hdr(p); case enc::PNG: return read_image_png(p, a); case enc::JPEG: return read_image_jpeg(p); default: return read_image_tiff_rgb(p, a); } };
        auto viaFileM = [&](bool a) -> ImageBundle<float> { switch (f) { case enc::BMP: return read_image_bmp_mono(p, a); case enc::TGA: return read_image_tga_mono(p, a); case enc::HDR: return read_image_hdr_mono(p); case enc::PNG: return read_image_png_mono(p, a); case enc::JPEG: return read_image_jpeg_mono(p); default: return read_image_tiff_mono(p, a); } };
        static const ImageFormat IF[] = {ImageFormat::IMAGE_FORMAT_BMP, ImageFormat::IMAGE_FORMAT_TGA, ImageFormat::IMAGE_FORMAT_HDR, ImageFormat::IMAGE_FORMAT_PNG, ImageFormat::IMAGE_FORMAT_JPEG, ImageFormat::IMAGE_FORMAT_TIFF};
        auto a = viaMem(wa); rgb(t, a, wa, "memory"); auto m = viaMemM(wa); mono(t, m, wa, "memory mono");
        VH_CHECK(same(a, viaFile(wa)), F + "-file-vs-memory", "%s", t.variant.c_str()); VH_CHECK(same(a, read_image(p, wa)), F + "-generic-file", "%s as %s", t.variant.c_str(), p.filename().c_str()); VH_CHECK(same(a, read_image(IF[f], d, n, wa)), F + "-generic-memory", "%s", t.variant.c_str());
        VH_CHECK(same(m, viaFileM(wa)), F + "-file-vs-memory-mono", "%s", t.variant.c_str()); VH_CHECK(same(m, read_image_mono(p, wa)), F + "-generic-file-mono", "%s", t.variant.c_str()); VH_CHECK(same(m, read_image_mono(IF[f], d, n, wa)), F + "-generic-memory-mono", "%s", t.variant.c_str());
        if (f == enc::JPEG) { // exact agreement with an independent decompression
            tjhandle h = tjInitDecompress(); enc::Bytes o((size_t)t.w * t.h * 3); if (tjDecompress2(h, d, n, o.data(), t.w, 0, t.h, TJPF_RGB, 0) == 0) { for (size_t i = 0; i < t.px.size(); ++i) for (int c = 0; c < 3; ++c) if (std::fabs(a.image[i][(size_t)c] - o[3 * i + c] / 255.) > 1e-6) { VH_FAIL("jpeg-exact", "%s pixel %zu channel %d: %g want %g", t.variant.c_str(), i, c, a.image[i][(size_t)c], o[3 * i + c] / 255.); i = t.px.size(); break; } vh::count("jpeg_exact"); }
            if (tjDecompress2(h, d, n, o.data(), t.w, 0, t.h, TJPF_GRAY, 0) == 0) { for (size_t i = 0; i < t.px.size(); ++i) if (std::fabs(m.image[i] - o[i] / 255.) > 1e-6) { VH_FAIL("jpeg-mono-exact", "%s pixel %zu: %g want %g", t.variant.c_str(), i, m.image[i], o[i] / 255.); break; } } tjDestroy(h);
        }
    } catch (const std::exception& e) { VH_FAIL(F + "-rejected", "valid file %s %dx%d rejected: %s", t.variant.c_str(), t.w, t.h, e.what()); }
    fs::remove(p);
}
static void body()
{
    R = vh::Rng(vh::seed() + 0xC03); enc::long_share = .006; long N = vh::n(2500, 60000); vh::watchdog((int)vh::n(250, 1500));
    for (long k = 0; k < N; ++k) for (int f = 0; f < enc::NFMT; ++f) one((enc::Fmt)f, (int)k);
    for (long k = 0; k < vh::n(500, 8000); ++k) fits_shape();
    for (const char* e : {"x.gif", "x", "x.txt", "bmp"}) { VH_CHECK(detect_image_format(e) == ImageFormat::IMAGE_FORMAT_UNKNOWN, "detect-unknown", "%s", e); vh::ev(); }
}
VH_MAIN(body())
