// C01: hostile image files. Structured mutation of valid files of every variant plus header-level forgeries;
// the oracle is ASan/UBSan, the shape of what is returned, a CPU budget per file and allocation growth.
#include "imgenc.hpp"
#include <new>
static thread_local bool capped = false;
static const size_t CAP = size_t(48) << 20;
void* operator new(size_t n) { if (capped && n > CAP) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#include "huira/util/logger.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/io/read_image.hpp"
#include "huira/images/io/fits_io.hpp"
#include <sanitizer/allocator_interface.h>
#include <dirent.h>
using namespace huira;
using enc::Bytes;
static vh::Rng R(1);
static const ImageFormat IF[] = {ImageFormat::IMAGE_FORMAT_BMP, ImageFormat::IMAGE_FORMAT_TGA, ImageFormat::IMAGE_FORMAT_HDR, ImageFormat::IMAGE_FORMAT_PNG, ImageFormat::IMAGE_FORMAT_JPEG, ImageFormat::IMAGE_FORMAT_TIFF};
template <class P> static void shape(const ImageBundle<P>& b, const std::string& F)
{
    auto& i = b.image; VH_CHECK(i.width() > 0 && i.height() > 0, F + "-bad-size", "%dx%d accepted", i.width(), i.height());
    VH_CHECK(i.size() == (size_t)i.width() * (size_t)i.height(), F + "-storage", "%zu pixels for %dx%d", i.size(), i.width(), i.height());
    if (b.alpha.width() || b.alpha.height()) VH_CHECK(b.alpha.width() == i.width() && b.alpha.height() == i.height(), F + "-alpha-size", "alpha %dx%d image %dx%d", b.alpha.width(), b.alpha.height(), i.width(), i.height());
    volatile double s = 0; if (i.size()) { const P& p = i[i.size() - 1]; s = s + *(const float*)&p; }
}
static int call(enc::Fmt f, const Bytes& raw, int mode, const std::string& F)
{
    // exact-size heap copy so that ASan sees any over-read
    std::unique_ptr<unsigned char[]> d((unsigned char*)operator new[](raw.size())); if (!raw.empty()) memcpy(d.get(), raw.data(), raw.size()); size_t n = raw.size();
    capped = true; int res = 0;
    try {
        if (f == enc::FITS) { fs::path p = vh::scratch("f.fits"); auto [im, md] = read_image_fits(p); capped = false; shape(ImageBundle<float>(im), F); res = 1; }
        else if (mode == 0) { auto b = read_image(IF[f], d.get(), n, true); capped = false; shape(b, F); res = 1; }
        else if (mode == 1) { auto b = read_image_mono(IF[f], d.get(), n, true); capped = false; shape(b, F); res = 1; }
        else if (mode == 2) { auto b = read_image(IF[f], d.get(), n, false); capped = false; shape(b, F); VH_CHECK(b.alpha.size() == 0, F + "-alpha-unwanted", "alpha returned"); res = 1; }
        else { fs::path p = vh::scratch(std::string("f.") + enc::EXT[f]); { std::ofstream o(p, std::ios::binary); o.write((const char*)raw.data(), (long)n); } auto b = read_image(p, true); capped = false; shape(b, F); res = 1; }
    } catch (const std::exception&) { res = 0; }
    catch (...) { VH_FAIL(F + "-non-standard-exception", "something else than std::exception thrown"); res = 0; }
    capped = false; return res;
}
static void u32le(Bytes& b, size_t o, uint32_t v) { for (int i = 0; i < 4; ++i) if (o + i < b.size()) b[o + i] = (v >> (8 * i)) & 255; }
static void u16le(Bytes& b, size_t o, uint32_t v) { for (int i = 0; i < 2; ++i) if (o + i < b.size()) b[o + i] = (v >> (8 * i)) & 255; }
static void u32be(Bytes& b, size_t o, uint32_t v) { for (int i = 0; i < 4; ++i) if (o + i < b.size()) b[o + i] = (v >> (24 - 8 * i)) & 255; }
static uint32_t hostile32() { static const uint32_t H[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0xffff, 0x10000, 0x8000, 0x7fff, 0x40000000, 0x20000000, 0x15555556, 0x2aaaaaab, 0x55555556, 0xaaaaaaab, 65537, 46341, 92682, 0xfffffff2u, 0xffffffd8u, 100000, 5000}; return R.chance(.75) ? H[R.below(26)] : R.chance(.5) ? (uint32_t)R.next() : (uint32_t)R.below(300); }
static void png_fix(Bytes& b)
{
    for (size_t o = 8; o + 12 <= b.size();) { uint32_t n = (uint32_t)b[o] << 24 | b[o + 1] << 16 | b[o + 2] << 8 | b[o + 3]; if ((size_t)n + 12 > b.size() - o) break; u32be(b, o + 8 + n, (uint32_t)crc32(crc32(0, nullptr, 0), &b[o + 4], n + 4)); o += 12 + n; }
}
static Bytes mutate(enc::Fmt f, Bytes b, std::string& how)
{
    int k = R.i(1, 3); how = "";
    while (k--) {
        if (b.empty()) return b;
        switch (R.below(9)) {
        case 0: { size_t n = R.chance(.5) ? R.below(b.size()) : b.size() - 1 - R.below(std::min<size_t>(b.size(), 40)); b.resize(n); how += " truncate" + std::to_string(n); break; }
        case 1: { for (int i = R.i(1, 6); i--;) b[R.below(b.size())] ^= 1u << R.below(8); how += " flip"; break; }
        case 2: { for (int i = R.i(1, 6); i--;) b[R.below(b.size())] = (unsigned char)(R.chance(.5) ? R.below(256) : R.pick(std::vector<int>{0, 1, 127, 128, 255, 254})); how += " poke"; break; }
        case 3: { size_t h = std::min<size_t>(b.size(), 128); for (int i = R.i(1, 3); i--;) b[R.below(h)] = (unsigned char)R.below(256); how += " header-poke"; break; }
        case 4: { size_t a = R.below(b.size()), n = std::min<size_t>(b.size() - a, 1 + R.below(40)); b.erase(b.begin() + (long)a, b.begin() + (long)(a + n)); how += " cut"; break; }
        case 5: { size_t a = R.below(b.size()), n = std::min<size_t>(b.size() - a, 1 + R.below(60)); Bytes c(b.begin() + (long)a, b.begin() + (long)(a + n)); b.insert(b.begin() + (long)R.below(b.size()), c.begin(), c.end()); how += " splice"; break; }
        default: // format-aware
            how += " field";
            switch (f) {
            case enc::BMP: { static const int O[] = {2, 10, 14, 18, 22, 28, 30, 34, 46, 54, 58, 62, 66}; size_t o = O[R.below(13)]; if (o == 28) u16le(b, o, R.pick(std::vector<uint32_t>{0, 1, 4, 8, 16, 24, 32, 65535})); else u32le(b, o, hostile32()); break; }
            case enc::TGA: { static const int O[] = {0, 1, 2, 3, 5, 7, 12, 14, 16, 17}; size_t o = O[R.below(10)]; if (o == 3 || o == 5 || o == 12 || o == 14) u16le(b, o, hostile32()); else b[std::min(o, b.size() - 1)] = (unsigned char)R.pick(std::vector<int>{0, 1, 2, 3, 8, 9, 10, 11, 15, 16, 24, 32, 33, 255}); break; }
            case enc::HDR: { std::string s(b.begin(), b.end()); static const char* L[] = {"-Y 1 +X 1\n", "-Y -5 +X 3\n", "-Y 2147483647 +X 2147483647\n", "-Y 99999999999 +X 4\n", "+Y 3 -X 2000000000\n", "-Y 0 +X 0\n", "-Y 65535 +X 32767\n", "-Y 3\n", "+X 4 -Y 3\n", "-Y 1000000 +X 8\n", "-Y 1 +X 40000\n"}; size_t p = s.find("\n\n"); if (p != s.npos) { size_t e = s.find('\n', p + 2); if (e != s.npos) s = s.substr(0, p + 2) + L[R.below(11)] + s.substr(e + 1); } b.assign(s.begin(), s.end()); break; }
            case enc::PNG: { size_t o = R.pick(std::vector<size_t>{16, 20, 24, 25, 26, 27, 28, 33}); if (o <= 20 || o == 33) u32be(b, o, hostile32()); else if (o < b.size()) b[o] = (unsigned char)R.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 8, 16, 32, 255}); break; }
            case enc::JPEG: { for (size_t i = 0; i + 9 < b.size(); ++i) if (b[i] == 0xff && (b[i + 1] == 0xc0 || b[i + 1] == 0xc2) && R.chance(.8)) { size_t o = i + 4 + R.below(8); b[o] = (unsigned char)R.pick(std::vector<int>{0, 1, 3, 4, 8, 16, 255, 0x11, 0x22, 0x44}); break; } break; }
            case enc::TIFF_: { if (b.size() < 10) break; bool le = b[0] == 'I'; bool big = b[le ? 2 : 3] == 43; if (big) { size_t a = b.size() > 200 ? b.size() - 1 - R.below(200) : R.below(b.size()); u32le(b, a, hostile32()); break; }
                auto g = [&](size_t o, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) { uint32_t c = o + i < b.size() ? b[o + i] : 0; v |= c << (8 * (le ? i : n - 1 - i)); } return v; };
                size_t o = g(4, 4); uint32_t n = g(o, 2); if (n == 0 || n > 40) break; size_t e = o + 2 + 12 * R.below(n); auto put = [&](size_t at, uint32_t v, int w) { for (int i = 0; i < w; ++i) if (at + i < b.size()) b[at + i] = (v >> (8 * (le ? i : w - 1 - i))) & 255; };
                switch (R.below(4)) { case 0: put(e + 8, hostile32(), 4); break; case 1: put(e + 8, (uint32_t)R.pick(std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 32, 64, 65535}), g(e + 2, 2) == 3 ? 2 : 4); break; case 2: put(e + 4, hostile32(), 4); break; default: put(e, (uint32_t)R.i(254, 340), 2); } break; }
            case enc::FITS: { static const char* C[] = {"NAXIS   =                    0", "NAXIS   =                    1", "NAXIS   =                    3", "NAXIS   =                    4", "NAXIS   =                  999", "NAXIS1  =                    0", "NAXIS1  =           2147483648", "NAXIS2  =                   -3", "NAXIS2  =           4294967297", "NAXIS1  =         100000000000", "NAXIS3  =                    7", "BITPIX  =                   17", "BITPIX  =                   64", "BITPIX  =                    8", "BITPIX  =                  -64", "SATURATE=                  0.0", "SATURATE=               1E+308", "SATURATE= 'text    '", "SATURATE=                 -1.0", "BZERO   =              1E+300", "BSCALE  =                  0.0", "BLANK   =                   12", "OBJECT  =", "OBJECT  = 'unterminated", "CRPIX1  = 'xx'", "FOO     =  99999999999999999999", "BAR     =          (1.0, 2.0)", "EXPTIME = 'a'", "HIERARCH a b c = 5", "CONTINUE  'x'"};
                size_t cards = std::min<size_t>(b.size() / 80, 36); if (!cards) break; size_t c = R.below(cards); const char* s = C[R.below(30)]; if (R.chance(.6)) for (size_t i = 0; i < cards; ++i) if (!memcmp(&b[i * 80], s, 8)) c = i; for (size_t i = 0; i < 80; ++i) b[c * 80 + i] = i < strlen(s) ? s[i] : ' '; break; }
            default: break;
            }
        }
    }
    if (f == enc::PNG && R.chance(.85)) png_fix(b);
    return b;
}
static int open_fds() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
static void body()
{
    R = vh::Rng(vh::seed() + 0xC01); TIFFSetWarningHandler(nullptr); Logger::set_level(LogLevel::Error); Logger::set_buffer_size(4);
    { struct rlimit_ {}; } long N = vh::n(4000, 60000); const int fd0 = open_fds() ;
    for (long k = 0; k < N; ++k) for (int f = 0; f < enc::NFMT; ++f) {
        std::string F = enc::EXT[f]; if (f == enc::FITS && k % 2) continue; enc::Truth t = enc::make((enc::Fmt)f, R, vh::scratch("enc")); std::string how; Bytes b = k % 40 == 0 ? t.file : mutate((enc::Fmt)f, t.file, how);
        if (k % 97 == 0) { b.resize(R.below(200)); for (auto& c : b) c = (unsigned char)R.below(256); how = " noise"; }
        vh::cur("%s #%ld %s:%s (%zu bytes)", F.c_str(), k, t.variant.c_str(), how.c_str(), b.size()); vh::cur_bytes(b.data(), b.size()); vh::distinct(vh::hash_bytes(b.data(), b.size())); vh::ev();
        if (f == enc::FITS) { std::ofstream o(vh::scratch("f.fits"), std::ios::binary); o.write((const char*)b.data(), (long)b.size()); }
        int mode = (int)R.below(4); vh::watchdog(20); int r = call((enc::Fmt)f, b, mode, F); vh::count(F + (r ? "_accepted" : "_rejected"));
        if (k < 1) vh::sample(t.variant + how);
        // leak monitor: repeated reads of one file must not grow the heap
        if (k % 3 == 0) {
            call((enc::Fmt)f, b, mode, F); for (int i = 0; i < 5; ++i) call((enc::Fmt)f, b, mode, F); size_t a0 = __sanitizer_get_current_allocated_bytes(); call((enc::Fmt)f, b, mode, F); size_t a1 = __sanitizer_get_current_allocated_bytes(); vh::count("leak_probes");
            if (a1 > a0) { size_t s0 = a1; for (int i = 0; i < 30; ++i) call((enc::Fmt)f, b, mode, F); size_t s1 = __sanitizer_get_current_allocated_bytes(); if (s1 >= s0 + 30 * 16) VH_FAIL(F + (r ? "-leak" : "-leak-on-error"), "%s:%s: %zu bytes per read", t.variant.c_str(), how.c_str(), (s1 - s0) / 30); }
        }
        vh::watchdog(0);
    }
    // rejected files must not leave descriptors behind
    VH_CHECK(open_fds() <= fd0 + 2, "descriptor-leak", "%d descriptors open at start, %d at the end", fd0, open_fds());
    for (auto bad : {vh::scratch("missing.png"), vh::scratch("empty.png")}) { { if (bad.find("empty") != bad.npos) std::ofstream o(bad); } VH_CHECK(vh::throws([&] { (void)read_image(bad, true); }), "missing-or-empty", "%s accepted", bad.c_str()); VH_CHECK(vh::throws([&] { (void)read_image_fits(bad); }), "missing-or-empty-fits", "%s accepted", bad.c_str()); vh::ev(); }
    for (int f = 0; f < 6; ++f) { Bytes e; for (int m = 0; m < 3; ++m) { vh::cur("empty buffer %d", f); VH_CHECK(call((enc::Fmt)f, e, m, enc::EXT[f]) == 0, "empty-buffer", "%s", enc::EXT[f]); vh::ev(); } }
}
VH_MAIN(body())
