// C32: star catalogues. Tycho-2 lines are composed from known fields in the published layout and read
// back; binary catalogues are written, limited, truncated and damaged; stars are moved and lit.
#include "vh.hpp"
#include "cspice_double.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "huira/stars/io/star_data.hpp"
#include "huira/stars/io/tycho2_id.hpp"
#include "huira/stars/star.hpp"
#include "huira_cli/cli.cpp"
#include "huira_cli/commands/process_tycho2.cpp"
using namespace huira;
using vh::Rng;
using LD = long double;
static const LD PIl = 3.14159265358979323846264338327950288L;
static const LD MAS = PIl / (180.0L * 3600 * 1000);

struct Rec {
    int t1 = 1, t2 = 1, t3 = 1;
    char flag = ' ';
    double ra = 0, dec = 0, pmra = NAN, pmdec = NAN, bt = NAN, vt = NAN, ora = 0, odec = 0, era = 0, edec = 0;
    bool good = true;  // yields a star
    std::string line;
    long id = 0;
};
static void put(std::string& l, std::size_t from1, std::size_t to1, const std::string& v) // one-based, inclusive, right-justified
{
    std::size_t w = to1 - from1 + 1;
    std::string s = v.size() < w ? std::string(w - v.size(), ' ') + v : v.substr(0, w);
    l.replace(from1 - 1, w, s);
}
static double rnd(double v, int dec) { double s = std::pow(10.0, dec); return std::round(v * s) / s; }

static Rec make(Rng& R, bool suppl)
{
    Rec r;
    r.t1 = R.i(1, 9537); r.t2 = R.i(1, 12121); r.t3 = R.i(1, 4);
    if (R.chance(0.1)) { r.t1 = R.chance(0.5) ? 9537 : 1; r.t2 = R.chance(0.5) ? 12121 : 1; }
    r.flag = suppl ? (R.chance(0.5) ? 'H' : 'T') : R.chance(0.3) ? 'X' : R.chance(0.2) ? 'P' : ' ';
    auto ra = [&] { return rnd(R.chance(0.2) ? R.u(0, 1) : R.chance(0.3) ? R.u(350, 360) : R.u(0, 360), 8); };
    auto dec = [&] { double z = rnd(R.chance(0.15) ? (R.chance(0.5) ? 1 : -1) * R.u(89.5, 90) : R.chance(0.2) ? R.u(-1, 1) : std::asin(R.u(-1, 1)) * 57.29577951308232, 8); return z; };
    r.ra = ra(); r.dec = dec(); r.ora = ra(); r.odec = dec();
    r.era = rnd(R.u(0.5, 2.6), 2); r.edec = rnd(R.u(0.5, 2.6), 2);
    bool pm = r.flag == 'X' ? R.chance(0.4) : R.chance(0.85);
    if (pm) { double m = R.chance(0.2) ? 4000 : 60; r.pmra = rnd(R.u(-m, m), 1); r.pmdec = rnd(R.u(-m, m), 1); }
    if (R.chance(0.04)) { r.pmdec = NAN; }
    double v = rnd(R.u(-1.5, 14), 3), c = R.chance(0.1) ? R.u(-2, 6) : R.u(-0.3, 1.8);
    int have = R.chance(0.08) ? 0 : R.chance(0.15) ? 1 : R.chance(0.15) ? 2 : 3;
    if (have & 1) r.vt = v;
    if (have & 2) r.bt = rnd(v + c, 3);
    if (!have) r.good = false;
    std::string l(suppl ? 122 : 206, ' ');
    for (std::size_t b : (suppl ? std::vector<std::size_t>{13, 15, 28, 41, 49, 57, 63, 69, 75, 81, 83, 90, 96, 103, 109, 113, 115} : std::vector<std::size_t>{13, 15, 28, 41, 49, 57, 61, 65, 70, 75, 83, 91, 94, 98, 102, 106, 110, 117, 123, 130, 136, 140, 142, 152, 165, 178, 183, 188, 194, 200, 202})) l[b - 1] = '|';
    auto num = [](double x, int d) { return std::isnan(x) ? std::string() : vh::fmt("%.*f", d, x); };
    put(l, 1, 4, vh::fmt("%04d", r.t1)); put(l, 6, 10, vh::fmt("%05d", r.t2)); put(l, 12, 12, vh::fmt("%d", r.t3)); l[13] = r.flag;
    put(l, 42, 48, num(r.pmra, 1)); put(l, 50, 56, num(r.pmdec, 1));
    if (!(r.flag == 'X' && !suppl)) { put(l, 16, 27, num(r.ra, 8)); put(l, 29, 40, num(r.dec, 8)); }
    if (suppl) {
        put(l, 58, 62, "123.4"); put(l, 64, 68, "98.76"); put(l, 70, 74, "11.1"); put(l, 76, 80, "22.2"); l[81] = 'V';
        put(l, 84, 89, num(r.bt, 3)); put(l, 91, 95, "0.123"); put(l, 97, 102, num(r.vt, 3)); put(l, 104, 108, "0.456"); put(l, 110, 112, "999"); l[113] = 'T'; put(l, 116, 121, "118322");
    } else {
        if (r.flag != 'X') { put(l, 58, 60, "111"); put(l, 62, 64, "112"); put(l, 66, 69, "3.3"); put(l, 71, 74, "4.4"); put(l, 76, 82, "1991.25"); put(l, 84, 90, "1990.75"); put(l, 92, 93, "4"); put(l, 95, 97, "1.1"); put(l, 99, 101, "1.2"); put(l, 103, 105, "1.3"); put(l, 107, 109, "1.4"); }
        put(l, 111, 116, num(r.bt, 3)); put(l, 118, 122, "0.055"); put(l, 124, 129, num(r.vt, 3)); put(l, 131, 135, "0.066"); put(l, 137, 139, "999"); put(l, 143, 148, "118322"); put(l, 149, 151, "AB");
        put(l, 153, 164, num(r.ora, 8)); put(l, 166, 177, num(r.odec, 8)); put(l, 179, 182, num(r.era, 2)); put(l, 184, 187, num(r.edec, 2));
        put(l, 189, 193, "12.34"); put(l, 195, 199, "56.78"); l[200] = ' '; put(l, 203, 206, "-0.1");
    }
    bool mean = suppl || r.flag != 'X';
    // make some unusable
    if (R.chance(0.12)) {
        static const char* junk[] = {"", "x", "nan", "inf", "-", "1.2.3", "12a", "e999", ".........", "--5"};
        int what = R.i(0, 6);
        std::string j = junk[R.below(10)];
        r.good = false;
        switch (what) {
        case 0: if (mean) put(l, 16, 27, j); else put(l, 153, 164, j); break;
        case 1: if (mean) put(l, 29, 40, j); else put(l, 166, 177, j); break;
        case 2: if (mean) { l.resize(R.chance(0.5) ? 28 : 15); } else put(l, 179, 182, j); break;
        case 3: if (mean) { l.resize(R.chance(0.5) ? 41 : 83); } else put(l, 184, 187, j); break;
        case 4: put(l, 6, 10, j.substr(0, 5)); break;
        case 5: l[11] = R.chance(0.5) ? ' ' : '?'; break;
        default: l.resize(R.i(1, 12)); if (l.size() >= 12) l.resize(11);
        }
    }
    r.line = l;
    return r;
}

static void check_star(const Rec& r, const StarData& s, bool suppl, const std::string& where)
{
    bool mean = suppl || r.flag != 'X';
    LD ra = (mean ? r.ra : r.ora) * PIl / 180, dec = (mean ? r.dec : r.odec) * PIl / 180;
    LD pa = std::isnan(r.pmra) ? 0 : static_cast<LD>(r.pmra), pd = std::isnan(r.pmdec) ? 0 : static_cast<LD>(r.pmdec);
    LD yr = suppl ? 8.75L : mean ? 0 : 10 - static_cast<LD>(r.era), yd = suppl ? 8.75L : mean ? 0 : 10 - static_cast<LD>(r.edec);
    LD d2 = dec + pd * MAS * yd, cs = std::cos(d2);
    LD a2 = yr == 0 ? ra : ra + pa * MAS * yr / cs;
    LD second = std::pow((std::fabs(pa * yr) + std::fabs(pd * yd)) * MAS, 2.0L) / (cs * cs);
    LD tola = 2e-15L * (1 + ra) + std::fabs(pa) * MAS * 1.5e-4L * (yr != 0) / std::fabs(cs) + 2 * second * (yr != 0);
    LD told = 2e-15L * 2 + std::fabs(pd) * MAS * 1.5e-4L * (yd != 0);
    LD da = std::remainder(static_cast<LD>(s.RA) - a2, 2 * PIl);
    vh::ev();
    VH_CHECK(s.id == ((static_cast<std::uint64_t>(r.t1) << 20) | (static_cast<std::uint64_t>(r.t2) << 4) | static_cast<std::uint64_t>(r.t3)) || format_tycho2_id(s.id) == vh::fmt("TYC %d-%d-%d", r.t1, r.t2, r.t3), "tycho-id", "%s: TYC %d-%d-%d read as %s", where.c_str(), r.t1, r.t2, r.t3, format_tycho2_id(s.id).c_str());
    VH_CHECK(std::fabs(static_cast<LD>(s.DEC) - d2) <= told, "tycho-position", "%s flag '%c' of %d-%d-%d: declination %.12g instead of %.12Lg (tolerance %.2Lg)", where.c_str(), r.flag, r.t1, r.t2, r.t3, s.DEC, d2, told);
    VH_CHECK(second > 1e-3L || std::fabs(da) <= tola, "tycho-position", "%s flag '%c' of %d-%d-%d: right ascension %.12g instead of %.12Lg at declination %.6Lg (tolerance %.2Lg)", where.c_str(), r.flag, r.t1, r.t2, r.t3, s.RA, a2, d2, tola);
    VH_CHECK(s.pmRA == static_cast<float>(pa) && s.pmDEC == static_cast<float>(pd), "tycho-motion", "%s: proper motion %g,%g instead of %Lg,%Lg", where.c_str(), s.pmRA, s.pmDEC, pa, pd);
    bool hb = !std::isnan(r.bt), hv = !std::isnan(r.vt);
    LD v = hb && hv ? r.vt - 0.09L * (r.bt - r.vt) : hv ? r.vt : r.bt, bv = hb && hv ? 0.85L * (r.bt - r.vt) : 0.3L;
    VH_CHECK(std::fabs(s.visual_magnitude - v) < 2e-6L, "tycho-magnitude", "%s: magnitude %.8g instead of %.8Lg (BT %g VT %g)", where.c_str(), s.visual_magnitude, v, r.bt, r.vt);
    VH_CHECK(s.temperature > 0 && std::isfinite(s.temperature) && s.solid_angle > 0 && std::isfinite(s.solid_angle), "tycho-unphysical", "%s: BT %g VT %g gives %g K over %g sr", where.c_str(), r.bt, r.vt, s.temperature, s.solid_angle);
    if (bv > -0.59L) {
        LD T = 4600 * (1 / (0.92L * bv + 1.7L) + 1 / (0.92L * bv + 0.62L));
        VH_CHECK(std::fabs(s.temperature / T - 1) < 1e-5L, "tycho-temperature", "%s: %g K instead of %Lg for a colour of %Lg", where.c_str(), s.temperature, T, bv);
    }
    // the apparent disc reproduces the V magnitude
    static LD lam[400], w[400];
    static bool once = [] { for (int i = 0; i < 400; ++i) { lam[i] = 351e-9L + 498e-9L * i / 399; LD d = lam[i] - 551e-9L; w[i] = std::exp(-d * d / (2 * 38e-9L * 38e-9L)) * 498e-9L / 399; } return true; }();
    (void)once;
    if (s.temperature > 0) {
        LD photons = 0;
        const LD h = 6.62607015e-34L, c = 299792458.0L, k = 1.380649e-23L;
        LD T = s.temperature;
        for (int i = 0; i < 400; ++i) photons += w[i] * 2 * c / std::pow(lam[i], 4.0L) / std::expm1(h * c / (lam[i] * k * T));
        LD want = 8.75e9L * std::pow(10.0L, -0.4L * v), got = photons * s.solid_angle;
        VH_CHECK(std::fabs(got / want - 1) < 2e-4L, "tycho-brightness", "%s: the disc sends %.6Lg V photons instead of %.6Lg (magnitude %Lg, %Lg K)", where.c_str(), got, want, v, T);
    }
    vh::distinct(vh::hash(r.t1, r.t2, r.t3, s.RA, s.DEC));
}

static void tycho(Rng& R, long id)
{
    bool suppl = R.chance(0.35);
    int n = R.chance(0.1) ? 0 : R.i(1, 25);
    std::vector<Rec> recs;
    std::string text;
    std::string eol = R.chance(0.3) ? "\r\n" : "\n";
    for (int i = 0; i < n; ++i) {
        if (R.chance(0.05)) text += (R.chance(0.5) ? "" : R.chance(0.5) ? "# comment" : " 0001 00001 1") + eol;
        Rec r = make(R, suppl);
        bool cr = r.good && eol == "\n" && R.chance(0.05);
        text += r.line + (cr ? "\r" : "") + (i + 1 == n && R.chance(0.4) ? "" : eol);
        recs.push_back(r);
    }
    std::string p = vh::scratch("t.dat");
    { std::ofstream f(p, std::ios::binary); f << text; }
    vh::cur("tycho file %ld with %d records", id, n);
    std::vector<StarData> got;
    bool threw = vh::throws([&] { got = suppl ? read_tycho2_suppl(p) : read_tycho2_dat(p); });
    VH_CHECK(!threw, "tycho-throws", "a readable file of %d records was refused", n);
    std::size_t good = 0; for (auto& r : recs) good += r.good;
    VH_CHECK(threw || got.size() == good, "tycho-count", "%zu stars of %zu usable and %zu unusable records%s", got.size(), good, recs.size() - good, text.empty() || text.back() == '\n' ? "" : " (no final newline)");
    vh::ev();
    if (got.size() == good) {
        std::size_t k = 0;
        for (auto& r : recs) if (r.good) check_star(r, got[k++], suppl, suppl ? "suppl" : "dat");
    }
    vh::count(suppl ? "supplement files" : "main files");
    if (id < 3) vh::sample(recs.empty() ? "empty file" : recs[0].line.substr(0, 60));
    // garbage
    if (R.chance(0.3)) {
        std::string g = text;
        for (int i = 0; i < 20 && !g.empty(); ++i) {
            std::size_t at = R.below(g.size());
            switch (R.i(0, 3)) { case 0: g[at] = static_cast<char>(R.below(256)); break; case 1: g.erase(at, R.below(40)); break; case 2: g.insert(at, std::string(R.below(30), "0123456789.-+eE|nai \n"[R.below(21)])); break; default: g[at] = "0123456789.-e \n"[R.below(15)]; }
        }
        { std::ofstream f(p, std::ios::binary); f << g; }
        vh::cur_bytes(g.data(), g.size());
        (void)vh::throws([&] { got = suppl ? read_tycho2_suppl(p) : read_tycho2_dat(p); });
        VH_CHECK(got.size() <= static_cast<std::size_t>(std::count(g.begin(), g.end(), '\n')) + 1, "tycho-garbage", "%zu stars came from a damaged file of fewer lines", got.size());
        vh::ev();
        vh::count("damaged files");
    }
    fs::remove(p);
    VH_CHECK(vh::throws([&] { read_tycho2_dat(p); }) && vh::throws([&] { read_tycho2_suppl(p); }), "tycho-missing", "a missing file was read");
}

static bool same(const StarData& a, const StarData& b)
{
    return a.id == b.id && a.RA == b.RA && a.DEC == b.DEC && a.pmRA == b.pmRA && a.pmDEC == b.pmDEC && a.solid_angle == b.solid_angle && a.temperature == b.temperature && (a.visual_magnitude == b.visual_magnitude || (std::isnan(a.visual_magnitude) && std::isnan(b.visual_magnitude)));
}
static bool same_set(std::vector<StarData> a, std::vector<StarData> b)
{
    auto key = [](const StarData& x, const StarData& y) { return std::tie(x.id, x.RA, x.DEC) < std::tie(y.id, y.RA, y.DEC); };
    std::sort(a.begin(), a.end(), key); std::sort(b.begin(), b.end(), key);
    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), same);
}
static std::string bytes(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

static void catalogue(Rng& R, long id)
{
    int n = R.chance(0.1) ? 0 : R.chance(0.1) ? R.i(300, 2000) : R.i(1, 60);
    std::vector<StarData> stars;
    double nanp = R.chance(0.3) ? 0.2 : 0;
    for (int i = 0; i < n; ++i) {
        StarData s{};
        s.id = pack_tycho2_id(static_cast<std::uint16_t>(R.i(0, 0x3FFF)), static_cast<std::uint16_t>(R.i(0, 0xFFFF)), static_cast<std::uint8_t>(R.i(0, 15)));
        s.RA = R.u(0, 6.2832); s.DEC = R.u(-1.57, 1.57); s.pmRA = static_cast<float>(R.u(-900, 900)); s.pmDEC = static_cast<float>(R.u(-900, 900));
        s.solid_angle = R.lu(1e-22, 1e-12); s.temperature = static_cast<float>(R.u(2000, 30000));
        s.visual_magnitude = R.chance(nanp) ? NAN : R.chance(0.3) ? static_cast<float>(R.i(-1, 12)) : static_cast<float>(R.u(-2, 14));
        stars.push_back(s);
    }
    vh::cur("catalogue %ld of %d stars", id, n);
    auto tag = R.chance(0.6) ? CatalogType::Tycho2 : CatalogType::Unknown;
    StarCatalog c(stars);
    if (R.chance(0.3)) { StarCatalog d; for (auto& s : stars) d.add_star(s); c = d; }
    c.set_catalog_type(tag);
    std::string p = vh::scratch("c.hrsc");
    c.write_star_data(p);
    VH_CHECK(same_set(c.get_star_data(), stars) && c.size() == stars.size(), "write-changes", "writing changed the catalogue");
    std::vector<StarData> valid;
    for (auto& s : stars) if (!std::isnan(s.visual_magnitude)) valid.push_back(s);
    for (int t = 0; t < 4; ++t) {
        float lim = t == 0 ? std::numeric_limits<float>::infinity() : static_cast<float>(R.u(-3, 15));
        if (t && !valid.empty() && R.chance(0.7)) { lim = valid[R.below(valid.size())].visual_magnitude; if (R.chance(0.3)) lim = std::nextafter(lim, R.chance(0.5) ? -99.f : 99.f); }
        if (t == 3 && R.chance(0.2)) lim = -std::numeric_limits<float>::infinity();
        StarCatalog got;
        bool threw = vh::throws([&] { got = t == 0 && R.chance(0.5) ? StarCatalog::read_star_data(p) : StarCatalog::read_star_data(p, lim); });
        std::vector<StarData> want;
        for (auto& s : valid) if (s.visual_magnitude <= lim) want.push_back(s);
        vh::ev();
        VH_CHECK(!threw && same_set(got.get_star_data(), want), "catalogue-content", "limit %.8g of %zu stars gave %zu instead of %zu", lim, valid.size(), got.size(), want.size());
        bool sorted = true;
        for (std::size_t i = 1; i < got.size(); ++i) sorted &= got[i - 1].visual_magnitude <= got[i].visual_magnitude;
        VH_CHECK(sorted, "catalogue-order", "a catalogue read back is not sorted by magnitude");
        StarCatalog cl = c;
        cl.clip_by_magnitude(lim);
        VH_CHECK(same_set(cl.get_star_data(), want), "clip", "clipping at %.8g kept %zu of %zu stars instead of %zu", lim, cl.size(), c.size(), want.size());
        if (!got.empty()) {
            std::size_t k = R.below(got.size());
            std::uint64_t v = got[k].id;
            std::string e = tag == CatalogType::Tycho2 ? vh::fmt("TYC %u-%u-%u", static_cast<unsigned>((v >> 20) & 0x3FFF), static_cast<unsigned>((v >> 4) & 0xFFFF), static_cast<unsigned>(v & 15)) : std::to_string(v);
            VH_CHECK(got.get_star_id(k) == e, "catalogue-id", "star %zu is called %s instead of %s", k, got.get_star_id(k).c_str(), e.c_str());
        }
        VH_CHECK(vh::throws([&] { (void)got.get_star_id(got.size()); }), "catalogue-id", "an index past the end has an identifier");
        vh::distinct(vh::hash(id, t, lim, got.size()));
    }
    { // sorting in memory, missing magnitudes last
        StarCatalog s = c;
        s.sort();
        bool ok = same_set(s.get_star_data(), stars);
        for (std::size_t i = 1; i < s.size() && ok; ++i) { float a = s[i - 1].visual_magnitude, b = s[i].visual_magnitude; ok = std::isnan(b) || a <= b; }
        VH_CHECK(ok, "sort", "a catalogue of %d stars with missing magnitudes was not sorted", n);
        vh::ev();
    }
    // damage
    std::string good = bytes(p);
    for (int t = 0; t < 6; ++t) {
        std::string b = good;
        bool must = false;
        const char* what = "";
        switch (R.i(0, 5)) {
        case 0: b.resize(R.below(b.size())); must = true; what = "truncated"; break;
        case 1: b[R.below(4)] ^= static_cast<char>(1 + R.below(255)); must = true; what = "bad magic"; break;
        case 2: { std::uint64_t z = R.chance(0.3) ? ~0ull : R.chance(0.3) ? 1ull << 62 : R.chance(0.5) ? 0x0555555555555556ull : valid.size() + 1 + R.below(1000); std::memcpy(&b[offsetof(HrscHeader, star_count)], &z, 8); must = true; what = "too many stars claimed"; break; }
        case 3: b[offsetof(HrscHeader, version)] = static_cast<char>(R.i(2, 255)); must = true; what = "another version"; break;
        case 4: for (int k = 0; k < 8; ++k) b[R.below(b.size())] ^= static_cast<char>(R.below(256)); what = "noise"; break;
        default: b.resize(b.size() - std::min<std::size_t>(b.size() - 1, 1 + R.below(48))); must = true; what = "last star cut"; break;
        }
        std::string q = vh::scratch("d.hrsc");
        { std::ofstream f(q, std::ios::binary); f << b; }
        vh::cur("catalogue %ld of %zu stars, %s", id, valid.size(), what);
        StarCatalog got;
        float lim = R.chance(0.5) ? std::numeric_limits<float>::infinity() : static_cast<float>(R.u(-3, 15));
        bool threw = vh::throws([&] { got = StarCatalog::read_star_data(q, lim); });
        vh::ev();
        VH_CHECK(threw || !must, "catalogue-accepts-bad", "a file of %zu stars (%s) was read as %zu stars", valid.size(), what, got.size());
        VH_CHECK(threw || got.size() * sizeof(StarData) <= b.size(), "catalogue-invents", "%zu stars came from %zu bytes", got.size(), b.size());
        fs::remove(q);
        vh::count("damaged catalogues");
    }
    // faults while writing and opening
    if (R.chance(0.2)) {
        VH_CHECK(vh::throws([&] { c.write_star_data("/dev/full"); }), "write-fault", "writing %zu stars to a full disk was not reported", valid.size());
        VH_CHECK(vh::throws([&] { c.write_star_data(vh::scratch("no/such/dir/x.hrsc")); }), "write-fault", "writing to a missing folder was not reported");
        VH_CHECK(vh::throws([&] { StarCatalog::read_star_data(vh::scratch("none.hrsc")); }) && vh::throws([&] { StarCatalog::read_star_data(vh::scratch("")); }), "read-fault", "a missing file or a folder was read");
        vh::count("write faults");
    }
    fs::remove(p);
}

static void ids(Rng& R)
{
    for (int k = 0; k < 50; ++k) {
        auto a = static_cast<std::uint16_t>(R.i(0, 0x3FFF)); auto b = static_cast<std::uint16_t>(R.chance(0.2) ? 0xFFFF : R.i(0, 0xFFFF)); auto c = static_cast<std::uint8_t>(R.i(0, 15));
        std::uint16_t x, y; std::uint8_t z;
        unpack_tycho2_id(pack_tycho2_id(a, b, c), x, y, z);
        vh::ev();
        VH_CHECK(x == a && y == b && z == c, "id-roundtrip", "%u-%u-%u unpacks as %u-%u-%u", a, b, c, x, y, z);
    }
}

template <class S> static void star(Rng& R)
{
    StarData s{};
    s.RA = R.u(0, 6.2831853); s.DEC = R.chance(0.2) ? (R.chance(0.5) ? 1 : -1) * (1.5707963 - R.lu(1e-6, 1e-2)) : std::asin(R.u(-1, 1));
    double m = R.chance(0.3) ? 10000 : 100;
    s.pmRA = static_cast<float>(R.u(-m, m)); s.pmDEC = static_cast<float>(R.u(-m, m));
    s.temperature = static_cast<float>(R.u(1500, 40000)); s.solid_angle = R.lu(1e-22, 1e-12);
    double years = R.chance(0.2) ? 0 : R.u(-150, 150);
    LD a = s.RA, d = s.DEC, mu_a = static_cast<LD>(s.pmRA) * MAS * years, mu_d = static_cast<LD>(s.pmDEC) * MAS * years;
    LD x = std::cos(d) * std::cos(a) - std::sin(a) * mu_a - std::sin(d) * std::cos(a) * mu_d, y = std::cos(d) * std::sin(a) + std::cos(a) * mu_a - std::sin(d) * std::sin(a) * mu_d, z = std::sin(d) + std::cos(d) * mu_d;
    LD l = std::sqrt(x * x + y * y + z * z), mu2 = mu_a * mu_a + mu_d * mu_d, tol = 1e-14L + 2 * mu2 / std::max(1e-9L, std::cos(d));
    auto judge = [&](const Star<S>& t, const char* how) {
        Vec3<double> g = t.get_direction();
        LD e = std::sqrt((g.x - x / l) * (g.x - x / l) + (g.y - y / l) * (g.y - y / l) + (g.z - z / l) * (g.z - z / l));
        vh::ev();
        VH_CHECK(tol > 0.1L || e <= tol, "star-direction", "%s: RA %g DEC %g moved by %g,%g mas/yr for %g years is off by %.3Lg (tolerance %.3Lg)", how, s.RA, s.DEC, s.pmRA, s.pmDEC, years, e, tol);
    };
    Star<S> t(s, years);
    judge(t, "constructed");
    StarData other = s; other.RA += 1;
    Star<S> u(other, 3.0);
    u.update_direction(s, years);
    judge(u, "updated");
    S bb = black_body<S>(static_cast<double>(s.temperature));
    for (std::size_t i = 0; i < S::size(); ++i) {
        double e = static_cast<double>(bb[i]) * s.solid_angle;
        VH_CHECK(std::abs(static_cast<double>(t.get_irradiance()[i]) - e) <= 1e-6 * e + 1e-44, "star-irradiance", "band %zu: %g instead of %g", i, static_cast<double>(t.get_irradiance()[i]), e);
    }
    Time when = Time::from_et(R.u(-3e9, 3e9));
    Star<S> v(s, when), w(s, when.julian_years_since_j2000(TimeScale::TT));
    VH_CHECK(glm::distance(v.get_direction(), w.get_direction()) < 1e-15, "star-time", "an epoch and its years since J2000 give different directions");
    Star<S> q(s, 0.0); q.update_direction(s, when);
    VH_CHECK(glm::distance(v.get_direction(), q.get_direction()) < 1e-15, "star-time", "construction and update differ");
    { // bringing a catalogue entry to J2000 moves each coordinate by its own motion over its own years
        StarData n = s; double ea = R.chance(0.4) ? 2000.0 : R.u(1950, 2050), ed = R.chance(0.4) ? 2000.0 : R.u(1950, 2050); n.normalize_epoch(ea, ed); vh::ev();
        const LD mas = PIl / (180.0L * 3600 * 1000); LD nd = s.DEC + static_cast<LD>(s.pmDEC) * mas * (2000 - ed), step = static_cast<LD>(s.pmRA) * mas * (2000 - ea), c = std::min(std::cos(static_cast<LD>(s.DEC)), std::cos(nd));
        VH_CHECK(std::fabs(n.DEC - nd) <= 2e-15L, "star-epoch", "declination %.17g with %g mas/yr from %g becomes %.17g instead of %.17Lg", s.DEC, s.pmDEC, ed, n.DEC, nd);
        if (c > 1e-3L) VH_CHECK(std::fabs(n.RA - s.RA - step / std::cos(nd)) <= 1e-14L + std::fabs(step) * std::fabs(1 / std::cos(nd) - 1 / std::cos(static_cast<LD>(s.DEC))), "star-epoch", "right ascension %.17g with %g mas/yr from %g becomes %.17g (declination %g)", s.RA, s.pmRA, ea, n.RA, s.DEC);
        VH_CHECK(n.pmRA == s.pmRA && n.pmDEC == s.pmDEC && n.id == s.id && n.temperature == s.temperature && n.solid_angle == s.solid_angle, "star-epoch", "normalising the epoch changes other data");
    }
    vh::distinct(vh::hash(s.RA, s.DEC, years));
}

// the converter command
static void convert(Rng& R, long id)
{
    using namespace huira::cli;
    fs::path in = vh::scratch(vh::fmt("in%ld", id)), out = R.chance(0.5) ? in : fs::path(vh::scratch(vh::fmt("out%ld", id)));
    fs::create_directories(in); fs::create_directories(out);
    std::vector<Rec> all;
    int missing = R.chance(0.3) ? R.i(0, 21) : -1, no = 0;
    auto file = [&](const std::string& name, bool suppl) {
        if (no++ == missing) return;
        std::ofstream f(in / name, std::ios::binary);
        for (int i = R.i(0, 4); i > 0; --i) { Rec r = make(R, suppl); f << r.line << "\n"; if (r.good) all.push_back(r); }
    };
    for (auto& n : tycho2::tycho2_dat_files) file(n, false);
    for (auto& n : tycho2::tycho2_suppl_files) file(n, true);
    std::ofstream(in / "mine.dat") << "keep";
    bool clean = R.chance(0.6), full = R.chance(0.3);
    if (full) fs::create_symlink("/dev/full", out / "tycho2.hrsc");
    Context ctx; ctx.verbose = R.chance(0.5);
    auto count = [&] { std::size_t k = 0; for (auto& n : tycho2::tycho2_dat_files) k += fs::exists(in / n); for (auto& n : tycho2::tycho2_suppl_files) k += fs::exists(in / n); return k; };
    std::size_t before = count();
    int rc = -1;
    vh::cur("convert %ld: %zu records, missing %d, clean %d, full %d", id, all.size(), missing, clean, full);
    bool threw = vh::throws([&] { rc = tycho2::process_tycho2(in, out, ctx, clean); });
    vh::ev();
    bool should = missing < 0 && !full;
    VH_CHECK((!threw && rc == 0) == should, "convert-status", "converting with file %d missing%s returned %d", missing, full ? " to a full disk" : "", rc);
    VH_CHECK(count() == (should && clean ? 0 : before), "convert-clean", "converting (%s, %s) left %zu of %zu input files", should ? "done" : "failed", clean ? "clean" : "no clean", count(), before);
    VH_CHECK(bytes((in / "mine.dat").string()) == "keep", "convert-clean", "another file was removed");
    if (should) {
        StarCatalog c;
        bool t2 = vh::throws([&] { c = StarCatalog::read_star_data(out / "tycho2.hrsc"); });
        std::multiset<std::string> want, got;
        for (auto& r : all) want.insert(vh::fmt("TYC %d-%d-%d", r.t1, r.t2, r.t3));
        for (std::size_t i = 0; i < c.size(); ++i) got.insert(c.get_star_id(i));
        VH_CHECK(!t2 && got == want, "convert-content", "%zu stars were converted instead of %zu", got.size(), want.size());
    }
    vh::count("conversions");
    vh::distinct(vh::hash(id, all.size(), missing));
    fs::remove_all(in); fs::remove_all(out);
}

static void body()
{
    Rng R(vh::seed());
    cs::unload_all();
    for (long i = 0; i < vh::n(250, 12000); ++i) { vh::watchdog(60); tycho(R, i); }
    for (long i = 0; i < vh::n(200, 8000); ++i) { vh::watchdog(60); catalogue(R, i); ids(R); }
    for (long i = 0; i < vh::n(2000, 100000); ++i) { vh::watchdog(60); vh::cur("star %ld", i); star<RGB>(R); if (i % 8 == 0) star<Visible8>(R); }
    for (long i = 0; i < vh::n(15, 600); ++i) { vh::watchdog(60); convert(R, i); }
}
VH_MAIN(body())
