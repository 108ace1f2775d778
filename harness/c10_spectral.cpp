// C10: spectral bins against exact long-double integration, over several bin layouts.
#include "vh.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/core/physics.hpp"
using namespace huira;
using LD = long double;
static vh::Rng R(1);
static float val() { switch (R.below(6)) { case 0: return 0; case 1: return (float)R.u(-10, 10); case 2: return (float)R.lu(1e-20, 1e20); case 3: return 1; default: return R.f(); } }
static bool feq(float a, LD b, LD scale = 0) { return std::fabs((LD)a - b) <= 2e-6L * std::max(std::fabs(b), scale) + 1e-37L; }
// exact mean of the piecewise-linear table over [a,b] (nm), only where the table covers it
static LD pl_mean(const std::vector<double>& w, const std::vector<float>& v, LD a, LD b)
{
    auto at = [&](LD x) -> LD { for (size_t k = 1; k < w.size(); ++k) if (x <= w[k]) { LD t = (x - w[k - 1]) / ((LD)w[k] - w[k - 1]); return v[k - 1] * (1 - t) + v[k] * t; } return v.back(); };
    std::vector<LD> xs{a, b}; for (double x : w) if (x > a && x < b) xs.push_back(x);
    std::sort(xs.begin(), xs.end()); LD s = 0;
    for (size_t i = 1; i < xs.size(); ++i) s += (at(xs[i - 1]) + at(xs[i])) / 2 * (xs[i] - xs[i - 1]);
    return s / (b - a);
}
template <class S> void layout(const char* name, const std::vector<std::pair<double, double>>& bins)
{
    constexpr size_t N = S::size();
    VH_CHECK(bins.size() == N, "layout-size", "%s", name);
    auto all = S::get_all_bins();
    for (size_t i = 0; i < N; ++i) {
        auto b = S::get_bin(i); vh::ev();
        VH_CHECK(vh::near(b.min_wavelength, bins[i].first * 1e-9, 1e-13) && vh::near(b.max_wavelength, bins[i].second * 1e-9, 1e-13) && vh::near(b.center_wavelength, (bins[i].first + bins[i].second) * .5e-9, 1e-13) && all[i].min_wavelength == b.min_wavelength, "bin-edges", "%s bin %zu [%g,%g]", name, i, b.min_wavelength, b.max_wavelength);
    }
    auto pe = S::photon_energies();
    for (size_t i = 0; i < N; ++i) { LD c = (bins[i].first + bins[i].second) / 2 * 1e-9L; VH_CHECK(vh::near(pe[i] / (6.62607015e-34 * 299792458.0), 1 / (double)c, 1e-6), "photon-energies", "%s bin %zu: %g", name, i, pe[i]); }
    for (long it = 0; it < vh::n(800, 60000); ++it) {
        S a, b; for (size_t i = 0; i < N; ++i) { a[i] = val(); b[i] = val(); }
        float k = val(); vh::cur("%s a=%s b=%s k=%g", name, a.to_string().c_str(), b.to_string().c_str(), k);
        vh::distinct(vh::hash(a[0], b[0], a[N - 1], k)); vh::ev();
        S add = a + b, sub = a - b, mul = a * b, div = a / b, sk = a * k, ks = k * a, ak = a + k, ka = k + a, sbk = a - k, kmb = k - a, dk = a / k, kd = k / a, neg = -a, pos = +a;
        S p1 = a, p2 = a, p3 = a, p4 = a, q1 = a, q2 = a, q3 = a, q4 = a; p1 += b; p2 -= b; p3 *= b; p4 /= b; q1 += k; q2 -= k; q3 *= k; q4 /= k;
        auto same = [](float x, float y) { return x == y || (std::isnan(x) && std::isnan(y)); };
        for (size_t i = 0; i < N; ++i) {
            float x = a[i], y = b[i];
            bool ok = same(add[i], x + y) && same(sub[i], x - y) && same(mul[i], x * y) && same(div[i], x / y) && same(sk[i], x * k) && same(ks[i], k * x) && same(ak[i], x + k) && same(ka[i], x + k) && same(sbk[i], x - k) && same(kmb[i], k - x) && same(dk[i], x / k) && same(kd[i], k / x) && neg[i] == -x && pos[i] == x && same(p1[i], x + y) && same(p2[i], x - y) && same(p3[i], x * y) && same(p4[i], x / y) && same(q1[i], x + k) && same(q2[i], x - k) && same(q3[i], x * k) && same(q4[i], x / k);
            VH_CHECK(ok, "elementwise", "%s element %zu x=%g y=%g k=%g", name, i, x, y, k);
        }
        LD tot = 0, at = 0, m2 = 0, in = 0; float mx = a[0], mn = a[0]; bool neg_ = false, over = false;
        for (size_t i = 0; i < N; ++i) { tot += a[i]; at += std::fabs((LD)a[i]); m2 += (LD)a[i] * a[i]; in += (LD)a[i] * (bins[i].second - bins[i].first) * 1e-9L; mx = std::max(mx, a[i]); mn = std::min(mn, a[i]); neg_ |= a[i] < 0; over |= a[i] > 1; }
        VH_CHECK(feq(a.total(), tot, at), "total", "%s %s total %g", name, a.to_string().c_str(), a.total());
        VH_CHECK(a.max() == mx && a.min() == mn, "extrema", "%s", name);
        if (m2 < 1e37L && (m2 == 0 || m2 > 1e-30L)) VH_CHECK(std::fabs((LD)a.magnitude() - std::sqrt(m2)) <= 2e-6L * std::sqrt(m2), "magnitude", "%s %g want %Lg", name, a.magnitude(), std::sqrt(m2));
        VH_CHECK(std::fabs((LD)a.integrate() - in) <= 3e-6L * at * 1e-6L + 1e-37L, "integrate", "%s %g want %Lg", name, a.integrate(), in);
        VH_CHECK(a.valid() == !neg_ && a.valid_ratio() == (!neg_ && !over), "valid", "%s %s", name, a.to_string().c_str());
        { S c = a; static const float bad[] = {NAN, INFINITY, -INFINITY}; c[R.below(N)] = bad[R.below(3)]; VH_CHECK(!c.valid() && !c.valid_ratio(), "valid-nonfinite", "%s", name); }
        { S c = b; for (auto& x : c) x = std::fabs(x); S r = c.sqrt(); for (size_t i = 0; i < N; ++i) VH_CHECK(feq(r[i], std::sqrt((LD)c[i])), "sqrt", "%s", name); }
        VH_CHECK((a == a) && !(a != a), "equality", "%s", name);
        { S c = a; size_t i = R.below(N); c[i] = c[i] + 1 + std::fabs(c[i]); VH_CHECK(a != c && !(a == c), "inequality", "%s", name); }
        // from_total: sums back, proportional to width
        float t = (float)R.lu(1e-6, 1e9); S f = S::from_total(t); LD w = 0; for (auto& p : bins) w += p.second - p.first;
        VH_CHECK(feq(f.total(), t), "from-total", "%s from_total(%g).total()=%g", name, t, f.total());
        for (size_t i = 0; i < N; ++i) VH_CHECK(feq(f[i], (LD)t * (bins[i].second - bins[i].first) / w), "from-total-share", "%s bin %zu", name, i);
        // integrate_over_band: exact overlap, additive
        { double lo = R.u(200, 2600), hi = lo + R.lu(.1, 2000), mid = R.u(lo, hi); S c; for (auto& x : c) x = R.f();
          auto want = [&](double p, double q) { LD s = 0; for (size_t i = 0; i < N; ++i) { LD o = std::min((LD)bins[i].second, (LD)q) - std::max((LD)bins[i].first, (LD)p); if (o > 0) s += o * 1e-9L * c[i]; } return s; };
          float g = c.integrate_over_band(lo * 1e-9, hi * 1e-9), g1 = c.integrate_over_band(lo * 1e-9, mid * 1e-9), g2 = c.integrate_over_band(mid * 1e-9, hi * 1e-9);
          VH_CHECK(std::fabs((LD)g - want(lo, hi)) <= 1e-12L, "band", "%s band [%g,%g]: %g want %Lg", name, lo, hi, g, want(lo, hi));
          VH_CHECK(std::fabs((LD)g1 + g2 - g) <= 2e-12L, "band-additive", "%s", name);
          vh::ev(3); }
        // tables covering every bin: exact mean
        { double lo = 1e9, hi = 0; for (auto& p : bins) { lo = std::min(lo, p.first); hi = std::max(hi, p.second); }
          std::vector<double> wl; std::vector<float> v, v2; int m = R.i(2, 40); std::set<double> xs;
          xs.insert(lo - (R.chance(.3) ? 0 : R.lu(1e-3, 300))); xs.insert(hi + (R.chance(.3) ? 0 : R.lu(1e-3, 300)));
          while ((int)xs.size() < m) xs.insert(R.chance(.15) ? (R.chance(.5) ? bins[R.below(N)].first : bins[R.below(N)].second) : R.u(lo - 50, hi + 50));
          for (double x : xs) { wl.push_back(x); v.push_back((float)R.u(0, 5)); v2.push_back((float)R.u(0, 5)); }
          // edges are recomputed as nm*1e-9*1e9 by the library; covering end points get a hair of slack
          wl.front() -= 1e-9; wl.back() += 1e-9;
          S g = S::integrate_over_data(wl, v);
          std::vector<float> vl(v.size()); for (size_t i = 0; i < v.size(); ++i) vl[i] = 2 * v[i] + v2[i];
          S g2 = S::integrate_over_data(wl, v2), gl = S::integrate_over_data(wl, vl);
          for (size_t i = 0; i < N; ++i) {
              LD want = pl_mean(wl, v, bins[i].first, bins[i].second); vh::ev();
              VH_CHECK(std::fabs((LD)g[i] - want) <= 1e-5L * 5, "table-mean", "%s bin %zu: %g want %Lg (%zu points)", name, i, g[i], want, wl.size());
              VH_CHECK(std::fabs((LD)gl[i] - 2 * (LD)g[i] - g2[i]) <= 1e-4L, "table-linear", "%s bin %zu", name, i);
          }
          // a table that ends before the bin or starts after it contributes nothing
          std::vector<double> wb{lo - 100, lo - 60, lo - 50}; std::vector<float> vb{1, 2, 3}; S z = S::integrate_over_data(wb, vb); VH_CHECK(z == S(0.f), "table-below", "%s %s", name, z.to_string().c_str());
          std::vector<double> wa{hi + 50, hi + 60}; std::vector<float> va{1, 2}; S z2 = S::integrate_over_data(wa, va); VH_CHECK(z2 == S(0.f), "table-above", "%s %s", name, z2.to_string().c_str());
          // malformed tables
          auto wbad = wl; auto vbad = v; switch (R.below(4)) { case 0: vbad.pop_back(); break; case 1: { size_t i = R.below(wbad.size() - 1); std::swap(wbad[i], wbad[i + 1]); break; } case 2: { size_t i = R.below(wbad.size() - 1); wbad[i + 1] = wbad[i]; break; } default: wbad.clear(); vbad.clear(); }
          VH_CHECK(vh::throws([&] { (void)S::integrate_over_data(wbad, vbad); }), "malformed-table-accepted", "%s", name); vh::count("malformed-tables"); }
        // RGB conversion
        { RGB rgb{R.f(), R.f(), R.f()}; if (R.chance(.3)) rgb = RGB((float)R.u()); 
          S s = convert_rgb_to_spectral<S>(rgb); float c0 = std::min({rgb[0], rgb[1], rgb[2]}), c1 = std::max({rgb[0], rgb[1], rgb[2]});
          static const double E[3][2] = {{600, 750}, {500, 600}, {380, 500}};
          bool inside = true; double lo = 1e9, hi = 0; for (auto& p : bins) { inside &= p.first >= 380 && p.second <= 750; lo = std::min(lo, p.first); hi = std::max(hi, p.second); }
          double ov = std::min(hi, 750.) - std::max(lo, 380.);
          for (size_t i = 0; i < N; ++i) if (inside) {
              LD want = 0; for (int c = 0; c < 3; ++c) { LD o = std::min(bins[i].second, E[c][1]) - std::max(bins[i].first, E[c][0]); if (o > 0) want += o * rgb[c]; } want /= bins[i].second - bins[i].first;
              vh::ev();
              VH_CHECK(s[i] >= c0 - 1e-5f && s[i] <= c1 + 1e-5f, "rgb-range", "%s bin %zu %g outside [%g,%g]", name, i, s[i], c0, c1);
              if (ov > 37.5) VH_CHECK(std::fabs((LD)s[i] - want) < 1e-5L, "rgb-mean", "%s bin %zu: %g want %Lg of rgb %s", name, i, s[i], want, rgb.to_string().c_str());
          }
          if (ov <= 0) for (size_t i = 0; i < N; ++i) { vh::ev(); VH_CHECK(std::fabs(s[i] - ((LD)rgb[0] + rgb[1] + rgb[2]) / 3) < 1e-5L, "rgb-unseen", "%s bin %zu, which shares no wavelength with the colour: %g of rgb %s, not its mean", name, i, s[i], rgb.to_string().c_str()); }
        }
    }
    S one(2.5f); for (auto x : one) VH_CHECK(x == 2.5f, "fill-ctor", "%s", name);
    S z; for (auto x : z) VH_CHECK(x == 0.f, "default-zero", "%s", name);
    one.fill(1.5f); VH_CHECK(one.front() == 1.5f && one.back() == 1.5f && one.at(N - 1) == 1.5f && vh::throws([&] { (void)one.at(N); }), "access", "%s", name);
    vh::count("layouts");
}
void body()
{
    R = vh::Rng(vh::seed());
    auto uni = [](int n, double a, double b) { std::vector<std::pair<double, double>> v; for (int i = 0; i < n; ++i) v.push_back({a + i * (b - a) / n, a + (i + 1) * (b - a) / n}); return v; };
    layout<RGB>("RGB", {{600, 750}, {500, 600}, {380, 500}});
    layout<Visible8>("Visible8", uni(8, 380, 750));
    layout<SWIR8>("SWIR8", uni(8, 900, 2500));
    layout<SpectralBins<3, 1900, 2300, 760, 900, 1200, 1250>>("Infrared3", {{1900, 2300}, {760, 900}, {1200, 1250}});
    layout<UniformSpectralBins<1, 400, 700>>("Uniform1", uni(1, 400, 700));
    layout<UniformSpectralBins<13, 300, 1100>>("Uniform13", uni(13, 300, 1100));
    layout<SpectralBins<4, 400, 450, 500, 600, 700>>("Edges4", {{400, 450}, {450, 500}, {500, 600}, {600, 700}});
    layout<SpectralBins<3, 700, 740, 400, 430, 520, 525>>("Gaps3", {{700, 740}, {400, 430}, {520, 525}});
    layout<SpectralBins<2, 400, 480, 500, 580>>("Blue2", {{400, 480}, {500, 580}});
    layout<SpectralBins<3, 550, 590, 450, 500, 385, 440>>("Descending3", {{550, 590}, {450, 500}, {385, 440}});
    vh::sample("Descending3 bins 550-590,450-500,385-440 nm: table mean over 17 random points, exact in long double");
}
VH_MAIN(body())
