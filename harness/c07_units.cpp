// C07: unit arithmetic against long-double SI bookkeeping over every pair of units of a dimension.
#include "vh.hpp"
#include "huira/units/units.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira::units;
using namespace huira::units::literals;
using LD = long double;
static const LD PIL = 3.14159265358979323846264338327950288L;
struct U { LD f, off; const char* name; bool offset; };
template <class Q> struct Info;
#define UNIT(Q, F) template <> struct Info<Q> { static constexpr bool off = false; static LD si(LD v) { return v * (LD)(F); } static LD un(LD s) { return s / (LD)(F); } static const char* n() { return #Q; } };
UNIT(Kilometer, 1000.0L) UNIT(Meter, 1.0L) UNIT(Centimeter, 1e-2L) UNIT(Millimeter, 1e-3L) UNIT(Micrometer, 1e-6L) UNIT(Nanometer, 1e-9L)
UNIT(AstronomicalUnit, 149597870700.0L) UNIT(Foot, 0.3048L) UNIT(Yard, 0.9144L) UNIT(Mile, 1609.344L)
UNIT(Kilogram, 1.0L) UNIT(Gram, 1e-3L) UNIT(Milligram, 1e-6L)
UNIT(SiderealDay, 86164.0905L) UNIT(Day, 86400.0L) UNIT(Hour, 3600.0L) UNIT(Minute, 60.0L) UNIT(Second, 1.0L) UNIT(Millisecond, 1e-3L) UNIT(Microsecond, 1e-6L) UNIT(Nanosecond, 1e-9L) UNIT(Femtosecond, 1e-15L)
UNIT(Kelvin, 1.0L)
UNIT(Radian, 1.0L) UNIT(Degree, PIL / 180) UNIT(Arcminute, PIL / 10800) UNIT(Arcsecond, PIL / 648000)
UNIT(Steradian, 1.0L) UNIT(SquareDegree, (PIL / 180) * (PIL / 180))
UNIT(Diopter, 1.0L) UNIT(Millidiopter, 1e-3L) UNIT(Microdiopter, 1e-6L)
UNIT(MetersPerSecond, 1.0L) UNIT(KilometersPerSecond, 1000.0L) UNIT(MilesPerHour, 0.44704L) UNIT(KilometersPerHour, 1000.0L / 3600.0L)
UNIT(RadiansPerSecond, 1.0L) UNIT(DegreesPerSecond, PIL / 180)
UNIT(Hertz, 1.0L) UNIT(Kilohertz, 1e3L) UNIT(Megahertz, 1e6L) UNIT(Gigahertz, 1e9L) UNIT(Terahertz, 1e12L)
UNIT(Newton, 1.0L) UNIT(Kilonewton, 1e3L) UNIT(Pascal, 1.0L) UNIT(Kilopascal, 1e3L)
UNIT(Joule, 1.0L) UNIT(Kilojoule, 1e3L) UNIT(Megajoule, 1e6L) UNIT(ElectronVolt, 1.602176634e-19L)
UNIT(SquareMeter, 1.0L) UNIT(SquareCentimeter, 1e-4L) UNIT(SquareMillimeter, 1e-6L)
UNIT(Milliwatt, 1e-3L) UNIT(Watt, 1.0L) UNIT(Kilowatt, 1e3L) UNIT(Megawatt, 1e6L) UNIT(Gigawatt, 1e9L)
template <> struct Info<Celsius> { static constexpr bool off = true; static LD si(LD v) { return v + 273.15L; } static LD un(LD s) { return s - 273.15L; } static const char* n() { return "Celsius"; } };
template <> struct Info<Fahrenheit> { static constexpr bool off = true; static LD si(LD v) { return (v + 459.67L) * 5 / 9; } static LD un(LD s) { return s * 9 / 5 - 459.67L; } static const char* n() { return "Fahrenheit"; } };
template <class... Q> struct List {};
static vh::Rng R(vh::st().seed);
static double mag() { switch (R.below(6)) { case 0: return 0.0; case 1: return R.i(-1000, 1000); case 2: return R.u(-2, 2); case 3: return R.lu(1e-12, 1e12); default: return (R.chance(.5) ? -1 : 1) * R.lu(1e-6, 1e6); } }
static bool nr(double got, LD want, LD scale) { return std::fabs((LD)got - want) <= 4e-15L * std::max(std::fabs(want), std::fabs(scale)) + 1e-300L; }

// std::ratio arithmetic overflows at compile time for a few far-apart units (AU / nm): those pairs have no quotient type
template <class A, class B> constexpr bool quot_ok() {
    using S = typename A::scale_type; using T = typename B::scale_type;
    if constexpr (is_unit_tag<S>::value || is_unit_tag<T>::value) return true;
    else return (double)S::num * (double)T::den < 4e18 && (double)S::den * (double)T::num < 4e18;
}
template <class A, class B> void pair_()
{
    double x = mag(), y = mag();
    A a(x); B b(y);
    vh::ev(); vh::distinct(vh::hash(x, y, (int)sizeof(A)) ^ vh::hash_bytes(Info<A>::n(), strlen(Info<A>::n())) ^ (vh::hash_bytes(Info<B>::n(), strlen(Info<B>::n())) << 1));
    LD sa = Info<A>::si(x), sb = Info<B>::si(y);
    vh::cur("%s(%.17g) with %s(%.17g)", Info<A>::n(), x, Info<B>::n(), y);
    LD osc = Info<A>::off ? 500.L : 0.L, osb = Info<B>::off ? 500.L : 0.L;
    VH_CHECK(nr(a.to_si(), sa, osc), "to_si", "%s(%.17g).to_si()=%.17g want %.17Lg", Info<A>::n(), x, a.to_si(), sa);
    VH_CHECK(a.value() == x && a.raw_value() == x, "value", "%s value", Info<A>::n());
    VH_CHECK(a.to_si_f() == (float)a.to_si(), "to_si_f", "%s", Info<A>::n());
    B c(a);
    LD wc = Info<B>::un(sa);
    VH_CHECK(nr(c.value(), wc, (osc + osb) * 2), "convert", "%s(%.17g) -> %s = %.17g want %.17Lg", Info<A>::n(), x, Info<B>::n(), c.value(), wc);
    A back(c);
    VH_CHECK(nr(back.value(), x, (osc + osb) * 2), "convert-roundtrip", "%s via %s: %.17g -> %.17g", Info<A>::n(), Info<B>::n(), x, back.value());
    auto d = a.template as<B>();
    VH_CHECK(d.value() == c.value(), "as", "%s as %s", Info<A>::n(), Info<B>::n());
    // comparisons follow SI; skip values too close to call
    double asi = a.to_si(), bsi = b.to_si();
    if (std::fabs(sa - sb) > 1e-13L * std::max({std::fabs(sa), std::fabs(sb), osc + osb})) {
        VH_CHECK((a < b) == (sa < sb) && (a <= b) == (sa < sb) && (a > b) == (sa > sb) && (a >= b) == (sa > sb) && !(a == b) && (a != b), "compare", "%s(%g) vs %s(%g)", Info<A>::n(), x, Info<B>::n(), y);
    }
    (void)asi; (void)bsi;
    if constexpr (!Info<A>::off && !Info<B>::off) {
        auto s = a + b; auto m = a - b;
        LD sc = std::max(std::fabs(sa), std::fabs(sb));
        VH_CHECK(nr(s.to_si(), sa + sb, sc), "add", "%s(%.17g)+%s(%.17g)=%.17g SI want %.17Lg", Info<A>::n(), x, Info<B>::n(), y, s.to_si(), sa + sb);
        VH_CHECK(nr(m.to_si(), sa - sb, sc), "sub", "%s(%.17g)-%s(%.17g)=%.17g SI want %.17Lg", Info<A>::n(), x, Info<B>::n(), y, m.to_si(), sa - sb);
        A t(a); t += b; VH_CHECK(nr(t.to_si(), sa + sb, sc), "add-assign", "%s %s", Info<A>::n(), Info<B>::n());
        A t2(a); t2 -= b; VH_CHECK(nr(t2.to_si(), sa - sb, sc), "sub-assign", "%s %s", Info<A>::n(), Info<B>::n());
        A t3; t3 = b; VH_CHECK(nr(t3.to_si(), sb, sb), "assign", "%s %s", Info<A>::n(), Info<B>::n());
        if constexpr (quot_ok<A, B>()) if (y != 0) { double q = a / b; VH_CHECK(nr(q, sa / sb, 0), "ratio", "%s(%g)/%s(%g)=%.17g want %.17Lg", Info<A>::n(), x, Info<B>::n(), y, q, sa / sb); }
    }
}
template <class A> void one_()
{
    if constexpr (!Info<A>::off) {
        double x = mag(), k = mag(); A a(x); LD sa = Info<A>::si(x);
        vh::ev();
        vh::cur("%s(%.17g) scalar %.17g", Info<A>::n(), x, k);
        VH_CHECK(nr((a * k).to_si(), sa * k, 0) && nr((k * a).to_si(), sa * k, 0), "scalar-mul", "%s(%g)*%g", Info<A>::n(), x, k);
        A t(a); t *= k; VH_CHECK(nr(t.to_si(), sa * k, 0), "scalar-mul-assign", "%s", Info<A>::n());
        if (k != 0) { VH_CHECK(nr((a / k).to_si(), sa / k, 0), "scalar-div", "%s(%g)/%g", Info<A>::n(), x, k); A u(a); u /= k; VH_CHECK(nr(u.to_si(), sa / k, 0), "scalar-div-assign", "%s", Info<A>::n()); }
        int ki = R.i(-9, 9); VH_CHECK(nr((a * ki).to_si(), sa * ki, 0), "scalar-int", "%s", Info<A>::n());
        VH_CHECK(nr((-a).to_si(), -sa, 0), "negate", "%s", Info<A>::n());
        if (x != 0) { auto r = k / a; VH_CHECK(nr(r.to_si(), (LD)k / sa, 0), "reciprocal", "%g/%s(%g)=%.17g want %.17Lg", k, Info<A>::n(), x, r.to_si(), k / sa); }
    }
    VH_CHECK(vh::throws([] { A bad(std::nan("")); }), "nan-accepted", "%s(NaN)", Info<A>::n());
    A z; VH_CHECK(z.value() == 0, "default", "%s", Info<A>::n());
    VH_CHECK(A(3).value() == 3 && A(3.5f).value() == 3.5 && A(7u).value() == 7, "construct", "%s", Info<A>::n());
}
template <class A, class B> void prod_()
{
    if constexpr (!Info<A>::off && !Info<B>::off) {
        double x = mag(), y = mag(); A a(x); B b(y);
        vh::ev(); vh::cur("%s(%g)*%s(%g)", Info<A>::n(), x, Info<B>::n(), y);
        LD sa = Info<A>::si(x), sb = Info<B>::si(y);
        auto p = a * b;
        static_assert(std::is_same_v<typename decltype(p)::dimension_type, decltype(typename A::dimension_type{} * typename B::dimension_type{})>);
        VH_CHECK(nr(p.to_si(), sa * sb, 0), "product", "%s(%.17g)*%s(%.17g)=%.17g SI want %.17Lg", Info<A>::n(), x, Info<B>::n(), y, p.to_si(), sa * sb);
        if (y != 0) {
            auto q = a / b;
            static_assert(std::is_same_v<typename decltype(q)::dimension_type, decltype(typename A::dimension_type{} / typename B::dimension_type{})>);
            VH_CHECK(nr(q.to_si(), sa / sb, 0), "quotient", "%s(%.17g)/%s(%.17g)=%.17g SI want %.17Lg", Info<A>::n(), x, Info<B>::n(), y, q.to_si(), sa / sb);
            auto back = p / b;
            if (x != 0) VH_CHECK(nr(back.to_si(), sa, sa * 4), "product-quotient", "%s %s", Info<A>::n(), Info<B>::n());
        }
    }
}
template <class A, class... B> void row(List<B...>) { (pair_<A, B>(), ...); }
template <class... A> void same(List<A...> l) { (row<A>(l), ...); (one_<A>(), ...); }
template <class A, class... B> void prow(List<B...>) { (prod_<A, B>(), ...); }
template <class... A, class L2> void cross(List<A...>, L2 l2) { (prow<A>(l2), ...); }

using LEN = List<Kilometer, Meter, Centimeter, Millimeter, Micrometer, Nanometer, AstronomicalUnit, Foot, Yard, Mile>;
using TIM = List<SiderealDay, Day, Hour, Minute, Second, Millisecond, Microsecond, Nanosecond, Femtosecond>;
using ANG = List<Radian, Degree, Arcminute, Arcsecond>;
using RB = huira::Visible8;
// the text of a dimension names every base unit with its power on the right side of the bar, and nothing else
static std::string letters(std::string t) { std::string r; for (char c : t) if (!std::strchr(" *.\xc2\xb7-_", c)) r += c; return r; }
template <int L, int M, int T, int I, int O, int N, int J, int A, int S> void text_(const char* named = nullptr)
{
    using D = Dimensionality<L, M, T, I, O, N, J, A, S>; std::string got = D::to_si_string(), up, dn; const int e[9] = {L, M, T, I, O, N, J, A, S}; const char* n[9] = {"m", "Kg", "s", "A", "K", "mol", "cd", "rad", "sr"};
    vh::ev(); if (named) { VH_CHECK(got == named, "text-named", "dimension [%d %d %d %d %d %d %d %d %d] is called '%s', not '%s'", L, M, T, I, O, N, J, A, S, got.c_str(), named); return; }
    for (int k = 0; k < 9; ++k) { int p = std::abs(e[k]); if (!p) continue; (e[k] > 0 ? up : dn) += p == 1 ? std::string(n[k]) : vh::fmt("(%s)^%d", n[k], p); }
    std::string want = up.empty() && dn.empty() ? "dimensionless" : dn.empty() ? up : (up.empty() ? "1" : up) + "/" + dn;
    VH_CHECK(letters(got) == want, "text", "dimension [%d %d %d %d %d %d %d %d %d] reads '%s', expected '%s'", L, M, T, I, O, N, J, A, S, got.c_str(), want.c_str());
}
template <class Q> void value_text_(const char* unit)
{
    double x = R.chance(.3) ? R.i(-1000, 1000) : R.u(-5e4, 5e4); Q q(x); std::string t = q.to_string(); char* end; double v = std::strtod(t.c_str(), &end); vh::ev();
    VH_CHECK(std::fabs(v - q.to_si()) <= 6e-7 + 1e-14 * std::fabs(v) && std::string(end) == std::string(" ") + unit, "quantity-text", "%s(%.17g) = %.17g in SI reads '%s'", Info<Q>::n(), x, q.to_si(), t.c_str());
}
static void texts()
{
    text_<0, 0, 0, 0, 0, 0, 0, 0, 0>(); text_<1, 0, 0, 0, 0, 0, 0, 0, 0>(); text_<0, 1, 0, 0, 0, 0, 0, 0, 0>(); text_<0, 0, 1, 0, 0, 0, 0, 0, 0>(); text_<0, 0, 0, 1, 0, 0, 0, 0, 0>(); text_<0, 0, 0, 0, 1, 0, 0, 0, 0>();
    text_<0, 0, 0, 0, 0, 1, 0, 0, 0>(); text_<0, 0, 0, 0, 0, 0, 1, 0, 0>(); text_<0, 0, 0, 0, 0, 0, 0, 1, 0>(); text_<0, 0, 0, 0, 0, 0, 0, 0, 1>(); text_<2, 0, 0, 0, 0, 0, 0, 0, 0>(); text_<1, 0, -1, 0, 0, 0, 0, 0, 0>(); text_<1, 0, -2, 0, 0, 0, 0, 0, 0>();
    text_<0, 0, -1, 0, 0, 0, 0, 1, 0>(); text_<-1, 0, 0, 0, 0, 0, 0, 0, 0>(); text_<1, 2, 3, 4, 5, 6, 7, 8, 9>(); text_<-1, -2, -3, -4, -5, -6, -7, -8, -9>(); text_<1, -1, 1, -1, 1, -1, 1, -1, 1>(); text_<-2, 2, -2, 2, -2, 2, -2, 2, -2>();
    text_<3, 0, 0, 1, 1, 0, 0, -1, 0>(); text_<0, 1, 1, 0, 1, 1, 1, 1, 1>(); text_<0, -1, -1, -1, -1, -1, -1, -1, -1>(); text_<-3, 1, 0, 0, 0, 0, 0, 0, 0>();
    text_<0, 0, -1, 0, 0, 0, 0, 0, 0>("Hz"); text_<1, 1, -2, 0, 0, 0, 0, 0, 0>("N"); text_<-1, 1, -2, 0, 0, 0, 0, 0, 0>("Pa"); text_<2, 1, -2, 0, 0, 0, 0, 0, 0>("J"); text_<2, 1, -3, 0, 0, 0, 0, 0, 0>("W"); text_<0, 1, -3, 0, 0, 0, 0, 0, 0>("W / m^2");
    text_<0, 1, -3, 0, 0, 0, 0, 0, -1>("W / m^2 sr"); text_<2, 1, -3, 0, 0, 0, 0, 0, -1>("W / sr"); text_<0, 0, 1, 1, 0, 0, 0, 0, 0>("C"); text_<2, 1, -3, -1, 0, 0, 0, 0, 0>("V"); text_<-2, -1, 4, 2, 0, 0, 0, 0, 0>("F"); text_<2, 1, -3, -2, 0, 0, 0, 0, 0>("Ohm");
    for (int i = 0; i < 200; ++i) { value_text_<Kilometer>("m"); value_text_<Millimeter>("m"); value_text_<Hour>("s"); value_text_<Degree>("rad"); value_text_<Celsius>("K"); value_text_<Fahrenheit>("K"); value_text_<MilesPerHour>("m / s"); value_text_<SquareCentimeter>("(m)^2"); value_text_<Kilohertz>("Hz"); value_text_<Kilonewton>("N"); }
}
void body()
{
    R = vh::Rng(vh::seed()); texts();
    for (long it = 0; it < vh::n(300, 20000); ++it) {
        same(LEN{}); same(TIM{}); same(ANG{});
        same(List<Kilogram, Gram, Milligram>{}); same(List<Kelvin, Celsius, Fahrenheit>{});
        same(List<Steradian, SquareDegree>{}); same(List<Diopter, Millidiopter, Microdiopter>{});
        same(List<MetersPerSecond, KilometersPerSecond, MilesPerHour, KilometersPerHour>{}); same(List<RadiansPerSecond, DegreesPerSecond>{});
        same(List<Hertz, Kilohertz, Megahertz, Gigahertz, Terahertz>{}); same(List<Newton, Kilonewton>{}); same(List<Pascal, Kilopascal>{});
        same(List<Joule, Kilojoule, Megajoule, ElectronVolt>{}); same(List<SquareMeter, SquareCentimeter, SquareMillimeter>{});
        same(List<Milliwatt, Watt, Kilowatt, Megawatt, Gigawatt>{});
        cross(List<Meter, Kilometer, Millimeter, Mile>{}, List<Hour, Second, SiderealDay, Millisecond>{});
        cross(List<Degree, Radian, Arcsecond>{}, List<Second, Hour, SiderealDay>{});
        cross(List<Watt, Kilowatt>{}, List<Second, Hour>{});
        cross(List<Watt>{}, List<SquareMeter, SquareCentimeter, Steradian, SquareDegree>{});
        cross(List<Newton, Kilonewton>{}, List<Meter, Millimeter, SquareMeter, SquareMillimeter>{});
        cross(List<ElectronVolt, Joule>{}, List<Second, Femtosecond, Hertz, Terahertz>{});
        { // compound results convert to the named units
            double d = R.lu(.1, 1e4), h = R.lu(.1, 100);
            KilometersPerHour kph = Kilometer(d) / Hour(h); VH_CHECK(vh::near(kph.value(), d / h, 1e-14), "compound-kph", "%.17g km / %.17g h = %.17g", d, h, kph.value());
            MilesPerHour mph = Mile(d) / Hour(h); VH_CHECK(vh::near(mph.value(), d / h, 1e-14), "compound-mph", "%.17g mi / %.17g h = %.17g mph", d, h, mph.value());
            Watt w = Joule(d) / Second(h); VH_CHECK(vh::near(w.value(), d / h, 1e-14), "compound-watt", "%g", w.value());
            Joule j = Newton(d) * Meter(h); VH_CHECK(vh::near(j.value(), d * h, 1e-14), "compound-joule", "%g", j.value());
            DegreesPerSecond dps = Degree(d) / Second(h); VH_CHECK(vh::near(dps.value(), d / h, 1e-14), "compound-degps", "%g", dps.value());
            SquareMeter m2 = Millimeter(d) * Kilometer(h); VH_CHECK(vh::near(m2.value(), d * h, 1e-14), "compound-area", "%g", m2.value());
            Diopter dp = 1.0 / Millimeter(d); VH_CHECK(vh::near(dp.value(), 1000.0 / d, 1e-14), "compound-diopter", "%g", dp.value());
            vh::ev(7);
        }
        { // spectral quantities of every scale
            auto each = [&]<class Sc>(Sc) { RB v; for (auto& x : v) x = (float)R.lu(1e-6, 1e6); using Q = SpectralQuantity<Irradiance, Sc, RB>; Q q(v); auto si = q.to_si(); const double k = (double)Sc::num / (double)Sc::den; Q back{SpectralQuantity<Irradiance, std::ratio<1, 1>, RB>(si)}; auto deci = q.template as<std::deci>();
                for (std::size_t i = 0; i < 8; ++i) { vh::ev(); VH_CHECK(vh::near(si[i], v[i] * k, 3e-7) && vh::near(back.value()[i], v[i], 5e-7) && vh::near(deci.value()[i], v[i] * k * 10, 3e-7), "spectral-scale", "a spectral value of %g units of %ld/%ld SI is %g in SI, %g in tenths and %g taken back", v[i], (long)Sc::num, (long)Sc::den, si[i], deci.value()[i], back.value()[i]); }
                VH_CHECK(q == Q(v) && !(q != Q(v)) && q.value() == v, "spectral-equal", "a spectral quantity differs from itself"); auto w = v; w[R.below(8)] *= 1.01f; VH_CHECK(q != Q(w) && !(q == Q(w)), "spectral-equal", "different spectral quantities compare equal"); };
            each(std::milli{}); each(std::micro{}); each(std::nano{}); each(std::ratio<1, 1>{}); each(std::ratio<1, 7>{}); each(std::ratio<7, 3>{}); each(std::deca{}); each(std::kilo{}); each(std::mega{}); each(std::giga{}); each(std::ratio<1, 3600>{}); each(std::ratio<3600, 1>{});
        }
        { // spectral quantities
            RB v; for (auto& x : v) x = (float)R.lu(1e-6, 1e6);
            SpectralWatts<RB> w(v);
            SpectralKilowatts<RB> k(w); SpectralMilliwatts<RB> m(w); SpectralGigawatts<RB> g(m);
            auto si = g.to_si(); auto km = k.template as<std::milli>();
            for (std::size_t i = 0; i < 8; ++i) {
                vh::ev();
                VH_CHECK(vh::near(k.value()[i], v[i] * 1e-3, 3e-7), "spectral-convert", "kW %g from W %g", k.value()[i], v[i]);
                VH_CHECK(vh::near(m.value()[i], v[i] * 1e3, 3e-7) && vh::near(km.value()[i], v[i] * 1e3, 3e-7), "spectral-convert", "mW %g from W %g", m.value()[i], v[i]);
                VH_CHECK(vh::near(si[i], v[i], 5e-7), "spectral-to-si", "%g from %g", si[i], v[i]);
            }
        }
    }
    // literals agree with the constructors
#define LIT(lit, Q) VH_CHECK((2.5_##lit).value() == Q(2.5).value() && (3_##lit).value() == 3.0 && (std::is_same_v<decltype(1_##lit), Q>), "literal", #lit); vh::ev();
    LIT(Km, Kilometer) LIT(m, Meter) LIT(cm, Centimeter) LIT(mm, Millimeter) LIT(um, Micrometer) LIT(nm, Nanometer) LIT(au, AstronomicalUnit) LIT(ft, Foot) LIT(yd, Yard) LIT(mi, Mile)
    LIT(Kg, Kilogram) LIT(g, Gram) LIT(mg, Milligram) LIT(day, Day) LIT(h, Hour) LIT(min, Minute) LIT(s, Second) LIT(ms, Millisecond) LIT(us, Microsecond) LIT(ns, Nanosecond)
    LIT(rad, Radian) LIT(deg, Degree) LIT(K, Kelvin) LIT(C, Celsius) LIT(F, Fahrenheit) LIT(J, Joule) LIT(KJ, Kilojoule) LIT(eV, ElectronVolt)
    LIT(m2, SquareMeter) LIT(cm2, SquareCentimeter) LIT(mm2, SquareMillimeter) LIT(mW, Milliwatt) LIT(W, Watt) LIT(KW, Kilowatt) LIT(MW, Megawatt)
    LIT(dpt, Diopter) LIT(mdpt, Millidiopter) LIT(udpt, Microdiopter) LIT(mps, MetersPerSecond) LIT(Kmps, KilometersPerSecond) LIT(Miph, MilesPerHour) LIT(Kmph, KilometersPerHour)
    LIT(radps, RadiansPerSecond) LIT(degps, DegreesPerSecond) LIT(Hz, Hertz) LIT(KHz, Kilohertz) LIT(MHz, Megahertz) LIT(GHz, Gigahertz)
    vh::count("unit_types", 60);
    vh::sample("Mile(2.5) / Hour(4) == MilesPerHour(0.625); Fahrenheit(x) -> Celsius -> Fahrenheit; Watt/SquareDegree in SI");
}
VH_MAIN(body())
