// Modulation, demodulation and noise.
#include "susagen.h"
using namespace sg;

static void bpsk(Gen& g)
{
    size_t r, c; dims(g, r, c); Mod<uint8_t> a(r, c); for (auto& v : a.v) v = g.flip() ? (uint8_t)g.flip() : (uint8_t)g.draw(255);
    NOTE(g, "bpsk " << show(a)); g.label("bpsk " + shape_label(r, c)); g.nontrivial(r * c > 1);
    Mod<int8_t> e(r, c); for (size_t i = 0; i < r * c; i++) e.v[i] = a.v[i] ? 1 : -1;
    auto A = make<susa::matrix<uint8_t>>(a); same(susa::bpsk(A), e, "bpsk"); same(A, a, "the input of bpsk");
}
static void qam(Gen& g)
{
    unsigned k = g.draw(19), bps = k < 4 ? 2 : k < 8 ? 4 : k < 11 ? 6 : k < 12 ? 8 : k < 14 ? 3 : k < 16 ? 5 : k < 17 ? 1 : k < 18 ? 7 : k < 19 ? 9 : 10, M = 1u << bps, h = 1u << (bps - bps / 2), l = 1u << bps / 2; // a grid of h by l points
    susa::qam q(M); auto S = q.get_constellation(); NOTE(g, M << "-QAM"); g.label("qam " + std::to_string(M)); g.nontrivial();
    PBT_CHECK(S.size() == M, "the " << M << "-QAM constellation has " << S.size() << " points");
    std::vector<char> seen(M, 0); double far = 0; for (size_t i = 0; i < S.size(); i++) far = std::max(far, S(i).real());
    const bool lying = far > (l - 1) / 2.0 + 0.25; const unsigned w = lying ? h : l, t = lying ? l : h; const double offx = (w - 1) / 2.0, offy = (t - 1) / 2.0, off = std::max(offx, offy);
    for (size_t i = 0; i < M; i++)
    {
        cd p = S(i); double x = p.real() + offx, y = p.imag() + offy, rx = std::round(x), ry = std::round(y);
        PBT_CHECK(std::fabs(x - rx) < 1e-9 && std::fabs(y - ry) < 1e-9 && rx >= 0 && ry >= 0 && rx < w && ry < t, M << "-QAM: the point " << p << " is not on the grid");
        size_t idx = (size_t)rx * t + (size_t)ry; PBT_CHECK(!seen[idx], M << "-QAM: the point " << p << " occurs twice"); seen[idx] = 1;
    }
    double db = g.real(-30, 50), es = ((double)w * w - 1) / 12 + ((double)t * t - 1) / 12, dev = std::sqrt(0.5 * es / bps * std::pow(10.0, -db / 10)), got = q.get_noise_deviation(db);
    PBT_CHECK(std::fabs(got - dev) <= 1e-9 * dev, M << "-QAM: the noise deviation at " << db << " dB is " << got << " instead of " << dev);
    size_t n = M <= 64 ? g.range(1, 20) : g.range(1, 4); g.weight = n;
    for (size_t i = 0; i < n; i++)
    {
        cd z; bool point = g.once_in(4); cd p = S(g.draw(M - 1));
        if (point) z = p;
        else switch (g.draw(4))
        {
        case 0: z = p + cd(g.real(-0.49, 0.49), g.real(-0.49, 0.49)); break;
        case 1: z = cd(g.real(-off - 1, off + 1), g.real(-off - 1, off + 1)); break;
        case 2: z = cd(g.real(-1000, 1000), g.real(-1000, 1000)); break;
        case 3: z = p + (g.flip() ? cd(g.flip() ? 0.5 : 0.5 - 1e-6, 0) : cd(0, g.flip() ? -0.5 : -0.5 + 1e-6)); break; // on and near the decision boundaries
        default: z = cd(g.sint(40) / 4.0, g.sint(40) / 4.0); break;
        }
        cd d = q.demodulate_symbol(z); double best = 1e300, mine = std::abs(z - d); bool member = false;
        for (size_t k = 0; k < M; k++) { best = std::min(best, std::abs(z - (cd)S(k))); member |= S(k) == d; }
        PBT_CHECK(member, M << "-QAM: " << z << " is demodulated to " << d << ", which is not in the constellation");
        PBT_CHECK(mine <= best + 1e-12 * (1 + std::abs(z)), M << "-QAM: " << z << " is demodulated to " << d << " at the distance " << mine << ", the nearest point is at " << best);
        if (point) PBT_CHECK(d == z, M << "-QAM: the point " << z << " is demodulated to " << d);
    }
}
template <class T> static void noise(Gen& g)
{
    typedef std::conditional_t<is_cplx<T>::value, cd, double> N;
    size_t r, c; if (g.once_in(6)) { bool col = g.flip(); r = col ? g.range(500, 20000) : 1; c = col ? 1 : g.range(500, 20000); } else if (g.once_in(5)) { r = g.range(1, 120); c = g.range(1, 120); } else dims(g, r, c);
    const int64_t mag = std::is_same<T, int8_t>::value ? 127 : 9; Mod<T> a; bool unit = g.flip();
    if (unit) { a = Mod<T>(r, c, T(1)); pbt::Rng b = g.bulk(); for (auto& v : a.v) if (b.next() & 1) v = T(-1); }
    else { a = fill<T>(g, r, c, mag, true); }
    unsigned ovs = g.flip() ? 1 : (unsigned)g.range(1, 16); float db = g.flip() ? (float)g.sint(30) : (float)g.real(-20, 40);
    NOTE(g, "awgn<" << tname<T>() << "> " << show(a) << " at " << db << " dB, oversampled " << ovs); g.label(std::string("awgn ") + tname<T>()); g.label("noise " + shape_label(r, c)); g.nontrivial(r * c > 1); g.weight = r * c;
    auto A = make<susa::matrix<T>>(a); long double p = 0; for (size_t i = 0; i < r * c; i++) { T v = a.v[i]; if constexpr (is_cplx<T>::value) p += (long double)v.real() * v.real() + (long double)v.imag() * v.imag(); else p += (long double)v * v; }
    double var = (double)(p / (r * c)) * ovs / std::pow(10.0, (double)db / 10) / 2; // of every real component
    susa::matrix<N> Z = ovs == 1 && g.flip() ? susa::awgn(A, db) : susa::awgn(A, db, ovs);
    same(A, a, "the input of awgn");
    PBT_CHECK(Z.no_rows() == r && Z.no_cols() == c, "awgn of a " << r << "x" << c << " signal is " << Z.no_rows() << "x" << Z.no_cols());
    double s[2] = {0, 0}, s2 = 0, cross = 0, lag = 0, prev = 0; size_t n = r * c, dof = n * (is_cplx<T>::value ? 2 : 1);
    for (size_t i = 0; i < n; i++)
    {
        cd v = Z(i); PBT_CHECK(std::isfinite(v.real()) && std::isfinite(v.imag()), "awgn: sample " << i << " is " << v);
        s[0] += v.real(); s[1] += v.imag(); s2 += std::norm(v); cross += v.real() * v.imag(); lag += prev * v.real(); prev = v.real();
    }
    const double t = 40; // e^-t bounds the probability of a false alarm (Laurent and Massart)
    PBT_CHECK(s2 <= var * (dof + 2 * std::sqrt(dof * t) + 2 * t) * (1 + 1e-5) && s2 >= var * (dof - 2 * std::sqrt(dof * t)) * (1 - 1e-5), "awgn: the noise power of " << n << " samples is " << s2 / n << ", expected " << var * dof / n << " at " << db << " dB, oversampling " << ovs);
    for (double m : s) PBT_CHECK(std::fabs(m) <= std::sqrt(2 * t * var * n) * (1 + 1e-5) + 1e-300, "awgn: the mean of " << n << " samples is " << m / n << " with the deviation " << std::sqrt(var));
    if (n >= 2000) PBT_CHECK(std::fabs(cross) <= 10 * var * std::sqrt((double)n) + 1e-300 && std::fabs(lag) <= 10 * var * std::sqrt((double)n) + 1e-300, "awgn: the noise is correlated");
}
static void property(Gen& g)
{
    switch (g.draw(3))
    {
    case 0: bpsk(g); break;
    case 1: case 2: qam(g); break;
    default: with_type<double, cd, int8_t, int, float, std::complex<float>>(g, [&](auto t) { noise<decltype(t)>(g); });
    }
}
#include "pbt_main.h"
