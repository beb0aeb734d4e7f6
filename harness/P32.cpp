// Whole transmission chains, as in the examples: every symbol or bit arrives.
#include "susagen.h"
using namespace sg;
typedef std::complex<double> C; typedef susa::matrix<double> MD; typedef susa::matrix<C> MC;

static double raised(double f, double a) { f = std::fabs(f); double lo = (1 - a) / 2, hi = (1 + a) / 2; return f <= lo ? 1 : f >= hi ? 0 : 0.5 * (1 + std::cos(M_PI / a * (f - lo))); }
// the designed root-raised-cosine taps
static std::vector<double> designed(unsigned L, double a, int n)
{
    int h = (n - 1) / 2; std::vector<double> t(n); double e = 0;
    for (int i = 0; i < n; i++) { double s = 0; for (int m = -h; m <= h; m++) s += std::sqrt(raised((double)L * m / n, a)) * std::cos(2 * M_PI * m * (i - h) / n); t[i] = s; e += s * s; }
    for (auto& v : t) v /= std::sqrt(e);
    return t;
}
// symbols through pulse shaping, a matched filter and sampling
static void shaped(Gen& g)
{
    static const unsigned orders[] = {4, 16, 64, 256, 8, 32, 128}; unsigned M = orders[g.draw(6)]; susa::qam q(M); MC K = q.get_constellation(); PBT_CHECK(K.size() == M, "the constellation of qam(" << M << ") has " << K.size() << " points");
    unsigned L = (unsigned)g.range(2, 8), U = L; double a = g.range(1, 10) / 10.0; int n = 2 * (int)g.size(0, 50) + 1; if (g.once_in(3)) U = n + (unsigned)g.range(0, 3); // no overlap at all
    size_t N = g.once_in(20) ? g.size(1, 300) : g.size(1, 25); bool row = false, noisy = g.once_in(3), conv = g.flip(), tracked = g.flip(); (void)row;
    std::ostringstream w; w << N << " symbols of qam(" << M << "), rrcosine(" << L << "," << a << "," << n << "), upsampling by " << U << (noisy ? ", noise" : "") << (conv ? ", conv" : ", filter"); NOTE(g, w.str());
    std::vector<double> t = designed(L, a, n); double isi = 0, amp = 0;
    for (int k = (int)U; k < n; k += (int)U) { double r = 0; for (int i = 0; i + k < n; i++) r += t[i] * t[i + k]; isi += 2 * std::fabs(r); }
    for (size_t i = 0; i < M; i++) amp = std::max(amp, std::max(std::fabs(K(i).real()), std::fabs(K(i).imag())));
    std::vector<size_t> sent(N); pbt::Rng rb = g.bulk(); MC S(N, 1); for (size_t i = 0; i < N; i++) { sent[i] = N > 25 ? rb.upto(M - 1) : g.draw(M - 1); S(i) = K(sent[i]); }
    bool clear = isi * amp < 0.4; g.label(clear ? "eye open" : "eye closed (skipped)"); if (!clear) return;
    susa::rrcosine rrc(L, a, n); MC X = susa::upsample(S, U), Y, Z; MD T = rrc.get(), one(1, 1, 1.0); PBT_CHECK(T.size() == (size_t)n, "rrcosine has " << T.size() << " taps instead of " << n);
    size_t tail = n - 1;
    if (conv) Y = susa::conv(X, susa::to_complex(T)); else Y = susa::filter(T, one, X, tail);
    if (noisy) Y += susa::awgn(Y, 75.0f);
    if (conv) Z = susa::conv(susa::to_complex(T), Y); else Z = susa::filter(T, one, Y, tail);
    PBT_CHECK(Z.no_cols() == 1 && Z.no_rows() == N * U + 2 * tail, "the received signal is " << Z.no_rows() << "x" << Z.no_cols() << " for " << w.str());
    MC D(N * U, 1); for (size_t i = 0; i < N * U; i++) D(i) = Z(n - 1 + i);
    MC R = susa::downsample(D, U); PBT_CHECK(R.size() == N, "downsampling leaves " << R.size() << " symbols for " << w.str());
    for (size_t i = 0; i < N; i++) { C d = q.demodulate_symbol(R(i)); PBT_CHECK(d == S(i), "symbol " << i << " is received as " << d << " instead of " << S(i) << " (from " << R(i) << ") for " << w.str()); }
    g.nontrivial(N > 1); g.label("qam " + std::to_string(M)); g.label(U == L ? "overlapping pulses" : "separate pulses"); g.weight = N; (void)tracked;
}
static uint32_t digits(uint32_t v) { uint32_t r = 0, p = 1; while (v) { r += (v & 7) * p; v >>= 3; p *= 10; } return r; }
// bits through a code, bpsk and the decoder
static void coded(Gen& g)
{
    unsigned n = (unsigned)g.range(1, 4), m = (unsigned)g.range(1, 4); std::vector<uint32_t> gen(n); bool some = false; for (auto& x : gen) { x = (uint32_t)g.draw((2u << m) - 1); some |= x != 0; } if (!some) gen[0] = 1;
    size_t k = g.once_in(30) ? g.size(1, 400) : g.size(1, 30), N = k + m; double ebn0 = std::min(g.real(1.0, 4.0), 250.0 / (4 * n * (m + 1))); susa::ccode code(n, 1, m); for (unsigned j = 0; j < n; j++) code.set_generator(digits(gen[j]), j);
    std::ostringstream w; w << k << " bits, memory " << m << ", generators"; for (auto x : gen) w << " " << digits(x); w << ", Eb/N0 " << ebn0; NOTE(g, w.str());
    bool row = g.flip(); susa::matrix<uint8_t> B(row ? 1 : N, row ? N : 1, (uint8_t)0); pbt::Rng rb = g.bulk(); for (size_t i = 0; i < k; i++) B(i) = k > 30 ? (uint8_t)rb.upto(1) : (uint8_t)g.flip();
    int blocks = (int)g.range(1, 2); // the next block starts from the zero state again
    while (blocks--)
    {
        susa::matrix<uint8_t> E = code.encode(B); PBT_CHECK(E.size() == N * n, "encoding gives " << E.size() << " bits for " << w.str());
        susa::matrix<int8_t> S = susa::bpsk(E); MD Y = S; if (g.once_in(3)) Y += susa::awgn(Y, 45.0f);
        MD R = code.decode_bcjr(Y, ebn0); PBT_CHECK(R.size() >= N, "decoding gives " << R.size() << " ratios for " << w.str());
        MD Q = susa::log(R);
        for (size_t i = 0; i < k; i++) PBT_CHECK((B(i) ? Q(i) > 0 : Q(i) < 0), "bit " << i << " is " << (int)B(i) << " but its ratio is " << R(i) << " for " << w.str());
    }
    g.nontrivial(k > 1); g.label("coded"); g.weight = k;
}
static MD vec(const std::vector<double>& v, size_t r, size_t c) { MD m(r, c); for (size_t i = 0; i < v.size(); i++) m(i) = v[i]; return m; }
// symbols through an interfering channel and the sequence detector, then mapped back
static void interfering(Gen& g)
{
    size_t taps = g.range(2, 4), A = g.range(2, 3), N = g.size(1, 20) + 2 * taps; std::vector<double> h(taps), pam(A); std::ostringstream w;
    h[0] = g.range(1, 9) * (g.flip() ? 0.5 : -0.5); for (size_t i = 1; i < taps; i++) h[i] = (double)g.sint(6) * 0.25;
    for (size_t i = 0; i < A; i++) pam[i] = 2.0 * i - (A - 1.0);
    susa::channel<double> ch(vec(h, 1, taps), vec(pam, A, 1)); susa::rng r((unsigned)g.draw(100000)); susa::matrix<unsigned> I(N, 1); for (size_t i = 0; i < N; i++) I(i) = r.rand_mask(7) % A;
    MD S(N, 1); for (size_t i = 0; i < N; i++) S(i) = pam[I(i)];
    unsigned states = 1; for (size_t i = 1; i < taps; i++) states *= A; unsigned s0 = (unsigned)g.draw(states - 1);
    w << N << " symbols, taps {"; for (double v : h) w << v << " "; w << "}, " << A << "-PAM, state " << s0; NOTE(g, w.str());
    MD E = ch.encode_isi(S, s0), D = ch.decode_mlse(E, s0); PBT_CHECK(D.size() == N, "detection gives " << D.size() << " symbols for " << w.str());
    for (size_t i = 0; i < N; i++) PBT_CHECK(D(i) == S(i), "symbol " << i << " is detected as " << D(i) << " instead of " << S(i) << " for " << w.str());
    g.nontrivial(true); g.label("interfering channel"); g.weight = N;
}
static double Q(double x) { return 0.5 * std::erfc(x / std::sqrt(2.0)); }
// symbol error rate over an additive white Gaussian noise channel against the theory
static void error_rate(Gen& g)
{
    static const unsigned orders[] = {4, 16, 64, 8, 32}; unsigned M = orders[g.draw(4)]; susa::qam q(M); MC K = q.get_constellation(); double db = g.real(-2, 12); size_t N = 6000; susa::rng r((unsigned)g.draw(1000000)); susa::mt t((uint32_t)g.draw(1000000)); bool twister = g.flip();
    NOTE(g, "symbol error rate of qam(" << M << ") at " << db << " dB" << (twister ? ", mt" : ", rng"));
    double dev = q.get_noise_deviation(db), es = 0; for (size_t i = 0; i < M; i++) es += std::norm(K(i)); es /= M;
    double sigma = std::sqrt(es / std::log2((double)M) / 2 / std::pow(10.0, db / 10)), q2 = 2 * Q(0.5 / sigma), h = std::sqrt((double)M), l; { unsigned b = 0; while ((1u << b) < M) b++; h = 1u << (b - b / 2); l = 1u << b / 2; } double p = 1 - (1 - (1 - 1 / h) * q2) * (1 - (1 - 1 / l) * q2); size_t bad = 0;
    MD nr = twister ? t.randn(N) : r.randn(N), ni = twister ? t.randn(N) : r.randn(N); susa::matrix<unsigned> I = r.rand_mask(M - 1, N);
    for (size_t i = 0; i < N; i++) { C s = K(I(i)); bad += q.demodulate_symbol(s + dev * C(nr(i), ni(i))) != s; }
    double dv = std::sqrt(N * p * (1 - p)); PBT_CHECK(std::fabs(bad - N * p) <= 6 * dv + 3, bad << " of " << N << " symbols of qam(" << M << ") are wrong at " << db << " dB instead of about " << N * p << (twister ? " (mt)" : " (rng)"));
    g.nontrivial(true); g.label("error rate"); g.weight = N;
}
static void property(Gen& g)
{
    if (g.once_in(400)) error_rate(g); else switch (g.draw(3)) { case 0: case 1: shaped(g); break; case 2: coded(g); break; default: interfering(g); }
}
#include "pbt_main.h"
