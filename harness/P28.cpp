// The root-raised-cosine filter against its spectrum.
#include "susagen.h"
using namespace sg;

static double raised(double f, double a) { f = std::fabs(f); double lo = (1 - a) / 2, hi = (1 + a) / 2; return f <= lo ? 1 : f >= hi ? 0 : 0.5 * (1 + std::cos(M_PI / a * (f - lo))); }
static void property(Gen& g)
{
    unsigned L = (unsigned)g.range(1, 16); int ord; bool divides = g.flip();
    if (divides) { L = 2 * (unsigned)g.range(1, 6) + 1; ord = (int)L * (2 * (int)g.range(0, L > 6 ? 5 : 12) + 1); } else ord = 2 * (int)g.size(0, 70) + 1;
    if (g.once_in(60)) { L = (unsigned)g.range(1, 70); ord = divides && L % 2 ? (int)L * (2 * (int)g.range(0, 600 / L / 2) + 1) : 2 * (int)g.range(70, 350) + 1; }
    double a; switch (g.draw(4)) { case 0: a = 1.0; break; case 1: a = g.range(1, 10) / 10.0; break; case 2: a = std::pow(10.0, -(double)g.range(1, 6)); break; default: a = g.real(0.01, 1.0); }
    NOTE(g, "rrcosine(" << L << "," << a << "," << ord << ")"); g.label(ord == 1 ? "one tap" : ord < 20 ? "3-19 taps" : "20 and more taps"); g.label(ord % (int)L == 0 && L > 1 ? "factor divides order" : "other factor"); g.nontrivial(ord > 1); g.weight = ord;
    susa::rrcosine f(L, a, ord); susa::matrix<double> T = f.get(); std::ostringstream w; w << "rrcosine(" << L << "," << a << "," << ord << ")";
    PBT_CHECK(T.size() == (size_t)ord, w.str() << " has " << T.size() << " taps"); std::vector<double> t(ord); for (int i = 0; i < ord; i++) { t[i] = T(i); PBT_CHECK(std::isfinite(t[i]), w.str() << ": tap " << i << " is " << t[i]); }
    double e = 0, tot = 0; for (double v : t) e += v * v; PBT_CHECK(std::fabs(e - 1) <= 1e-9, w.str() << " has the energy " << e);
    for (int i = 0; i < ord; i++) PBT_CHECK(std::fabs(t[i] - t[ord - 1 - i]) <= 1e-7, w.str() << ": taps " << i << " and " << ord - 1 - i << " are " << t[i] << " and " << t[ord - 1 - i]);
    int h = (ord - 1) / 2; for (int m = -h; m <= h; m++) tot += raised((double)L * m / ord, a);
    double k = std::sqrt(ord / tot);
    for (int m = 0; m <= h; m++)
    {
        cd s = 0; for (int i = 0; i < ord; i++) s += t[i] * std::polar(1.0, -2 * M_PI * m * (i - h) / ord);
        double x = k * std::sqrt(raised((double)L * m / ord, a));
        // right at an edge of the band the characteristic is steep for small roll-offs
        double fr = (double)L * m / ord; bool edge = a < 1e-3 && (std::fabs(fr - (1 + a) / 2) < 1e-9 || std::fabs(fr - (1 - a) / 2) < 1e-9);
        PBT_CHECK(std::abs(s - x) <= (edge ? 1e-2 : 1e-6) * k, w.str() << ": the spectrum at " << m << " is " << s << " instead of " << x);
    }
    if (ord % (int)L == 0 && L > 1)
        for (int q = 1; q < ord / (int)L; q++) { double r = 0; for (int i = 0; i < ord; i++) r += t[i] * t[(i + q * (int)L) % ord]; PBT_CHECK(std::fabs(r) <= 1e-6, w.str() << ": interference " << r << " at symbol " << q); }
    susa::matrix<double> T2 = f.get(); for (int i = 0; i < ord; i++) PBT_CHECK(T2(i) == t[i], "get() differs the second time");
}
#include "pbt_main.h"
