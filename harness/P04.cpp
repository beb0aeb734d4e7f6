// Matrix text: grammar-generated texts, print/parse round trips, arbitrary texts.
#include "susagen.h"
#include "trap.h"
#include <iomanip>
using namespace sg;

static std::string blanks(Gen& g, int max, bool tabs = true)
{ std::string s; if (max > 1 && g.once_in(300)) s.assign(g.range(8, 200), g.once_in(3) ? '\t' : ' '); for (int n = (int)g.draw(max); n > 0; n--) s += (tabs && g.once_in(5)) ? (g.once_in(3) ? '\r' : '\t') : ' '; return s; }

// a number of T in one of many spellings, with its value
template <class T> static std::string number(Gen& g, T& val)
{
    char b[64];
    if constexpr (std::is_floating_point<T>::value)
    {
        double x;
        switch (g.draw(8))
        {
        case 0: std::snprintf(b, 64, "%d", (int)g.sint(9)); break;
        case 1: std::snprintf(b, 64, "%.*f", (int)g.draw(6), g.real(-1000, 1000)); break;
        case 2: std::snprintf(b, 64, "%.*e", (int)g.draw(8), g.real(-10, 10) * std::pow(10.0, (double)g.range(-25, 25))); break;
        case 3: std::snprintf(b, 64, "%.17g", g.real(-1e6, 1e6)); break;
        case 4: std::snprintf(b, 64, ".%03u", (unsigned)g.draw(999)); break;
        case 5: std::snprintf(b, 64, "-.%u", (unsigned)g.draw(99)); break;
        case 6: std::snprintf(b, 64, "%u.", (unsigned)g.draw(99)); break;
        case 7: std::snprintf(b, 64, "+%u.%u", (unsigned)g.draw(99), (unsigned)g.draw(99)); break;
        default: std::snprintf(b, 64, "%s%uE%s%u", g.flip() ? "-" : "", (unsigned)g.range(1, 9), g.flip() ? "-" : (g.flip() ? "+" : ""), (unsigned)g.draw(9)); break;
        }
        x = std::strtod(b, nullptr);
        val = std::is_same<T, float>::value ? (T)std::strtof(b, nullptr) : (T)x;
    }
    else if constexpr (std::is_signed<T>::value)
    {
        int64_t lim = sizeof(T) == 1 ? 127 : sizeof(T) == 2 ? 32767 : 2147483647;
        int64_t v = g.flip() ? g.sint(12) : g.sint(lim);
        std::snprintf(b, 64, g.once_in(8) && v >= 0 ? "+%lld" : g.once_in(8) && v >= 0 ? "0%lld" : "%lld", (long long)v); val = (T)v;
    }
    else
    {
        uint64_t lim = sizeof(T) == 1 ? 255 : 4294967295u;
        uint64_t v = g.flip() ? g.draw(12) : g.draw(lim);
        std::snprintf(b, 64, "%llu", (unsigned long long)v); val = (T)v;
    }
    return b;
}
template <class T> static bool near(T a, T b)
{
    if constexpr (std::is_floating_point<T>::value) return a == b || std::abs(a - b) <= 4 * std::numeric_limits<T>::epsilon() * std::abs(b);
    else return a == b;
}
template <class M, class T> static void equal(const M& m, const Mod<T>& d, const std::string& text)
{
    auto shown = [&] { return text.size() > 300 ? text.substr(0, 150) + " ... " + text.substr(text.size() - 150) : text; };
    PBT_CHECK(m.no_rows() == d.r && m.no_cols() == d.c && m.size() == d.r * d.c, "text \"" << shown() << "\" was read as " << m.no_rows() << "x" << m.no_cols() << " instead of " << d.r << "x" << d.c);
    for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
        PBT_CHECK(near<T>(m(i, j), d.at(i, j)), "text \"" << shown() << "\": element (" << i << "," << j << ") is " << pbt::str((T)m(i, j)) << " instead of " << pbt::str((T)d.at(i, j)));
}

template <class T> static void grammar(Gen& g)
{
    typedef susa::matrix<T> M;
    size_t r, c; dims(g, r, c, 12);
    bool huge = g.once_in(600);
    if (huge) { if (g.once_in(4)) bigdims(g, r, c, 120000); else { r = g.range(1, 3); c = g.range(1000, 6000); if (g.flip()) std::swap(r, c); } }
    Mod<T> d(r, c);
    std::string t = blanks(g, 2);
    bool br = g.flip();
    if (br) { t += "["; t += blanks(g, 2); }
    int style = (int)g.draw(5);
    if (huge)
    {
        pbt::Rng b = g.bulk();
        for (size_t i = 0; i < r; i++)
        {
            if (i) t += style & 1 ? ";" : "\n";
            for (size_t j = 0; j < c; j++) { unsigned v = (unsigned)b.upto(100); d.at(i, j) = (T)v; t += (j ? (style & 2 ? ", " : " ") : "") + std::to_string(v); }
        }
    }
    else for (size_t i = 0; i < r; i++)
    {
        if (i)
        {
            t += blanks(g, 2);
            t += g.flip() ? ";" : g.flip() ? "\n" : "\r\n";
            t += blanks(g, 3);
        }
        for (size_t j = 0; j < c; j++)
        {
            if (j)
            {
                if (style == 0) t += " ";
                else if (style == 1) t += ",";
                else if (style == 2) t += "\t";
                else if (style == 5) t += "\r";
                else { std::string s = blanks(g, 3); if (g.flip()) s += ","; s += blanks(g, 3); t += s.empty() ? " " : s; }
            }
            T v; t += number<T>(g, v); d.at(i, j) = v;
        }
    }
    t += blanks(g, 3);
    if (br) { t += "]"; t += blanks(g, 2); }
    NOTE(g, tname<T>() << " text \"" << t.substr(0, 200) << "\"");
    g.label(std::string("grammar:") + tname<T>()); g.label("shape:" + shape_label(r, c)); if (huge) g.label("huge text");
    g.nontrivial(r * c > 1);
    g.weight = r * c;
    M m(t);
    equal(m, d, t);
    // assignment to a matrix of any previous shape
    M q;
    if (g.flip()) q = make<M>(anymod<T>(g, 9, false, 6));
    if (g.flip()) q = t; else q = t.c_str();
    equal(q, d, t);
    if (g.once_in(3)) { q = "1 2; 3 4"; q = t; equal(q, d, t); }
}

template <class T> static void roundtrip(Gen& g)
{
    typedef susa::matrix<T> M;
    size_t r, c; if (g.once_in(1000)) bigdims(g, r, c, 30000); else dims(g, r, c, 20);
    Mod<T> d(r, c);
    bool bulk = r * c > 150; pbt::Rng b = g.bulk();
    for (auto& v : d.v)
    {
        if constexpr (std::is_floating_point<T>::value)
            v = bulk ? (T)((double)b.upto(2000000) / 1000 - 1000) : g.flip() ? (T)g.sint(9) : (T)(g.real(-10, 10) * (g.flip() ? 1.0 : std::pow(10.0, (double)g.range(-30, 30))));
        else if (bulk) v = (T)b.upto(120);
        else if constexpr (std::is_signed<T>::value) v = (T)g.sint(sizeof(T) == 1 ? 127 : 2147483647);
        else v = (T)g.draw(sizeof(T) == 1 ? 255 : 4294967295u);
    }
    const M m = make<M>(d);
    std::ostringstream o;
    int prec = (int)g.range(1, 17), fmt = (int)g.draw(3);
    o << std::setprecision(prec);
    if (fmt == 1) o << std::scientific; else if (fmt == 2) o << std::fixed; else if (fmt == 3) o << std::showpos;
    o << m;
    Mod<T> e(r, c); // what the printed digits say
    for (size_t i = 0; i < d.size(); i++)
    {
        if constexpr (std::is_floating_point<T>::value)
        {
            std::ostringstream p; p << std::setprecision(prec);
            if (fmt == 1) p << std::scientific; else if (fmt == 2) p << std::fixed; else if (fmt == 3) p << std::showpos;
            p << (T)d.v[i];
            e.v[i] = std::is_same<T, float>::value ? (T)std::strtof(p.str().c_str(), nullptr) : (T)std::strtod(p.str().c_str(), nullptr);
        }
        else e.v[i] = d.v[i];
    }
    NOTE(g, tname<T>() << " printed " << o.str().substr(0, 200));
    g.label(std::string("roundtrip:") + tname<T>()); g.nontrivial(r * c > 1); g.weight = r * c;
    M q(o.str()); equal(q, e, o.str());
    M p(3, 2, T(1)); p = o.str(); equal(p, e, o.str());
}

// any text is parsed to some matrix or stopped by an assertion
template <class T> static void arbitrary(Gen& g)
{
    typedef susa::matrix<T> M;
    std::string t;
    size_t n = g.size(0, 60);
    static const std::string al = "0123456789.+-eE,;[] \t\n\r";
    uint64_t kind = g.draw(3);
    for (size_t i = 0; i < n; i++)
    {
        if (kind == 0) t += (char)g.draw(255);
        else if (kind == 1) t += al[g.draw(al.size() - 1)];
        else if (kind == 2) t += std::string(" ;[],\n0")[g.draw(6)];
        else t += g.pick({std::string("1"), std::string(" "), std::string(";"), std::string("1 2"), std::string("-3.5"), std::string("\n"), std::string("]"), std::string("["), std::string(" ;"), std::string("; "), std::string("1;2"), std::string("  ]")});
    }
    bool assign = g.flip();
    NOTE(g, "arbitrary text of " << t.size() << " characters");
    g.label("arbitrary:" + std::to_string(kind)); g.nontrivial(n > 0);
    auto use = [](const M& m) { T s = T(); for (size_t i = 0; i < m.no_rows(); i++) for (size_t j = 0; j < m.no_cols(); j++) s = m(i, j);
        (void)s; PBT_CHECK(m.size() == m.no_rows() * m.no_cols(), "a parsed matrix of " << m.no_rows() << "x" << m.no_cols() << " has " << m.size() << " elements");
        M c(m); (void)c; };
    // the text lives in a heap block of exactly its size
    bool s = pbt::stopped([&] {
        std::string exact(t); exact.shrink_to_fit();
        if (assign) { M m(2, 3, T(1)); m = exact; use(m); m = "1 2;3 4"; PBT_CHECK(m.size() == 4 && m(1, 1) == T(4), "reuse after an odd text failed"); }
        else { M m(exact); use(m); m = "5 6"; PBT_CHECK(m.size() == 2 && m(0) == T(5) && m(1) == T(6), "reuse after an odd text failed"); } });
    g.label(s ? "arbitrary:stopped" : "arbitrary:parsed");
}

// rows of different length are diagnosed, whatever their total
template <class T> static void ragged(Gen& g)
{
    typedef susa::matrix<T> M; size_t rows = g.range(2, g.once_in(20) ? 40 : 6), odd = g.draw(rows - 1), n = g.range(1, 8), other = g.range(1, 8); std::vector<size_t> len(rows, n);
    if (g.flip()) for (auto& x : len) x = g.range(1, 8);
    else if (g.flip() && rows > 2) { size_t to = (odd + 1) % rows; if (len[to] > 1) { len[odd]++; len[to]--; } } // the total stays divisible
    if (len == std::vector<size_t>(rows, len[0])) len[odd] = other == len[odd] ? other + 1 : other;
    std::string t = g.flip() ? "[" : ""; const bool br = !t.empty(); size_t total = 0;
    for (size_t i = 0; i < rows; i++) { if (i) { t += g.flip() ? ";" : g.flip() ? "; " : "\n"; } for (size_t j = 0; j < len[i]; j++, total++) { if (j) t += g.flip() ? " " : ", "; t += std::to_string(g.draw(99)); } }
    if (br) t += "]";
    NOTE(g, "rows of different length: " << t); g.label(total % rows ? "ragged" : "ragged with a divisible total"); g.nontrivial();
    bool assign = g.flip(), s = pbt::stopped([&] { if (assign) { M m(2, 2, T(1)); m = t; } else { M m(t); } });
    PBT_CHECK(s, "the text \"" << t << "\" with rows of different length is read without a diagnosis");
}

static void property(Gen& g)
{
    if (g.once_in(15)) { with_type<double, int, uint8_t, float>(g, [&](auto t) { ragged<decltype(t)>(g); }); return; }
    uint64_t k = g.draw(9);
    if (k < 5) with_type<double, int, float, int8_t, uint8_t, unsigned, long>(g, [&](auto t) { grammar<decltype(t)>(g); });
    else if (k < 8) with_type<double, float, int, int8_t, uint8_t, unsigned>(g, [&](auto t) { roundtrip<decltype(t)>(g); });
    else with_type<double, int, uint8_t>(g, [&](auto t) { arbitrary<decltype(t)>(g); });
}
#include "pbt_main.h"
