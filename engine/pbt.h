// A small property-based testing engine: every generated case is a sequence of
// recorded choices, so any failure can be replayed and shrunk from the choices.
//
// A harness defines
//     static const char* PBT_ID, *PBT_RULE;
//     static void property(pbt::Gen& g);
// and includes pbt_main.h at its end.
#ifndef PBT_H
#define PBT_H

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <functional>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace pbt
{

constexpr size_t   MAX_CHOICES = 1u << 18;
constexpr uint64_t MAGIC       = 0x50425431u;
constexpr int      EXIT_FAIL   = 77;   // the oracle rejected the case
constexpr int      EXIT_HANG   = 78;   // the case used up its CPU time

// shared with the runner through a mapped file, so that it survives a crash
struct Status
{
    uint64_t magic;
    uint64_t case_index;
    uint64_t phase;      // 0 idle, 1 inside a case
    uint64_t n;          // number of recorded choices
    uint64_t overflow;   // more choices than can be recorded
    uint64_t failed;
    uint64_t done;
    char     msg[8192];
    uint64_t choices[MAX_CHOICES];
};

inline Status*& status() { static Status* s = nullptr; return s; }

struct Rng
{
    uint64_t s[4];
    static uint64_t mix(uint64_t& x)
    {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 1) { for (auto& v : s) v = mix(seed); }
    uint64_t next()
    {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t upto(uint64_t max) // uniform in [0,max]
    {
        if (max == ~0ull) return next();
        return (uint64_t)(((unsigned __int128)next() * (max + 1)) >> 64);
    }
};

[[noreturn]] inline void fail(const std::string& msg)
{
    if (status())
    {
        std::snprintf(status()->msg, sizeof(status()->msg), "%s", msg.c_str());
        status()->failed = 1;
    }
    std::fprintf(stderr, "PBT-FAIL: %s\n", msg.c_str());
    std::fflush(stderr);
    std::_Exit(EXIT_FAIL);
}

class Gen
{
  public:
    enum Mode { RANDOM, REPLAY, BYTES };
    Mode     mode = RANDOM;
    Rng      rng;
    const uint64_t* rep = nullptr;  size_t rep_n = 0;
    const uint8_t*  byt = nullptr;  size_t byt_n = 0, byt_i = 0;
    size_t   n = 0;
    bool     verbose = false;      // notes are wanted
    bool     is_nontrivial = false;
    bool     no_leak_check = false;
    uint64_t hash = 1469598103934665603ull;
    std::map<std::string, uint64_t>* labels = nullptr;
    std::ostringstream notes;
    uint64_t weight = 1;           // elementary evaluations in this case

    bool random() const { return mode == RANDOM && n >= rep_n; } // an example's choices come first

    //! A number in [0,max], uniform in random mode; 0 is the simplest.
    uint64_t draw(uint64_t max)
    {
        uint64_t v = 0;
        if (max == 0) return 0;
        if (random()) v = rng.upto(max);
        else if (mode != BYTES) { if (n < rep_n) v = rep[n]; if (v > max) v = max; }
        else
        {
            int nb = 1; while (nb < 8 && (max >> (8 * nb))) nb++;
            for (int i = 0; i < nb; i++) { uint8_t b = byt_i < byt_n ? byt[byt_i] : 0; byt_i++; v |= (uint64_t)b << (8 * i); }
            if (max != ~0ull) v %= (max + 1);
        }
        record(v);
        return v;
    }

    //! An integer in [lo,hi] that prefers the bounds a bit; lo is the simplest.
    int64_t range(int64_t lo, int64_t hi)
    {
        uint64_t span = (uint64_t)hi - (uint64_t)lo;
        if (span == 0) return lo;
        if (!random()) return lo + (int64_t)draw(span);
        uint64_t k = rng.upto(15), v;
        if (k == 0) v = 0;
        else if (k == 1) v = span;
        else if (k == 2) v = span - (span > 0 ? rng.upto(span < 3 ? span : 3) : 0);
        else v = rng.upto(span);
        record(v);
        return lo + (int64_t)v;
    }

    //! true once in k; false is the simplest
    bool once_in(uint64_t k)
    {
        if (k <= 1) return true;
        return draw(k - 1) == k - 1;
    }
    bool flip() { return draw(1) != 0; }

    //! a size in [lo,hi]: mostly small, sometimes up to hi
    size_t size(size_t lo, size_t hi)
    {
        if (hi <= lo) return lo;
        size_t span = hi - lo;
        if (!random()) return lo + draw(span);
        uint64_t k = rng.upto(99), v;
        if (k < 60)      v = rng.upto(span < 4  ? span : 4);
        else if (k < 90) v = rng.upto(span < 10 ? span : 10);
        else if (k < 97) v = rng.upto(span < 24 ? span : 24);
        else             v = rng.upto(span);
        if (v > span) v = span;
        record(v);
        return lo + v;
    }

    //! a signed integer of magnitude up to mag, simplest 0
    int64_t sint(int64_t mag)
    {
        uint64_t max = 2 * (uint64_t)mag, v;
        if (!random()) v = draw(max);
        else
        {
            uint64_t k = rng.upto(15);
            if (k == 0) v = 0;
            else if (k == 1) v = max;
            else if (k == 2) v = max ? max - 1 : 0;
            else if (k < 7) v = rng.upto(max < 6 ? max : 6);
            else v = rng.upto(max);
            record(v);
        }
        return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
    }

    //! a finite real in [lo,hi]; lo (or 0) is the simplest
    double real(double lo, double hi)
    {
        uint64_t kind = draw(7);
        double base = (lo <= 0 && hi >= 0) ? 0.0 : lo;
        double v;
        if (kind == 0) { // small integers
            v = std::floor(base) + (double)sint(5);
        } else if (kind == 1) { // simple fractions
            v = base + (double)sint(40) / 8.0;
        } else {
            v = lo + (hi - lo) * ((double)draw((1ull << 53) - 1) / 9007199254740992.0);
        }
        if (!(v >= lo)) v = lo;
        if (!(v <= hi)) v = hi;
        return v;
    }

    template <class C> auto pick(const C& c) -> typename std::remove_reference<decltype(c[0])>::type
    { return c[draw(c.size() - 1)]; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }

    //! derive a generator of bulk data from a single choice
    Rng bulk() { return Rng(draw(0xffffffffull)); }

    void label(const std::string& l) { if (labels) (*labels)[l]++; }
    void nontrivial(bool b = true) { is_nontrivial = b; }
    std::ostream& note() { return notes; }

  private:
    void record(uint64_t v)
    {
        Status* s = status();
        if (s) { if (n < MAX_CHOICES) s->choices[n] = v; else s->overflow = 1; s->n = n + 1 < MAX_CHOICES ? n + 1 : MAX_CHOICES; }
        n++;
        hash = (hash ^ v) * 1099511628211ull; hash ^= hash >> 29;
    }
};

template <class T> std::string str(const T& t) { std::ostringstream o; o.precision(17); o << t; return o.str(); }
inline std::string str(int8_t t)  { return std::to_string((int)t); }
inline std::string str(uint8_t t) { return std::to_string((unsigned)t); }
template <class T> std::string str(const std::vector<T>& v)
{ std::string s = "{"; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + str((T)v[i]); return s + "}"; }

} // namespace pbt

#define PBT_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream pbt_o; pbt_o.precision(17); \
    pbt_o << msg << "  [" << #cond << "]"; pbt::fail(pbt_o.str()); } } while (0)
#define NOTE(g, msg) do { if ((g).verbose) { (g).notes.precision(10); (g).notes << msg; } } while (0)

#endif
