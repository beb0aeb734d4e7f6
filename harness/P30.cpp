// Time stamps and the chronometer, on clocks this program controls.
#include "susagen.h"
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <iostream>
using namespace sg;

// While it is on, every clock the library could read shows these times.
static bool fake = false; static int64_t wall_s = 0, wall_ns = 0, mono_s = 0, mono_ns = 0;
static bool is_wall(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (!fake || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return (int)syscall(SYS_clock_gettime, c, t);
    t->tv_sec = is_wall(c) ? wall_s : mono_s; t->tv_nsec = is_wall(c) ? wall_ns : mono_ns; return 0;
}
extern "C" time_t time(time_t* p) noexcept
{
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec;
}
extern "C" int gettimeofday(struct timeval* __restrict p, void* __restrict) noexcept
{
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); p->tv_sec = t.tv_sec; p->tv_usec = t.tv_nsec / 1000; return 0;
}
extern "C" int timespec_get(struct timespec* t, int) noexcept { clock_gettime(CLOCK_REALTIME, t); return TIME_UTC; }
struct Fake { Fake() { fake = true; } ~Fake() { fake = false; } };

static bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int month_days(int64_t y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
// seconds since 1970 of a date of the proleptic Gregorian calendar
static int64_t seconds(int64_t y, int m, int d, int hh, int mm, int ss)
{
    auto before = [](int64_t y) { y--; return 365 * y + y / 4 - y / 100 + y / 400; }; // days in the years 1..y-1
    int64_t days = before(y) - before(1970); for (int k = 1; k < m; k++) days += month_days(y, k);
    return ((days + d - 1) * 24 + hh) * 3600 + mm * 60 + ss;
}
static void zone(const std::string& z) { setenv("TZ", z.c_str(), 1); tzset(); }

static void stamp(Gen& g)
{
    int64_t y; switch (g.draw(5)) { case 0: y = g.range(2000, 2099); break; case 1: y = g.range(1970, 1999); break; case 2: y = g.range(2100, 2500); break;
        case 3: { static const int64_t edge[] = {1970, 1999, 2000, 2009, 2010, 2038, 2099, 2100, 2199, 2400, 9999, 1900, 1969, 1000}; y = edge[g.draw(13)]; break; } case 4: y = g.range(1000, 9999); break; default: y = g.range(1, 9999); }
    int m = (int)g.range(1, 12), d = (int)(g.flip() ? g.range(1, month_days(y, m)) : g.flip() ? month_days(y, m) : 1), hh, mm, ss;
    if (g.once_in(4)) { hh = mm = ss = 0; } else if (g.once_in(4)) { hh = 23; mm = ss = 59; } else { hh = (int)g.range(0, 23); mm = (int)g.range(0, 59); ss = (int)g.range(0, 59); }
    char want[64]; std::snprintf(want, sizeof want, "%04lld%02d%02d%02d%02d%02d", (long long)y, m, d, hh, mm, ss);
    int64_t off = 0; std::string z = "UTC0"; bool daylight = false;
    if (g.flip()) { int min = (int)g.range(0, 14 * 60), sec = g.once_in(5) ? (int)g.range(0, 59) : 0; bool west = g.flip(); off = (west ? -1 : 1) * (min * 60 + sec); char b[64]; std::snprintf(b, sizeof b, "<ZZZ>%s%d:%02d:%02d", west ? "" : "-", min / 60, min % 60, sec); z = b; }
    else if (g.once_in(3)) { static const char* r[] = {"EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3", "<-03>3<-02>,M3.5.0/-2,M10.5.0/-1"}; z = r[g.draw(3)]; daylight = true; g.label("daylight saving"); }
    zone(z); wall_s = seconds(y, m, d, hh, mm, ss) - off; wall_ns = g.flip() ? 0 : 999999999;
    if (daylight) { time_t t = wall_s; struct tm b; localtime_r(&t, &b); std::snprintf(want, sizeof want, "%04d%02d%02d%02d%02d%02d", b.tm_year + 1900, b.tm_mon + 1, b.tm_mday, b.tm_hour, b.tm_min, b.tm_sec); }
    if (!daylight && wall_s < seconds(1, 1, 2, 0, 0, 0)) return;
    NOTE(g, "timestamp at " << wall_s << " s since 1970, TZ=" << z << ": " << want);
    std::string s; int k = g.once_in(3) ? 2 : 1;
    while (k--) { Fake f; s = susa::timestamp(); }
    zone("UTC0");
    PBT_CHECK(s == want, "the time stamp at " << wall_s << " s since 1970 with TZ=" << z << " is \"" << s << "\" instead of \"" << want << "\"");
    g.nontrivial(true); g.label(y < 1970 ? "before 1970" : y < 2000 ? "1970-1999" : y < 2100 ? "2000-2099" : "2100 and later");
}

static void chronometer(Gen& g)
{
    wall_s = g.range(0, 4000000000u); wall_ns = g.range(0, 999999999); mono_s = g.range(0, 100000000); mono_ns = g.range(0, 999999999);
    std::ostringstream h; int n = (int)g.range(2, 12); __int128 now = 0, tic = 0, last = 0; bool first = true; int tocs = 0, jumps = 0;
    auto shift = [](int64_t& s, int64_t& ns, int64_t ds, int64_t dns) { s += ds; ns += dns; if (ns >= 1000000000) { ns -= 1000000000; s++; } };
    for (int i = 0; i < n; i++)
    {
        uint64_t op = i == 0 ? 0 : g.draw(5);
        if (op == 0) { h << " tic"; { Fake f; susa::tic(); } tic = last = now; first = true; }
        else if (op == 1 || op == 2)
        {
            int64_t ds = 0, dns; switch (g.draw(4)) { case 0: dns = g.range(0, 999999999); break; case 1: dns = 1000000 * (int64_t)g.range(0, 999); break; case 2: ds = g.size(0, 100000); dns = g.range(0, 999999999); break; case 3: ds = g.range(0, 3000000000u); dns = g.range(0, 999999999); break; default: ds = 60 * (int64_t)g.range(0, 3000); dns = 0; }
            h << " +" << ds << "s+" << dns << "ns"; shift(wall_s, wall_ns, ds, dns); shift(mono_s, mono_ns, ds, dns); now += (__int128)ds * 1000000000 + dns;
            if (now > (__int128)8000000000000000000) return; // beyond what 64-bit nanoseconds hold
        }
        else if (op == 3 && g.flip()) { int64_t j = (int64_t)g.range(0, 200000) - 100000; wall_s += j; jumps++; h << " wall clock set by " << j << " s"; }
        else
        {
            double v; bool print = g.once_in(3);
            if (print)
            {
                std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); { Fake f; susa::toc_print(); } std::cout.rdbuf(old);
                size_t p = o.str().find_first_of("-0123456789"); PBT_CHECK(p != std::string::npos, "toc_print prints \"" << o.str() << "\", no number"); v = std::strtod(o.str().c_str() + p, nullptr);
            }
            else { Fake f; v = susa::toc(); }
            h << (print ? " toc_print=" : " toc=") << v; NOTE(g, h.str());
            double e = (double)(now - tic) * 1e-9, e2 = (double)(now - last) * 1e-9, tol = 1.5e-3 + (print ? 1e-5 : 1e-9) * e; tocs++;
            PBT_CHECK(std::fabs(v - e) <= tol || (!first && std::fabs(v - e2) <= tol), (print ? "toc_print shows " : "toc returns ") << v << " s, " << e << " s after tic, in the history" << h.str());
            last = now; first = false;
        }
    }
    NOTE(g, h.str()); g.nontrivial(tocs > 0); g.label(jumps ? "wall clock set" : "wall clock steady");
}
static void property(Gen& g) { if (g.flip()) stamp(g); else chronometer(g); }
#include "pbt_main.h"
