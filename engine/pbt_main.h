// The drivers of the engine: run, replay, shrink, prefix; or a libFuzzer target.
#ifndef PBT_MAIN_H
#define PBT_MAIN_H

#include "pbt.h"
#include <csetjmp>
#include <csignal>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define PBT_ASAN 1
#endif
#ifdef PBT_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace pbt
{
inline void on_hang(int)
{
    static const char m[] = "PBT-HANG: the case used up its CPU time\n";
    if (status()) { std::strcpy(status()->msg, "the case used up its CPU time (no termination)"); status()->failed = 1; }
    if (write(2, m, sizeof(m) - 1)) {}
    _exit(EXIT_HANG);
}

inline void arm(int secs)
{
    struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = secs;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

inline Status* map_status(const char* file)
{
    if (!file) return (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int fd = open(file, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) { std::perror(file); std::_Exit(2); }
    void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::_Exit(2); }
    return (Status*)p;
}

#ifndef PBT_CASE_SECS
#define PBT_CASE_SECS 30
#endif

inline void run_case(Gen& g, void (*prop)(Gen&))
{
    Status* s = status();
    if (s) { s->n = 0; s->overflow = 0; s->failed = 0; s->phase = 1; s->msg[0] = 0; }
    arm(PBT_CASE_SECS);
#if defined(PBT_LEAK) && defined(PBT_ASAN)
    // Memory still held when a case has ended was leaked by it if the same choices
    // hold more memory again each time they are run again (so it is no cache).
    size_t held = __sanitizer_get_current_allocated_bytes();
    prop(g);
    if (__sanitizer_get_current_allocated_bytes() > held && s && !s->overflow && !g.no_leak_check)
    {
        std::vector<uint64_t> c(s->choices, s->choices + s->n);
        bool leak = true; size_t lost = 0;
        for (int i = 0; i < 3 && leak; i++)
        {
            Gen r; r.mode = Gen::REPLAY; r.rep = c.data(); r.rep_n = c.size();
            held = __sanitizer_get_current_allocated_bytes();
            s->n = 0;
            prop(r);
            size_t now = __sanitizer_get_current_allocated_bytes();
            lost = now > held ? now - held : 0;
            leak = lost > 0;
        }
        if (leak) fail("memory leaked: " + std::to_string(lost) + " bytes are still held after everything was destroyed");
    }
#else
    prop(g);
#endif
    arm(0);
    if (s) s->phase = 0;
}

inline uint64_t case_seed(uint64_t seed, uint64_t shard, uint64_t idx)
{
    uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ (shard << 48) ^ idx * 0xd1342543de82ef95ull;
    return Rng::mix(x);
}

inline std::string json_str(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

// run one choice sequence in a child; returns true if it still fails
inline bool child_fails(const std::vector<uint64_t>& c, void (*prop)(Gen&), std::vector<uint64_t>* used = nullptr)
{
    Status* s = status();
    std::fflush(nullptr);
    s->n = 0; s->failed = 0; s->msg[0] = 0;
    pid_t p = fork();
    if (p == 0)
    {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        Gen g; g.mode = Gen::REPLAY; g.rep = c.data(); g.rep_n = c.size();
        run_case(g, prop);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad && used && !s->overflow) used->assign(s->choices, s->choices + s->n);
    return bad;
}

inline std::vector<uint64_t> shrink(std::vector<uint64_t> best, void (*prop)(Gen&), double budget)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return budget - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 0; };
    auto attempt = [&](const std::vector<uint64_t>& c) {
        std::vector<uint64_t> u = c;
        if (!child_fails(c, prop, &u)) return false;
        bool better = u.size() < best.size() || (u.size() == best.size() && u < best);
        if (better) { best = u; return true; }
        if (c.size() < best.size() || (c.size() == best.size() && c < best)) { best = c; return true; }
        return false;
    };
    bool progress = true;
    while (progress && left())
    {
        progress = false;
        for (size_t k = best.size() / 2; k >= 1 && left(); k /= 2) // delete blocks
            for (size_t i = 0; i + k <= best.size() && left();)
            {
                std::vector<uint64_t> c(best); c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true; else i += k;
            }
        for (size_t k = 16; k >= 1 && left(); k /= 4) // zero blocks
            for (size_t i = 0; i < best.size() && left(); i += k)
            {
                std::vector<uint64_t> c(best); bool any = false;
                for (size_t j = i; j < i + k && j < c.size(); j++) { any |= c[j] != 0; c[j] = 0; }
                if (any && attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.size() && left(); i++) // lower single values
        {
            uint64_t lo = 0;
            while (i < best.size() && best[i] > lo && left())
            {
                std::vector<uint64_t> c(best); uint64_t mid = lo + (best[i] - lo) / 2; c[i] = mid;
                if (mid >= best[i]) break;
                if (attempt(c)) progress = true; else { if (lo == mid + 1) break; lo = mid + 1; }
            }
            // lower a value and drop the next one (sizes and the elements they govern)
            if (i + 1 < best.size() && best[i] > 0 && left())
                for (size_t j = i + 1; j < best.size() && j < i + 24 && left(); j++)
                {
                    std::vector<uint64_t> c(best); c[i]--; c.erase(c.begin() + j);
                    if (attempt(c)) { progress = true; break; }
                }
        }
    }
    return best;
}

inline const char* arg(int argc, char** argv, const char* key, const char* def)
{ for (int i = 1; i + 1 < argc; i++) if (!std::strcmp(argv[i], key)) return argv[i + 1]; return def; }

inline std::vector<uint64_t> read_choices(const char* f)
{
    std::vector<uint64_t> c; FILE* fp = std::fopen(f, "r"); if (!fp) { std::perror(f); std::_Exit(2); }
    unsigned long long v; while (std::fscanf(fp, "%llu", &v) == 1) c.push_back(v);
    std::fclose(fp); return c;
}

// Examples are cases too costly to be drawn: their choices are given (the rest is drawn), each is
// run once by the shard of its number.
#ifndef PBT_EXAMPLES
#define PBT_EXAMPLES {}
#endif
inline std::vector<std::vector<uint64_t>> examples(uint64_t shard)
{
    std::vector<std::vector<uint64_t>> all = PBT_EXAMPLES, mine;
    for (size_t i = 0; i < all.size(); i++) if (i % 8 == shard % 8) mine.push_back(all[i]);
    return mine;
}

inline int drive(int argc, char** argv, void (*prop)(Gen&))
{
    std::signal(SIGVTALRM, on_hang);
    std::string cmd = argc > 1 ? argv[1] : "";
    status() = map_status(arg(argc, argv, "--status", nullptr));
    status()->magic = MAGIC;
    if (cmd == "run" || cmd == "prefix")
    {
        uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), 0, 10);
        uint64_t shard = strtoull(arg(argc, argv, "--shard", "0"), 0, 10);
        uint64_t cases = strtoull(arg(argc, argv, "--cases", "1000"), 0, 10);
        double   tlim = atof(arg(argc, argv, "--time", "1e9"));
        const char* out = arg(argc, argv, "--out", nullptr);
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> seen;
        uint64_t total = 0, nontriv = 0, evals = 0; std::vector<std::string> samples;
        seen.reserve(1 << 16);
        const auto ex = examples(shard);
        auto t0 = std::chrono::steady_clock::now();
        for (uint64_t i = 0; i < cases; i++)
        {
            Gen g; g.rng = Rng(case_seed(seed, shard, i)); g.labels = &labels;
            if (i < ex.size()) { g.rep = ex[i].data(); g.rep_n = ex[i].size(); }
            g.verbose = out && samples.size() < 3 && (i == 0 || (i & (i - 1)) == 0);
            status()->case_index = i;
            run_case(g, prop);
            total++; evals += g.weight;
            if (g.is_nontrivial) { nontriv++; seen.insert(g.hash); if (g.verbose) samples.push_back(g.notes.str()); }
            if ((i & 15) == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tlim) break;
        }
        status()->done = 1;
        if (out)
        {
            FILE* f = std::fopen(out, "w");
            std::fprintf(f, "{\"cases\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"labels\":{",
                (unsigned long long)total, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)seen.size());
            bool first = true;
            for (auto& l : labels) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(l.first).c_str(), (unsigned long long)l.second); first = false; }
            std::fprintf(f, "},\"samples\":[");
            for (size_t i = 0; i < samples.size(); i++) std::fprintf(f, "%s%s", i ? "," : "", json_str(samples[i]).c_str());
            std::fprintf(f, "]}\n"); std::fclose(f);
            f = std::fopen((std::string(out) + ".hashes").c_str(), "wb");
            for (uint64_t h : seen) std::fwrite(&h, 8, 1, f);
            std::fclose(f);
        }
        return 0;
    }
    if (cmd == "replay")
    {
        auto c = read_choices(arg(argc, argv, "--choices", "choices.txt"));
        Gen g; g.mode = Gen::REPLAY; g.rep = c.data(); g.rep_n = c.size(); g.verbose = true;
        run_case(g, prop);
        std::fprintf(stderr, "PBT-PASS: %s\n", g.notes.str().c_str());
        return 0;
    }
    if (cmd == "shrink")
    {
        auto c = read_choices(arg(argc, argv, "--choices", "choices.txt"));
        c = shrink(c, prop, atof(arg(argc, argv, "--budget", "20")));
        FILE* f = std::fopen(arg(argc, argv, "--out", "shrunk.txt"), "w");
        for (uint64_t v : c) std::fprintf(f, "%llu\n", (unsigned long long)v);
        std::fclose(f);
        return 0;
    }
    std::fprintf(stderr, "usage: run|prefix|replay|shrink\n");
    return 2;
}

inline void fuzz_one(const uint8_t* d, size_t n, void (*prop)(Gen&))
{
    static bool init = false;
    if (!init)
    {
        init = true;
        const char* f = std::getenv("PBT_STATUS");
        status() = map_status(f); status()->magic = MAGIC;
    }
    Gen g; g.mode = Gen::BYTES; g.byt = d; g.byt_n = n;
    Status* s = status(); s->n = 0; s->overflow = 0; s->failed = 0; s->phase = 1; s->msg[0] = 0;
    prop(g);
    s->phase = 0; s->case_index++;
}
} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { pbt::fuzz_one(d, n, property); return 0; }
#else
int main(int argc, char** argv) { return pbt::drive(argc, argv, property); }
#endif

#endif
