// Shared harness runtime: deterministic per-case PRNG, monitors' verdict recording,
// observation counters and the scenario registry. No dependency on maec.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <ctime>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline uint64_t hstr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Rng {
    uint64_t s = 1;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    // inclusive range
    int64_t range(int64_t lo, int64_t hi) {
        return lo + static_cast<int64_t>(next() % static_cast<uint64_t>(hi - lo + 1));
    }
    int i(int64_t lo, int64_t hi) { return static_cast<int>(range(lo, hi)); }
    // sizes: mostly small, now and then large or a size that programs single out
    int sz(int64_t lo, int64_t hi) {
        double u = unit();
        if (u < .965) return i(lo, hi);
        if (u < .99) return i(lo, hi * 8);
        return of({64, 128, 255, 256, 257, 440, 441, 512, 1000, 1024, 2048, 4096});
    }
    int chn(int64_t lo, int64_t hi) { return chance(.97) ? i(lo, hi) : chance(.9) ? i(lo, 17) : of({18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}); }
    double unit() { return static_cast<double>(next() >> 11) * 0x1.0p-53; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class V> auto& pick(V& v) { return v[next() % v.size()]; }
    template <class T> T of(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
};

struct Fail {
    std::string key, msg;
};

struct Case {
    Rng r;
    long idx = 0;
    bool thorough = false;
    std::string desc;       // human readable description of the generated case
    uint64_t sig = 0;       // signature of the case (shape and values)
    bool nontrivial = false;
    std::map<std::string, uint64_t>* events = nullptr;
    volatile int64_t* heart = nullptr;
    void beat() { ++heart[1]; }     // a long case is alive
    void ev(const char* name, uint64_t n = 1) { (*events)[name] += n; }
    void d(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        desc += b;
        sig = mix(sig ^ hstr(b));
    }
    void fold(uint64_t v) { sig = mix(sig ^ v); }
    void fold(double v) { uint64_t u; memcpy(&u, &v, 8); fold(u); }
};

[[noreturn]] inline void fail(const std::string& key, const char* fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Fail{key, b};
}
#define VCHECK(cond, key, ...) do { if (!(cond)) ::vh::fail(key, __VA_ARGS__); } while (0)

struct Scenario {
    std::string name;
    long quick, thorough;
    std::function<void(Case&)> body;
};
inline std::vector<Scenario>& registry() {
    static std::vector<Scenario> r;
    return r;
}
struct Reg {
    Reg(const char* n, long q, long t, std::function<void(Case&)> b) {
        registry().push_back({n, q, t, std::move(b)});
    }
};
#define VSCENARIO(name, quick, thorough)                                   \
    static void scen_##name(::vh::Case& c);                                \
    static ::vh::Reg reg_##name(#name, quick, thorough, scen_##name);      \
    static void scen_##name([[maybe_unused]] ::vh::Case& c)

inline bool close(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= tol;
}

inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += static_cast<char>(ch);
    }
    return o;
}

// argv: --list | --scenario S --from A --to B --seed N --tier T --out F --progress F
inline int main_impl(int argc, char** argv) {
    std::string scen, out, progress, tier = "quick";
    long from = 0, to = 0;
    uint64_t seed = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(argv[++i]); };
        if (a == "--list") {
            for (auto& s : registry()) printf("%s %ld %ld\n", s.name.c_str(), s.quick, s.thorough);
            return 0;
        }
        if (a == "--scenario") scen = nxt();
        else if (a == "--from") from = atol(nxt().c_str());
        else if (a == "--to") to = atol(nxt().c_str());
        else if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--tier") tier = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--progress") progress = nxt();
    }
    const Scenario* sc = nullptr;
    for (auto& s : registry()) if (s.name == scen) sc = &s;
    if (!sc) { fprintf(stderr, "no scenario %s\n", scen.c_str()); return 3; }
    volatile int64_t* prog = nullptr;
    static int64_t dummy[2];
    prog = dummy;
    if (!progress.empty()) {
        int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 64) != 0) { perror("progress"); return 3; }
        prog = static_cast<volatile int64_t*>(mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "a");
    std::map<std::string, uint64_t> events;
    std::map<std::string, int> nfail;
    int nsamples = 0, slow = 0;
    for (long i = from; i < to; ++i) {
        *prog = i;
        Case c;
        c.idx = i;
        c.thorough = tier == "thorough";
        c.events = &events;
        c.heart = prog;
        c.r.s = mix(seed * 0x1234567ull + hstr(scen)) ^ mix(static_cast<uint64_t>(i) + 77);
        bool failed = false;
        Fail fl;
        timespec t0, t1;
        clock_gettime(CLOCK_MONOTONIC, &t0);
        try { sc->body(c); }
        catch (Fail& e) { failed = true; fl = e; }
        catch (std::exception& e) { failed = true; fl = Fail{"exception", e.what()}; }
        if (failed) {
            if (nfail[fl.key]++ < 3)
                fprintf(f, "{\"t\":\"fail\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}\n", i,
                        jesc(fl.key).c_str(), jesc(fl.msg).c_str(), jesc(c.desc.substr(0, 3000)).c_str());
        }
        fprintf(f, "%c%016llx\n", c.nontrivial ? '+' : '-', static_cast<unsigned long long>(c.sig));
        if (nsamples < 2 && c.nontrivial) {
            ++nsamples;
            fprintf(f, "{\"t\":\"sample\",\"case\":%ld,\"desc\":\"%s\"}\n", i, jesc(c.desc.substr(0, 400)).c_str());
        }
        fflush(f);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if (failed && t1.tv_sec - t0.tv_sec > 5 && ++slow >= 2) break;      // cases that fail by waiting
    }
    for (auto& [k, v] : events)
        fprintf(f, "{\"t\":\"ev\",\"name\":\"%s\",\"n\":%llu}\n", k.c_str(), static_cast<unsigned long long>(v));
    fprintf(f, "{\"t\":\"end\"}\n");
    fclose(f);
    *prog = -1;
    return 0;
}
}  // namespace vh

#ifdef VH_MAIN
int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
#endif
