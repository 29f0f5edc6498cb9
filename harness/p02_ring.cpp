// P02: a ring buffer maps every integer position onto its slots modulo its size.
#include "vh.hpp"
#include <algorithm>
#include <vector>
#include "dsp/buffer.hpp"

using dsp::buff::RingBuffer;

static long emod(long a, long n) { long r = a % n; return r < 0 ? r + n : r; }

VSCENARIO(history, 2500, 60000) {
    int n = c.r.of({1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, c.r.i(1, 600)});
    std::vector<double> m;
    for (int i = 0; i < n; ++i) m.push_back(100 + i);
    RingBuffer<double> b = c.r.chance(.5) ? RingBuffer<double>(m) : RingBuffer<double>(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) b[i] = m[i];
    c.d("size=%d ", n);
    c.nontrivial = n > 1;
    auto it = b.begin();
    long x = 0;
    int next = 1000, wraps = 0;
    int ops = c.thorough ? 250 : 100;
    for (int o = 0; o < ops; ++o) {
        c.ev("ring_ops");
        long before = x;
        switch (c.r.i(0, 12)) {
            case 0: { long j = c.r.range(-5 * n, 5 * n); VCHECK(b[j] == m[emod(j, n)], "read", "size %d position %ld reads %g expected %g", n, j, b[j], m[emod(j, n)]); if (j < 0) c.ev("negative_positions"); break; }
            case 1: { long j = c.r.range(-5 * n, 5 * n); b[j] = next; m[emod(j, n)] = next++; break; }
            case 2: { long j = c.r.range(-2000000000, 2000000000); VCHECK(&b[j] == &b[emod(j, n)], "far", "size %d position %ld", n, j); break; }
            case 3: case 4: ++it; ++x; break;
            case 5: --it; --x; break;
            case 6: { int k = c.r.i(0, 3 * n); it += k; x += k; break; }
            case 7: { int k = c.r.i(0, 3 * n); it -= k; x -= k; break; }
            case 8: it++; ++x; break;
            case 9: *it = next; m[emod(x, n)] = next++; break;
            case 10: x = c.r.i(-3 * n, 3 * n); it.set_index(x); break;
            case 11: { auto a = it + c.r.i(0, 2 * n); VCHECK(*a == m[emod(a.get_index(), n)], "iter-plus", "size %d", n); break; }
            case 12: { long j = c.r.range(-3 * n, 3 * n); VCHECK(it[j] == m[emod(j, n)], "iter-subscript", "size %d position %ld", n, j); const auto ct = it; VCHECK(&ct[j] == &b[j], "iter-subscript", "size %d position %ld", n, j); break; }
        }
        if (emod(before, n) != emod(x, n) && before / n != x / n) ++wraps;
        VCHECK(&*it == &b[static_cast<int>(emod(x, n))], "iter-slot", "size %d iterator at %ld references another slot", n, x);
        VCHECK(*it == m[emod(x, n)], "iter-value", "size %d iterator at %ld reads %g expected %g", n, x, *it, m[emod(x, n)]);
    }
    c.d("wraps=%d x=%ld", wraps, x);
    c.ev("iterator_wraps", wraps);
    for (int i = 0; i < n; ++i) VCHECK(b[i] == m[i], "final", "slot %d %g expected %g", i, b[i], m[i]);
    // an iterator made for the buffer, told or not told where to start
    {
        RingBuffer<double>::RingIterator<double> a(&b), z(&b, static_cast<int>(x));
        VCHECK(a.get_index() == 0 && &*a == &b[0], "iter-ctor", "starts at %d", a.get_index());
        VCHECK(z.get_index() == x && &*z == &b[static_cast<int>(emod(x, n))], "iter-ctor", "starts at %d expected %ld", z.get_index(), x);
        RingBuffer<double>::RingIterator<double> q;
        q = z;
        VCHECK(&*q == &*z && q == z && !(q != z), "iter-copy", "at %d", q.get_index());
    }
    // one lap from begin to end visits every slot once in order
    int i = 0;
    for (auto q = b.begin(); q != b.end(); ++q, ++i) VCHECK(i < n && *q == m[i], "lap", "at %d", i);
    VCHECK(i == n, "lap", "visited %d of %d", i, n);
    std::vector<double> lap;
    std::copy(b.begin(), b.end(), std::back_inserter(lap));
    VCHECK(lap == m, "lap-copy", "std::copy lap differs");
    // endless iteration in both directions
    auto f = b.begin();
    for (int k = 0; k < 3 * n + 2; ++k, ++f) VCHECK(*f == m[k % n], "endless", "forward %d", k);
    auto g = b.begin();
    for (int k = 0; k > -3 * n - 2; --k, --g) VCHECK(*g == m[emod(k, n)], "endless-back", "backward %d", k);
}

VSCENARIO(delay_line, 800, 20000) {
    // the classic use: write at a moving head, read d samples behind
    int n = c.r.sz(1, 40), d = c.r.i(0, n - 1);
    c.d("size=%d delay=%d", n, d);
    c.nontrivial = n > 1 && d > 0;
    RingBuffer<double> b(static_cast<std::size_t>(n));
    std::vector<double> hist;
    for (int t = 0; t < 4 * n + 10; ++t) {
        double v = c.r.real(-1, 1);
        b[t] = v;
        hist.push_back(v);
        double e = t - d >= 0 ? hist[t - d] : 0;
        VCHECK(b[t - d] == e, "delay", "size %d t %d delay %d reads %g expected %g", n, t, d, b[t - d], e);
        c.ev("delayed_samples");
    }
}

// rings of a minute of audio, and heads that have been moving for hours
VSCENARIO(large, 6, 100) {
    int n = c.r.of({32767, 32768, 40000, 65535, 65536, 65537, 70000, 100000}) + c.r.i(0, 3);
    RingBuffer<int> b(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) b[i] = 5 * i + 1;
    c.d("large size=%d", n);
    c.nontrivial = true;
    long x = c.r.range(-2000000000, 2000000000);
    auto it = b.begin();
    it.set_index(static_cast<int>(x));
    for (int o = 0; o < 400; ++o) {
        switch (c.r.i(0, 5)) {
            case 0: ++it; ++x; break;
            case 1: --it; --x; break;
            case 2: { int k = c.r.i(0, 2 * n); it += k; x += k; break; }
            case 3: { int k = c.r.i(0, 2 * n); it -= k; x -= k; break; }
            case 4: { long j = c.r.range(-2000000000, 2000000000); VCHECK(b[static_cast<int>(j)] == 5 * emod(j, n) + 1, "far", "size %d position %ld", n, j); VCHECK(it[static_cast<int>(j)] == 5 * emod(j, n) + 1, "far", "size %d position %ld", n, j); break; }
            default: { int k = c.r.i(0, 2 * n); auto a = it + k; VCHECK(*a == 5 * emod(x + k, n) + 1, "far", "size %d position %ld + %d", n, x, k); }
        }
        if (x > 2100000000 || x < -2100000000) { x = c.r.range(-100, 100); it.set_index(static_cast<int>(x)); }
        VCHECK(*it == 5 * emod(x, n) + 1, "far", "size %d iterator at %ld reads %d", n, x, *it);
        c.ev("ring_ops");
    }
    for (long j : {-2147483648L, -2147483647L, 2147483646L, 2147483647L}) {        // the ends of what a position can be
        VCHECK(b[static_cast<int>(j)] == 5 * emod(j, n) + 1, "far", "size %d position %ld", n, j);
        auto e = b.begin();
        e.set_index(static_cast<int>(j));
        VCHECK(*e == 5 * emod(j, n) + 1, "far", "size %d iterator at %ld", n, j);
    }
    int i = 0;
    for (auto q = b.begin(); q != b.end(); ++q, ++i) VCHECK(i < n && *q == 5 * i + 1, "lap", "at %d", i);
    VCHECK(i == n, "lap", "visited %d of %d", i, n);
    c.ev("large_rings");
}

VSCENARIO(resizing, 800, 20000) {
    RingBuffer<int> b;
    std::vector<int> m;
    c.nontrivial = true;
    int next = 1;
    for (int o = 0; o < 20; ++o) {
        switch (c.r.i(0, 2)) {
            case 0: { int n = c.r.sz(0, 30); b.resize(n); m.resize(n); c.d("resize%d ", n); break; }
            case 1: { int n = c.r.sz(0, 60); b.reserve(n); c.d("reserve%d ", n); break; }
            default: if (!m.empty()) { int j = c.r.i(-90, 90); b[j] = next; m[emod(j, m.size())] = next++; }
        }
        c.ev("ring_ops");
        VCHECK(b.size() == m.size(), "resize-size", "size %zu expected %zu", b.size(), m.size());
        for (std::size_t i = 0; i < m.size(); ++i) VCHECK(b[i] == m[i], "resize-keeps", "slot %zu", i);
        if (!m.empty()) { VCHECK(b[m.size()] == m[0] && b[-1] == m.back(), "resize-wrap", "size %zu", m.size()); }
    }
}
int main(int a, char** v) { return vh::main_impl(a, v); }
