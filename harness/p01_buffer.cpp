// P01: every addressing form of a multi-channel buffer designates the same samples.
#include "vh.hpp"
#include <algorithm>
#include <array>
#include <vector>
#include "audio_buffer.hpp"
#include "dsp/buffer.hpp"

using vh::Case;
using dsp::buff::Buffer;
using dsp::buff::StaticBuffer;

// The reference: interleaved storage `v`, frame f of channel ch at v[f*channels+ch].
template <class T> struct Model {
    std::vector<T> v;
    int ch = 1;
    int frames() const { return static_cast<int>(v.size()) / ch; }
    int seq_to_lin(int idx) const { int cap = frames(); return (idx % cap) * ch + idx / cap; }
};

template <class T> static T uniq(int i) { return static_cast<T>(1000 + 7 * i); }

template <class Buf, class T> static void check_views(Case& c, Buf& b, const Model<T>& m, const char* how) {
    std::string k = std::string("views-") + how;
    const Buf& cb = b;
    int n = static_cast<int>(m.v.size());
    VCHECK(static_cast<int>(b.size()) == n, k, "size %zu expected %d", b.size(), n);
    VCHECK(static_cast<int>(b.channels()) == m.ch, k, "channels %zu expected %d", b.channels(), m.ch);
    VCHECK(static_cast<int>(b.channel_capacity()) == m.frames(), k, "capacity %zu expected %d", b.channel_capacity(), m.frames());
    for (int i = 0; i < n; ++i) {
        VCHECK(b.at(i) == m.v[i] && cb.at(i) == m.v[i], k, "at(%d)", i);
        int ch = i % m.ch, s = i / m.ch;
        VCHECK(&b.at(ch, s) == &b.at(i) && &cb.at(ch, s) == &cb.at(i), k, "at(%d,%d) is not at(%d)", ch, s, i);
    }
    int i = 0;
    for (auto it = b.ibegin(); it != b.iend(); ++it, ++i) {
        VCHECK(i < n, k, "inter iteration does not stop at %d", n);
        VCHECK(it.get_channel() == i % m.ch && it.get_sample() == i / m.ch, k, "inter index %d reported as channel %d sample %d", i,
               it.get_channel(), it.get_sample());
        VCHECK(&*it == &b.at(i), k, "inter index %d wrong sample", i);
    }
    VCHECK(i == n, k, "inter visits %d of %d", i, n);
    i = 0;
    for (auto it = b.sbegin(); it != b.send(); ++it, ++i) {
        VCHECK(i < n, k, "seq iteration does not stop at %d", n);
        VCHECK(it.get_channel() == i / m.frames() && it.get_sample() == i % m.frames(), k,
               "seq index %d reported as channel %d sample %d", i, it.get_channel(), it.get_sample());
        VCHECK(&*it == &b.at(it.get_channel(), it.get_sample()), k, "seq index %d wrong sample", i);
        VCHECK(&*it == &b.at(m.seq_to_lin(i)), k, "seq index %d not frame-major", i);
    }
    VCHECK(i == n, k, "seq visits %d of %d", i, n);
    i = 0;
    for (auto it = cb.icbegin(); it != cb.icend(); ++it, ++i) VCHECK(&*it == &cb.at(i), k, "const inter %d", i);
    VCHECK(i == n, k, "const inter visits %d of %d", i, n);
    i = 0;
    for (auto it = cb.scbegin(); it != cb.scend(); ++it, ++i) VCHECK(&*it == &cb.at(m.seq_to_lin(i)), k, "const seq %d", i);
    VCHECK(i == n, k, "const seq visits %d of %d", i, n);
    i = n;
    for (auto it = b.irbegin(); it != b.irend(); ++it) { --i; VCHECK(i >= 0 && *it == m.v[i], k, "reverse inter %d", i); }
    VCHECK(i == 0, k, "reverse inter stopped at %d", i);
    i = n;
    for (auto it = b.srbegin(); it != b.srend(); ++it) { --i; VCHECK(i >= 0 && *it == m.v[m.seq_to_lin(i)], k, "reverse seq %d", i); }
    VCHECK(i == 0, k, "reverse seq stopped at %d", i);
    i = 0;
    for (T& x : b) { VCHECK(&x == &b.at(i), k, "default iteration %d", i); ++i; }
    VCHECK(i == n, k, "default iteration visits %d of %d", i, n);
    c.ev("buffer_views_checked");
    c.ev("samples_addressed", static_cast<uint64_t>(n) * 9);
}

template <class T> static Model<T> gen(Case& c, int maxch, int maxfr, int minfr = 1) {
    Model<T> m;
    m.ch = c.r.chn(1, maxch);
    int fr = c.r.sz(minfr, maxfr);
    for (int i = 0; i < m.ch * fr; ++i) m.v.push_back(uniq<T>(i));
    c.d("channels=%d frames=%d ", m.ch, fr);
    c.nontrivial = m.ch > 1 && fr > 1;
    return m;
}

template <class T> static void construct(Case& c, const char* tn) {
    auto m = gen<T>(c, 8, 33);
    double sra = c.r.of({44100., 8000., 48000., 1.});
    int how = c.r.i(0, 6);
    c.d("type=%s ctor=%d sra=%g", tn, how, sra);
    auto fill = [&](auto& b) { std::copy(m.v.begin(), m.v.end(), b.ibegin()); };
    auto rate = [&](auto& b) { VCHECK(b.get_samplerate() == sra, "samplerate", "rate %g expected %g", b.get_samplerate(), sra); };
    if (how == 0) {
        Buffer<T> b(m.frames(), m.ch, sra);
        for (int i = 0; i < static_cast<int>(b.size()); ++i) VCHECK(b.at(i) == T(0), "fresh-zero", "fresh buffer not silent at %d", i);
        fill(b); rate(b); check_views<Buffer<T>, T>(c, b, m, "int-ctor");
    } else if (how == 1) {
        Buffer<T> b(static_cast<std::size_t>(m.frames()), m.ch, sra);
        fill(b); rate(b); check_views<Buffer<T>, T>(c, b, m, "size-ctor");
    } else if (how == 2) {
        Buffer<T> b(m.v, m.ch, sra); rate(b); check_views<Buffer<T>, T>(c, b, m, "vector-ctor");
    } else if (how == 3) {
        Buffer<T> b(m.v.begin(), m.v.end(), m.ch, sra); rate(b); check_views<Buffer<T>, T>(c, b, m, "iter-ctor");
    } else if (how == 4) {
        // fill sequentially; the linear model follows
        Buffer<T> b(m.frames(), m.ch, sra);
        std::vector<T> seq;
        for (int i = 0; i < static_cast<int>(m.v.size()); ++i) seq.push_back(m.v[m.seq_to_lin(i)]);
        std::copy(seq.begin(), seq.end(), b.sbegin());
        rate(b); check_views<Buffer<T>, T>(c, b, m, "seq-fill");
    } else if (how == 5) {
        Buffer<T> b(m.frames(), m.ch, sra);
        for (int s = 0; s < m.frames(); ++s)
            for (int ch = 0; ch < m.ch; ++ch) b.at(ch, s) = m.v[s * m.ch + ch];
        rate(b); check_views<Buffer<T>, T>(c, b, m, "at-fill");
    } else {
        Buffer<T> b;
        b.set_samplerate(sra);
        b.set_channels(m.ch);
        for (T x : m.v) b.push_back(x);
        rate(b); check_views<Buffer<T>, T>(c, b, m, "push-fill");
    }
}

VSCENARIO(construct, 1500, 40000) {
    switch (c.r.i(0, 3)) {
        case 0: construct<double>(c, "double"); break;
        case 1: construct<int>(c, "int"); break;
        case 2: construct<float>(c, "float"); break;
        default: construct<int16_t>(c, "int16"); break;
    }
}

// What a constructor is not told it fills in: one channel at the default rate.
template <class Buf, class T> static void expect(Case& c, Buf& b, const std::vector<T>& v, int ch, double rate, const char* how) {
    std::string k = std::string("default-") + how;
    VCHECK(b.get_samplerate() == rate, k, "rate %g expected %g", b.get_samplerate(), rate);
    Model<T> m;
    m.v = v;
    m.ch = ch;
    check_views<Buf, T>(c, b, m, how);
}
template <class Buf, class T> static void defaults(Case& c, const char* what) {
    int n = c.r.i(1, 40), ch = c.r.chn(1, 6);
    std::vector<T> v, z;
    for (int i = 0; i < n * ch; ++i) v.push_back(uniq<T>(c.r.i(0, 50)));
    z.assign(n, T(0));
    std::vector<T> zc(n * ch, T(0));
    double rate = c.r.real(1, 1e5);
    const double def = dsp::consts::SAMPLE_RATE;
    VCHECK(def == 44100, "default-rate", "the default rate is %g", def);
    c.d("%s defaulted constructors frames=%d channels=%d rate=%g", what, n, ch, rate);
    c.nontrivial = n > 1 && ch > 1;
    { Buf b(n); expect<Buf, T>(c, b, z, 1, def, "int"); }
    { Buf b(n, ch); expect<Buf, T>(c, b, zc, ch, def, "int-channels"); }
    { Buf b(static_cast<std::size_t>(n)); expect<Buf, T>(c, b, z, 1, def, "size"); }
    { Buf b(static_cast<std::size_t>(n), ch); expect<Buf, T>(c, b, zc, ch, def, "size-channels"); }
    { Buf b(static_cast<std::size_t>(n), ch, rate); expect<Buf, T>(c, b, zc, ch, rate, "size-all"); }
    { Buf b(v); expect<Buf, T>(c, b, v, 1, def, "vector"); }
    { Buf b(v, ch); expect<Buf, T>(c, b, v, ch, def, "vector-channels"); }
    { Buf b(v, ch, rate); expect<Buf, T>(c, b, v, ch, rate, "vector-all"); }
    { Buf b(v.begin(), v.end()); expect<Buf, T>(c, b, v, 1, def, "range"); }
    { Buf b(v.begin(), v.end(), ch); expect<Buf, T>(c, b, v, ch, def, "range-channels"); }
    { Buf b(v.begin(), v.end(), ch, rate); expect<Buf, T>(c, b, v, ch, rate, "range-all"); }
    T x = uniq<T>(c.r.i(0, 90)), y = uniq<T>(c.r.i(0, 90)), w = uniq<T>(c.r.i(0, 90));
    std::vector<T> l{x, y, w, y, x, w};
    { Buf b(std::initializer_list<T>{x, y, w, y, x, w}); expect<Buf, T>(c, b, l, 1, def, "list"); }
    { Buf b(std::initializer_list<T>{x, y, w, y, x, w}, 2); expect<Buf, T>(c, b, l, 2, def, "list-channels"); }
    { Buf b(std::initializer_list<T>{x, y, w, y, x, w}, 3, rate); expect<Buf, T>(c, b, l, 3, rate, "list-all"); }
    // assignment of a container replaces the samples and nothing else
    Buf b(v, ch, rate);
    std::vector<T> u;
    int k = ch * c.r.i(1, 20);
    for (int i = 0; i < k; ++i) u.push_back(uniq<T>(c.r.i(0, 90)));
    b = u;
    expect<Buf, T>(c, b, u, ch, rate, "assign-copy");
    VCHECK(static_cast<int>(u.size()) == k, "assign-source", "a copy assignment changed its source");
    std::vector<T> gone(v);
    b = std::move(gone);
    expect<Buf, T>(c, b, v, ch, rate, "assign-move");
    // buffers copy and move whole, with what describes them
    Buf d(b);
    expect<Buf, T>(c, d, v, ch, rate, "copy");
    Buf e(std::move(d));
    expect<Buf, T>(c, e, v, ch, rate, "move");
    Buf f(1);
    f = e;
    expect<Buf, T>(c, f, v, ch, rate, "copy-assign");
    Buf g(1);
    g = std::move(e);
    expect<Buf, T>(c, g, v, ch, rate, "move-assign");
    c.ev("defaulted_constructors", 14);
}
VSCENARIO(defaults, 300, 8000) {
    switch (c.r.i(0, 3)) {
        case 0: defaults<Buffer<double>, double>(c, "Buffer<double>"); break;
        case 1: defaults<Buffer<int16_t>, int16_t>(c, "Buffer<int16>"); break;
        case 2: defaults<dsp::buff::BaseBuffer<std::vector<double>>, double>(c, "BaseBuffer<double>"); break;
        default: defaults<dsp::buff::BaseBuffer<std::vector<int>>, int>(c, "BaseBuffer<int>"); break;
    }
}

VSCENARIO(factory, 200, 4000) {
    int ch = c.r.chn(1, 9), fr = c.r.sz(0, 50);
    double sra = c.r.real(1, 96000);
    c.d("create_buffer frames=%d channels=%d rate=%g", fr, ch, sra);
    c.nontrivial = fr > 1 && ch > 1;
    auto a = create_buffer(fr, ch);
    auto b = create_buffer(fr, ch, sra);
    VCHECK(static_cast<int>(a->size()) == fr * ch && static_cast<int>(b->size()) == fr * ch, "factory-size", "%zu %zu", a->size(), b->size());
    VCHECK(static_cast<int>(a->channels()) == ch && static_cast<int>(b->channels()) == ch, "factory-channels", "%zu", a->channels());
    VCHECK(a->get_samplerate() == 44100 && b->get_samplerate() == sra, "factory-rate", "%g %g", a->get_samplerate(), b->get_samplerate());
    for (std::size_t i = 0; i < a->size(); ++i) VCHECK(a->at(i) == 0 && b->at(i) == 0, "factory-silent", "%zu", i);
    c.ev("factories");
}

template <std::size_t N> static void statics(Case& c) {
    Model<double> m;
    std::vector<int> divs;
    for (int d = 1; d <= static_cast<int>(N); ++d) if (N % d == 0) divs.push_back(d);
    m.ch = c.r.pick(divs);
    for (std::size_t i = 0; i < N; ++i) m.v.push_back(uniq<double>(i));
    double sra = c.r.real(1, 96000);
    c.d("static size=%zu channels=%d", N, m.ch);
    c.nontrivial = m.ch > 1 && m.ch < static_cast<int>(N);
    StaticBuffer<double, N> b(m.ch, sra);
    std::copy(m.v.begin(), m.v.end(), b.ibegin());
    VCHECK(b.get_samplerate() == sra, "static-rate", "%g", b.get_samplerate());
    check_views<StaticBuffer<double, N>, double>(c, b, m, "static");
    StaticBuffer<double, N> d(b);
    check_views<StaticBuffer<double, N>, double>(c, d, m, "static-copy");
    std::array<double, N> raw;
    for (std::size_t i = 0; i < N; ++i) raw[i] = m.v[i] = -uniq<double>(i);
    b = raw;
    check_views<StaticBuffer<double, N>, double>(c, b, m, "static-assign");
    StaticBuffer<double, N> e;
    VCHECK(e.channels() == 1 && e.get_samplerate() == 44100 && e.size() == N, "static-default", "channels %zu rate %g", e.channels(), e.get_samplerate());
    e = b;
    VCHECK(e.get_samplerate() == sra, "static-assign-rate", "%g", e.get_samplerate());
    check_views<StaticBuffer<double, N>, double>(c, e, m, "static-copy-assign");
    StaticBuffer<double, N> f(m.ch);
    VCHECK(f.get_samplerate() == 44100, "static-default-rate", "%g", f.get_samplerate());
    f = std::move(e);
    VCHECK(f.get_samplerate() == sra, "static-assign-rate", "%g", f.get_samplerate());
    check_views<StaticBuffer<double, N>, double>(c, f, m, "static-move-assign");
    StaticBuffer<double, N> g(std::move(f));
    check_views<StaticBuffer<double, N>, double>(c, g, m, "static-move");
    for (std::size_t i = 0; i < N; ++i) raw[i] = m.v[i] = uniq<double>(i) + 1;
    g = std::move(raw);
    check_views<StaticBuffer<double, N>, double>(c, g, m, "static-assign-move");
    if constexpr (N == 12) {
        StaticBuffer<double, 12> h(1., 2., 3., 4., 5., 6., 7., 8., 9., 10., 11., 12.);
        for (std::size_t i = 0; i < N; ++i) m.v[i] = i + 1;
        h.set_channels(m.ch);
        check_views<StaticBuffer<double, 12>, double>(c, h, m, "static-values");
    }
}
VSCENARIO(static_buffer, 400, 8000) {
    switch (c.r.i(0, 3)) {
        case 0: statics<1>(c); break;
        case 1: statics<12>(c); break;
        case 2: statics<30>(c); break;
        default: statics<64>(c); break;
    }
}

// random walk of iterator operations against an integer index
template <class It> static void walk(Case& c, It first, int n, const std::function<const void*(int)>& where,
                                     const std::function<std::pair<int, int>(int)>& pos, const char* name, int ops) {
    std::string k = std::string("walk-") + name;
    It it = first;
    int x = 0;
    auto verify = [&](const char* op) {
        VCHECK(it.get_index() == x, k, "after %s index %d expected %d", op, it.get_index(), x);
        VCHECK(static_cast<int>(it) == x, k, "int conversion after %s", op);
        if (x < n) {
            VCHECK(static_cast<const void*>(&*it) == where(x), k, "after %s at %d the wrong sample is referenced", op, x);
            VCHECK(it.get_channel() == pos(x).first && it.get_sample() == pos(x).second, k, "after %s at %d: channel %d sample %d", op, x,
                   it.get_channel(), it.get_sample());
            VCHECK(static_cast<const void*>(it.base()) == where(x), k, "base() after %s", op);
            VCHECK(static_cast<const void*>(it.operator->()) == where(x), k, "operator-> after %s", op);
        }
    };
    for (int o = 0; o < ops; ++o) {
        int kind = c.r.i(0, 13);
        int up = c.r.i(0, n - x), down = c.r.i(0, x);
        c.ev("iterator_ops");
        switch (kind) {
            case 0: if (x < n) { auto& r = ++it; ++x; VCHECK(&r == &it, k, "++ returns another object"); } verify("++"); break;
            case 1: if (x > 0) { --it; --x; } verify("--"); break;
            case 2: if (x < n) { It old = it++; VCHECK(old.get_index() == x, k, "post++ value"); ++x; } verify("post++"); break;
            case 3: if (x > 0) { It old = it--; VCHECK(old.get_index() == x, k, "post-- value"); --x; } verify("post--"); break;
            case 4: it += up; x += up; verify("+=int"); break;
            case 5: it += static_cast<unsigned>(up); x += up; verify("+=unsigned"); break;
            case 6: it += static_cast<unsigned long>(up); x += up; verify("+=ulong"); break;
            case 7: it += static_cast<int64_t>(up); x += up; verify("+=int64"); break;
            case 8: it -= down; x -= down; verify("-="); break;
            case 9: {
                It a = it + up; It b = it - down;
                It a2 = it + static_cast<unsigned>(up); It a3 = it + static_cast<unsigned long>(up); It a4 = it + static_cast<int64_t>(up);
                VCHECK(it.get_index() == x, k, "+/- changed its operand");
                VCHECK(a.get_index() == x + up && b.get_index() == x - down, k, "+ %d / - %d", up, down);
                VCHECK(a2.get_index() == x + up && a3.get_index() == x + up && a4.get_index() == x + up, k, "+ wide types");
                if (x + up < n) VCHECK(static_cast<const void*>(&*a) == where(x + up), k, "+ wrong sample");
                if (x - down < n) VCHECK(static_cast<const void*>(&*b) == where(x - down), k, "- wrong sample");
                VCHECK((a == it) == (up == 0) && (a != it) == (up != 0) && (it < a) == (up > 0) && (a > it) == (up > 0) && it <= a && a >= it &&
                           (it >= a) == (up == 0) && (a <= it) == (up == 0),
                       k, "comparison of %d and %d", x, x + up);
                VCHECK(static_cast<int>(a - it) == up, k, "difference %d expected %d", static_cast<int>(a - it), up);
                if (x + (x - down) <= n) VCHECK(static_cast<int>(it + b) == x + x - down, k, "iterator sum");
                break;
            }
            case 10: x = c.r.i(0, n); it.set_index(x); verify("set_index"); break;
            case 11: if (n > 0) { int j = c.r.i(0, n - 1); VCHECK(static_cast<const void*>(&it[j]) == where(j), k, "[%d]", j); verify("[]"); const It ct = it; VCHECK(static_cast<const void*>(&ct[j]) == where(j) && ct.get_index() == x, k, "const [%d]", j); } break;
            case 12: if (n > 0) { int j = c.r.i(0, n - 1); auto p = pos(j); it.set_position(p.first, p.second); x = j; verify("set_position"); } break;
            case 13:
                if (n > 0) {
                    int j = c.r.i(0, n - 1);
                    auto p = pos(j);
                    if constexpr (requires { it.set_channel(0); }) {
                        it.set_channel(p.first); x = 0; while (!(pos(x).first == p.first && pos(x).second == 0)) ++x;
                        verify("set_channel");
                    } else {
                        it.set_sample(p.second); x = 0; while (!(pos(x).first == 0 && pos(x).second == p.second)) ++x;
                        verify("set_sample");
                    }
                }
                break;
        }
    }
}

VSCENARIO(iterator_walk, 1500, 40000) {
    auto m = gen<double>(c, 7, 24);
    Buffer<double> b(m.v, m.ch);
    const Buffer<double>& cb = b;
    int n = m.v.size();
    int ops = c.thorough ? 200 : 60;
    auto lin = [&](int i) -> const void* { return &cb.at(i); };
    auto seq = [&](int i) -> const void* { return &cb.at(m.seq_to_lin(i)); };
    auto lpos = [&](int i) { return std::pair(i % m.ch, i / m.ch); };
    auto spos = [&](int i) { return std::pair(i / m.frames(), i % m.frames()); };
    walk(c, b.ibegin(), n, lin, lpos, "inter", ops);
    walk(c, b.sbegin(), n, seq, spos, "seq", ops);
    // algorithms driven through the iterators
    VCHECK(std::distance(b.ibegin(), b.iend()) == n && std::distance(b.sbegin(), b.send()) == n, "distance", "std::distance");
    std::vector<double> o;
    std::copy(b.sbegin(), b.send(), std::back_inserter(o));
    for (int i = 0; i < n; ++i) VCHECK(o[i] == m.v[m.seq_to_lin(i)], "algo-copy", "%d", i);
    std::transform(b.ibegin(), b.iend(), b.ibegin(), [](double x) { return -x; });
    for (int i = 0; i < n; ++i) VCHECK(b.at(i) == -m.v[i], "algo-transform", "%d", i);
    std::fill(b.sbegin(), b.send(), 3.5);
    for (int i = 0; i < n; ++i) VCHECK(b.at(i) == 3.5, "algo-fill", "%d", i);
}

VSCENARIO(const_walk, 400, 8000) {
    auto m = gen<double>(c, 7, 24);
    const Buffer<double> b(m.v, m.ch);
    int n = m.v.size();
    walk(c, b.icbegin(), n, [&](int i) -> const void* { return &b.at(i); }, [&](int i) { return std::pair(i % m.ch, i / m.ch); }, "const-inter", 30);
    walk(c, b.scbegin(), n, [&](int i) -> const void* { return &b.at(m.seq_to_lin(i)); }, [&](int i) { return std::pair(i / m.frames(), i % m.frames()); }, "const-seq", 30);
    auto it = b.icbegin();
    auto st = b.scbegin();
    for (int o = 0; o < 60; ++o) {
        int j = c.r.i(0, n);
        it.set_index(j); st.set_index(j);
        c.ev("iterator_ops", 2);
        if (j < n) {
            VCHECK(&*it == &b.at(j) && &*st == &b.at(m.seq_to_lin(j)), "const-index", "%d", j);
            VCHECK(it.get_channel() == j % m.ch && it.get_sample() == j / m.ch && st.get_channel() == j / m.frames() && st.get_sample() == j % m.frames(),
                   "const-pos", "%d", j);
            auto up = it + 1; auto dn = st - j;
            VCHECK(up.get_index() == j + 1 && dn.get_index() == 0, "const-arith", "%d", j);
            it.set_position(j % m.ch, j / m.ch); st.set_position(j / m.frames(), j % m.frames());
            VCHECK(it.get_index() == j && st.get_index() == j, "const-set-position", "%d", j);
        }
    }
}

// buffers of minutes of audio: positions and jumps that no small integer holds
VSCENARIO(large, 4, 60) {
    Model<int> m;
    m.ch = c.r.chn(1, 12);
    int fr = c.r.of({32768, 40000, 65536, 70001, 131072}) / m.ch + c.r.i(0, 9);
    for (int i = 0; i < m.ch * fr; ++i) m.v.push_back(i * 3 + 1);
    c.d("large channels=%d frames=%d", m.ch, fr);
    c.nontrivial = m.ch > 1;
    Buffer<int> b(m.v, m.ch);
    const Buffer<int>& cb = b;
    int n = m.v.size();
    auto lin = [&](int i) -> const void* { return &cb.at(i); };
    auto seq = [&](int i) -> const void* { return &cb.at(m.seq_to_lin(i)); };
    auto lpos = [&](int i) { return std::pair(i % m.ch, i / m.ch); };
    auto spos = [&](int i) { return std::pair(i / m.frames(), i % m.frames()); };
    walk(c, b.ibegin(), n, lin, lpos, "inter-large", 300);
    walk(c, b.sbegin(), n, seq, spos, "seq-large", 300);
    check_views<Buffer<int>, int>(c, b, m, "large");
    c.ev("large_buffers");
}
// more frames than a float, or a 24 bit number, can count
VSCENARIO(very_large, 1, 4) {
    if (c.idx % 12) { c.d("-"); return; }
    const int ch = c.r.i(1, 3), fr = (1 << 24) + 2 * c.r.i(0, 9) + 1, n = ch * fr;
    Buffer<signed char> b(fr, ch);
    const Buffer<signed char>& cb = b;
    c.d("channels=%d frames=%d", ch, fr);
    c.nontrivial = true;
    VCHECK(b.size() == (size_t)n && cb.size() == (size_t)n && b.channel_capacity() == (size_t)fr && b.channels() == (size_t)ch, "very-large", "size %zu channels %zu capacity %zu of %d x %d", b.size(), (size_t)b.channels(), (size_t)b.channel_capacity(), fr, ch);
    for (int k = 0; k < 300; ++k) {
        const int f = k < 100 ? fr - 1 - k % 50 : c.r.i(0, fr - 1), a = c.r.i(0, ch - 1);
        VCHECK(&cb.at(a, f) == &cb.at(f * ch + a) && &b.at(a, f) == &cb.at(f * ch + a), "very-large", "channel %d frame %d of %d x %d", a, f, ch, fr);
        auto s = b.sbegin(); s += a * fr + f;
        VCHECK(&*s == &cb.at(f * ch + a) && s.get_channel() == a && s.get_sample() == f, "very-large", "sequential at channel %d frame %d of %d x %d", a, f, ch, fr);
        auto i = b.ibegin(); i += f * ch + a;
        VCHECK(&*i == &cb.at(f * ch + a) && i.get_channel() == a && i.get_sample() == f, "very-large", "interleaved at channel %d frame %d of %d x %d", a, f, ch, fr);
        c.ev("derefs", 4);
    }
    VCHECK(b.send() - b.sbegin() == n && b.iend() - b.ibegin() == n, "very-large", "distance");
    auto e = b.send(); --e; auto g = b.iend(); --g;
    VCHECK(&*e == &cb.at(n - 1) && &*g == &cb.at(n - 1), "very-large", "the last one");
    c.ev("large_buffers");
}

// Histories of container operations against a plain vector.
VSCENARIO(mutation_history, 1500, 40000) {
    Buffer<double> b;
    Model<double> m;
    int next = 0;
    double rate = 44100;
    int ops = c.r.i(4, c.thorough ? 60 : 30);
    for (int o = 0; o < ops; ++o) {
        int kind = c.r.i(0, 11);
        c.ev("container_ops");
        switch (kind) {
            case 0: case 1: {
                int k = c.r.i(1, 9);
                // (appending a value of the buffer itself is an ordinary use, also when the storage grows)
                if (!m.v.empty() && c.r.chance(.3)) { int j = c.r.i(0, m.v.size() - 1); b.push_back(b.at(j)); m.v.push_back(m.v[j]); c.ev("self_appends"); }
                for (int i = 0; i < k; ++i) { double v = uniq<double>(next++); b.push_back(v); m.v.push_back(v); }
                c.d("push%d ", k);
                break;
            }
            case 2: { int n = c.r.i(0, 40); b.resize(n); m.v.resize(n); c.d("resize%d ", n); break; }
            case 3: b.clear(); m.v.clear(); c.d("clear "); break;
            case 4: b.reserve(c.r.i(0, 100)); c.d("reserve "); break;
            case 5: b.shrink(); c.d("shrink "); break;
            case 6: {
                std::vector<double> v;
                int n = c.r.i(0, 20);
                for (int i = 0; i < n; ++i) v.push_back(uniq<double>(next++));
                m.v = v;
                if (c.r.chance(.5)) b.assign(v); else if (c.r.chance(.5)) b = v; else b.assign(std::move(v));
                c.d("assign%d ", n);
                break;
            }
            case 7: {
                Buffer<double> d(b);
                if (!m.v.empty()) { b.at(0) = uniq<double>(next++); VCHECK(d.at(0) == m.v[0], "copy-aliases", "copy shares storage"); }
                Buffer<double> e; e = d;
                VCHECK(e.channels() == d.channels() && e.get_samplerate() == rate && e.size() == d.size(), "copy-assign", "metadata");
                b = e;
                c.d("copy ");
                break;
            }
            case 8: if (c.r.chance(.2)) { const auto& self = b; b = self; c.d("self "); break; } else { Buffer<double> d(std::move(b)); b = std::move(d); c.d("move "); break; }
            case 9: { int ch = c.r.chn(1, 6); b.set_channels(ch); m.ch = ch; c.d("chan%d ", ch); break; }
            case 10: { rate = c.r.real(1, 1e5); b.set_samplerate(rate); c.d("rate "); break; }
            case 11:
                if (!m.v.empty()) {
                    int j = c.r.i(0, m.v.size() - 1);
                    double v = uniq<double>(next++);
                    m.v[j] = v;
                    int ch = j % m.ch, s = j / m.ch;
                    switch (c.r.i(0, 3)) {
                        case 0: b.at(j) = v; break;
                        case 1: b.at(ch, s) = v; break;
                        case 2: { auto it = b.ibegin(); it.set_position(ch, s); *it = v; break; }
                        default:
                            if (m.v.size() % m.ch == 0) { auto it = b.sbegin(); it.set_position(ch, s); *it = v; }
                            else b.at(j) = v;
                    }
                    c.d("set%d ", j);
                }
                break;
        }
        VCHECK(b.size() == m.v.size(), "history-size", "size %zu expected %zu", b.size(), m.v.size());
        VCHECK(static_cast<int>(b.channels()) == m.ch && b.get_samplerate() == rate, "history-meta", "channels %zu rate %g", b.channels(), b.get_samplerate());
        for (std::size_t i = 0; i < m.v.size(); ++i) VCHECK(b.at(i) == m.v[i], "history-values", "index %zu: %g expected %g", i, b.at(i), m.v[i]);
        if (m.v.size() % m.ch == 0 && !m.v.empty()) check_views<Buffer<double>, double>(c, b, m, "history");
        else {
            // A last frame that is not complete is still walked in storage order:
            const auto& cb = b;
            std::size_t k = 0;
            for (auto it = b.ibegin(); it != b.iend(); ++it, ++k) VCHECK(k < m.v.size() && *it == m.v[k], "ragged-ibegin", "step %zu", k);
            VCHECK(k == m.v.size(), "ragged-ibegin", "%zu of %zu values", k, m.v.size());
            k = 0;
            for (auto it = cb.icbegin(); it < cb.icend(); ++it, ++k) VCHECK(k < m.v.size() && *it == m.v[k], "ragged-icbegin", "step %zu", k);
            VCHECK(k == m.v.size(), "ragged-icbegin", "%zu of %zu values", k, m.v.size());
            k = 0;
            for (double x : b) { VCHECK(k < m.v.size() && x == m.v[k], "ragged-begin", "step %zu", k); ++k; }
            VCHECK(k == m.v.size(), "ragged-begin", "%zu of %zu values", k, m.v.size());
            for (auto it = b.irbegin(); it != b.irend(); ++it) { --k; VCHECK(*it == m.v[k], "ragged-irbegin", "step %zu", k); }
            VCHECK(k == 0, "ragged-irbegin", "%zu values left", k);
            c.ev("ragged_walks");
        }
    }
    c.nontrivial = ops > 6;
}

// buffers holding nothing: every iteration is empty, in either order
VSCENARIO(empty, 40, 400) {
    int ch = c.r.chn(1, 5);
    c.d("channels=%d empty", ch);
    c.nontrivial = true;
    Buffer<double> b;
    b.set_channels(ch);
    int n = 0;
    for (auto it = b.ibegin(); it != b.iend(); ++it) ++n;
    for (auto it = b.sbegin(); it != b.send(); ++it) ++n;
    const auto& cb = b;
    for (auto it = cb.scbegin(); it != cb.scend(); ++it) ++n;
    for (auto it = b.srbegin(); it != b.srend(); ++it) ++n;
    VCHECK(n == 0, "empty-iteration", "%d samples visited", n);
    std::vector<double> out;
    squish_seq(&b, std::back_inserter(out), mf_null);
    squish_inter(&b, std::back_inserter(out), mf_null);
    VCHECK(out.empty(), "empty-squish", "%zu", out.size());
    c.ev("empty_buffers");
}

VSCENARIO(squish, 500, 12000) {
    auto m = gen<double>(c, 8, 30);
    for (auto& x : m.v) x = c.r.real(-1, 1);
    AudioBuffer b(m.v, m.ch);
    int n = m.v.size();
    std::vector<double> o(n);
    squish_inter(&b, o.begin(), mf_null);
    for (int i = 0; i < n; ++i) VCHECK(o[i] == m.v[i], "squish-inter", "%d", i);
    squish_seq(&b, o.begin(), mf_null);
    for (int i = 0; i < n; ++i) VCHECK(o[i] == m.v[m.seq_to_lin(i)], "squish-seq", "%d", i);
    std::vector<int16_t> q(n);
    squish_seq(&b, q.begin(), mf_int16);
    for (int i = 0; i < n; ++i) VCHECK(q[i] == mf_int16(m.v[m.seq_to_lin(i)]), "squish-convert", "%d", i);
    squish_null(&b, o.begin(), mf_null);
    for (int i = 0; i < n; ++i) VCHECK(o[i] == m.v[m.seq_to_lin(i)], "squish-null", "%d", i);
    for (int i = 0; i < n; ++i) VCHECK(b.at(i) == m.v[i], "squish-source", "source changed at %d", i);
    c.ev("squishes", 3);
}

int main(int a, char** v) { return vh::main_impl(a, v); }
