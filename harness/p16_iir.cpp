// P16: recursive filters compute their difference equation over the whole stream, and freq_response describes it.
#include "audio_buffer.hpp"
#include "dsp/iir.hpp"
#include "dsp/buffer.hpp"
#include "vh.hpp"
#include <complex>
#include <deque>

using vh::Case;
typedef std::complex<double> C;
typedef long double LD;

struct Model {
    std::vector<LD> a, b, x, y;
    LD step(LD in) {
        x.insert(x.begin(), in);
        LD o = 0;
        for (size_t i = 0; i < a.size() && i < x.size(); ++i) o += a[i] * x[i];
        for (size_t j = 0; j < b.size() && j < y.size(); ++j) o += b[j] * y[j];
        y.insert(y.begin(), o);
        if (x.size() > a.size() + 1) x.pop_back();
        if (y.size() > b.size() + 1) y.pop_back();
        return o;
    }
};
// feedback coefficients with every pole inside radius r: 1 - sum b_j z^-(j+1) = prod (1 - p z^-1)
static std::vector<double> stable(Case& c, int n, double rmax) {
    std::vector<LD> p{1};
    auto mul = [&](std::vector<LD> f) {
        std::vector<LD> o(p.size() + f.size() - 1, 0);
        for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < f.size(); ++j) o[i + j] += p[i] * f[j];
        p = o;
    };
    int left = n;
    while (left > 0) {
        if (left >= 2 && c.r.chance(.6)) {
            const double r = c.r.real(0, rmax), t = c.r.real(0, 3.14159);
            mul({1, -2 * r * std::cos(t), r * r});
            left -= 2;
        } else {
            mul({1, -c.r.real(-rmax, rmax)});
            --left;
        }
    }
    std::vector<double> b(n);
    for (int j = 0; j < n; ++j) b[j] = static_cast<double>(-p[j + 1]);
    return b;
}
static double loudness(Case& c) { return c.r.chance(.6) ? 1.0 : c.r.of<double>({1e-5, 1e-8, 1e-12, 1e-18, 32768.0, 1e9}); }
static std::vector<double> input(Case& c, int n, double amp) {
    std::vector<double> v(n);
    const int kind = c.r.i(0, 3);
    for (int i = 0; i < n; ++i) {
        v[i] = kind == 0 ? c.r.real(-1, 1) : kind == 1 ? (i == n / 4) : kind == 2 ? 1.0 : c.r.i(-5, 5);
        v[i] *= amp;
        c.fold(v[i]);
    }
    return v;
}

template <class F> static void load(Case& c, F& f, const std::vector<double>& a, const std::vector<double>& b) {
    if (c.r.chance(.5)) {
        for (size_t i = 0; i < a.size(); ++i) f.set_a(static_cast<int>(i), a[i]);
        for (size_t i = 0; i < b.size(); ++i) f.set_b(static_cast<int>(i), b[i]);
    } else {
        std::copy(a.begin(), a.end(), f.abegin());
        std::copy(b.begin(), b.end(), f.bbegin());
    }
    VCHECK(f.get_asize() == static_cast<int>(a.size()) && f.get_bsize() == static_cast<int>(b.size()), "sizes", "sizes %d/%d, expected %zu/%zu", f.get_asize(),
           f.get_bsize(), a.size(), b.size());
    VCHECK(std::equal(f.abegin(), f.aend(), a.begin(), a.end()) && std::equal(f.bbegin(), f.bend(), b.begin(), b.end()), "coefficients", "the coefficients are not the ones set");
    for (size_t i = 0; i < a.size(); ++i) VCHECK(f.get_a(static_cast<int>(i)) == a[i], "coefficients", "get_a(%zu)", i);
    for (size_t i = 0; i < b.size(); ++i) VCHECK(f.get_b(static_cast<int>(i)) == b[i], "coefficients", "get_b(%zu)", i);
}

VSCENARIO(stream, 5000, 50000) {
    const int na = c.r.chance(.02) ? c.r.i(9, 130) : c.r.i(0, 8), nb = c.r.chance(.02) ? c.r.i(9, 130) : c.r.i(0, 8);
    std::vector<double> a(na);
    for (auto& v : a) { v = c.r.chance(.2) ? 0 : c.r.real(-1, 1); c.fold(v); }
    std::vector<double> b;
    if (nb <= 8) b = stable(c, nb, 0.95);
    else {          // many taps: small enough together to be stable
        b.resize(nb);
        for (auto& v : b) { v = c.r.real(-0.9, 0.9) / nb; c.fold(v); }
    }
    const double amp = loudness(c);      // every tolerance is relative to it
    const std::vector<double> x = input(c, c.r.i(1, c.idx % 20 == 0 ? 4000 : 250), amp);
    c.d("stream %d feed-forward %d feedback %zu values ", na, nb, x.size());
    c.nontrivial = na > 1 && nb > 1 && x.size() > 10;
    dsp::iir::IIRFilter<double> f(na, nb);
    if (c.r.chance(.3)) {       // sizes given later
        dsp::iir::IIRFilter<double> g;
        if (c.r.chance(.5)) { g.set_asize(na); g.set_bsize(nb); }
        else { g.set_bsize(c.r.i(0, 9)); g.set_asize(na); g.set_bsize(nb); }
        f = g;
    }
    load(c, f, a, b);
    Model m{{a.begin(), a.end()}, {b.begin(), b.end()}, {}, {}};
    std::vector<double> got;
    size_t at = 0;
    while (at < x.size()) {
        const int n = std::min<int>(static_cast<int>(x.size() - at), c.r.chance(.1) ? 0 : c.r.sz(1, 60));
        const int how = c.r.i(0, 3);
        if (how == 0) {
            std::vector<double> blk(x.begin() + at, x.begin() + at + n);
            f.process(blk.begin(), n);
            got.insert(got.end(), blk.begin(), blk.end());
        } else if (how == 1) {
            const std::vector<double> blk(x.begin() + at, x.begin() + at + n);
            std::vector<double> o(n, 77);
            f.process(blk.begin(), n, o.begin());
            got.insert(got.end(), o.begin(), o.end());
        } else if (how == 2) {
            std::deque<double> blk(x.begin() + at, x.begin() + at + n);
            std::vector<double> o(n);
            f.process(blk.cbegin(), n, o.data());
            got.insert(got.end(), o.begin(), o.end());
        } else {
            AudioBuffer blk(n, 1);
            std::copy_n(x.begin() + at, n, blk.ibegin());
            f.process(blk.sbegin(), n);
            got.insert(got.end(), blk.ibegin(), blk.iend());
        }
        at += n;
        c.ev("blocks");
        if (c.r.chance(.05)) {          // a copy goes on like the filter it was made of
            dsp::iir::IIRFilter<double> g(f);
            if (c.r.chance(.5)) f = g; else f = std::move(g);
            c.ev("copies");
        }
    }
    double scale = amp;
    for (size_t i = 0; i < x.size(); ++i) {
        const double w = static_cast<double>(m.step(x[i]));
        scale = std::max(scale, std::fabs(w));
        // eight poles close together amplify rounding: allow for it
        VCHECK(vh::close(got[i], w, 1e-7 * scale), "stream", "value %zu is %.15g, the recursion gives %.15g (%d feed-forward, %d feedback)", i, got[i], w, na, nb);
    }
    c.ev("values_compared", x.size());
}

// streams long enough for every position in the history, with many sizes
VSCENARIO(long_stream, 60, 600) {
    const int na = c.r.i(1, 17), nb = c.r.i(0, 17), n = c.r.i(20000, c.thorough ? 400000 : 60000);
    c.d("long %d/%d %d values ", na, nb, n);
    c.nontrivial = na > 1 && nb > 1;
    std::vector<double> a(na), b(nb);
    for (int i = 0; i < na; ++i) a[i] = c.r.i(-8, 8);
    for (auto& v : b) v = c.r.real(-0.9, 0.9) / nb;
    dsp::iir::IIRFilter<double> f(na, nb);
    load(c, f, a, b);
    std::vector<double> xs(n), ys(n), got(n);
    for (int i = 0; i < n; ++i) {
        xs[i] = c.r.i(-9, 9);
        double w = 0;
        for (int k = 0; k < na && k <= i; ++k) w += a[k] * xs[i - k];
        for (int k = 0; k < nb && k < i; ++k) w += b[k] * ys[i - 1 - k];
        ys[i] = w;
    }
    for (int at = 0; at < n;) {
        const int k = std::min(n - at, c.r.sz(1, 5000));
        f.process(xs.begin() + at, k, got.begin() + at);
        at += k;
        c.beat();
    }
    for (int i = 0; i < n; ++i) VCHECK(vh::close(got[i], ys[i], 1e-6), "long", "value %d is %.12g, the recursion gives %.12g (%d feed-forward, %d feedback)", i, got[i], ys[i], na, nb);
    c.ev("values_compared", n);
}

// a filter that has played for half a day: more values than an int counts
VSCENARIO(half_day, 1, 1) {
    c.d("half_day %ld ", c.idx);
    if (c.idx % 40) return;          // one per run is enough
    const int na = c.r.i(1, 3), nb = na == 3 ? c.r.i(1, 2) : 3;       // (index wraps show where 2^32 is not a multiple of the sizes)
    dsp::iir::IIRFilter<double> f(na, nb);
    std::vector<double> a(na), b(nb);
    for (auto& v : a) v = c.r.i(-3, 3);
    for (auto& v : b) v = c.r.real(-.4, .4);
    load(c, f, a, b);
    c.nontrivial = true;
    std::vector<double> z(1 << 16);
    int64_t at = 0;
    auto silence = [&](int64_t until) {
        while (at < until) {
            const int n = static_cast<int>(std::min<int64_t>(until - at, 1 << 16));
            std::fill_n(z.begin(), n, 0.0);
            f.process(z.begin(), n);
            at += n;
            c.beat();
        }
    };
    // all the history is forgotten in the silence (the filters are stable), so each burst is judged on its own
    auto burst = [&](int len) {
        std::vector<double> x, w;
        for (int i = 0; i < len; ++i, ++at) {
            double v = c.r.real(-1, 1), e = 0;
            x.push_back(v);
            for (int k = 0; k < na && k <= i; ++k) e += a[k] * x[i - k];
            for (int k = 0; k < nb && k < i; ++k) e += b[k] * w[i - 1 - k];
            w.push_back(e);
            f.process(&v, 1);
            VCHECK(vh::close(v, e, 1e-9), "half_day", "value %ld of the stream is %.12g, expected %.12g", at, v, e);
        }
        c.ev("values_compared", len);
    };
    for (int bits : {24, 31, 32}) {
        if (bits == 32 && !c.thorough) break;
        silence((int64_t{1} << bits) - 2000);
        burst(4000);
        silence(at + 20000);
    }
    c.ev("half_days");
}

// whole numbers are exact, whatever the coefficients, in every type
template <class T> static void exact_case(Case& c) {
    const int na = c.r.i(0, 5), nb = c.r.i(0, 4), n = c.r.i(1, 12);
    std::vector<T> a(na), b(nb), x(n), got(n);
    for (auto& v : a) { v = static_cast<T>(c.r.i(-2, 2)); c.fold(static_cast<double>(v)); }
    for (auto& v : b) { v = static_cast<T>(c.r.i(-1, 1)); c.fold(static_cast<double>(v)); }
    for (auto& v : x) { v = static_cast<T>(c.r.i(-2, 2)); c.fold(static_cast<double>(v)); }
    c.d("exact %d/%d coefficients %d values ", na, nb, n);
    c.nontrivial = na > 1 && nb > 1 && n > 3;
    Model m{{a.begin(), a.end()}, {b.begin(), b.end()}, {}, {}};
    dsp::iir::IIRFilter<T> f(na, nb);
    std::copy(a.begin(), a.end(), f.abegin());
    std::copy(b.begin(), b.end(), f.bbegin());
    f.process(x.begin(), n, got.begin());
    std::deque<T> di(na), dout(nb);
    for (int i = 0; i < n; ++i) {
        const T w = static_cast<T>(m.step(x[i]));
        VCHECK(got[i] == w, "exact", "value %d is %g, expected %g", i, static_cast<double>(got[i]), static_cast<double>(w));
        const T s = dsp::iir::iir_recursive_single(x[i], di, dout, a, b, na, nb);
        VCHECK(s == w, "single", "iir_recursive_single: value %d is %g, expected %g", i, static_cast<double>(s), static_cast<double>(w));
        VCHECK(static_cast<int>(di.size()) == na && static_cast<int>(dout.size()) == nb, "single", "iir_recursive_single changed the size of its containers");
    }
    c.ev("values_compared", 2 * n);
}
VSCENARIO(exact, 4000, 40000) {
    switch (c.idx % 4) {
        case 0: exact_case<double>(c); break;
        case 1: exact_case<float>(c); break;
        case 2: exact_case<long>(c); break;
        default: exact_case<int>(c); break;
    }
}

// coefficients replaced and resized while playing; copies continue on their own
VSCENARIO(changes, 3000, 30000) {
    int na = c.r.i(1, 5), nb = c.r.i(0, 5);
    const double amp = loudness(c);
    dsp::iir::IIRFilter<double> f(na, nb);
    Model m;
    auto set = [&] {
        std::vector<double> a(na);
        for (auto& v : a) v = c.r.real(-1, 1);
        const std::vector<double> b = stable(c, nb, 0.7);
        load(c, f, a, b);
        m.a.assign(a.begin(), a.end());
        m.b.assign(b.begin(), b.end());
    };
    set();
    auto run = [&](dsp::iir::IIRFilter<double>& g, Model& mm, int n, const char* key) {
        double scale = amp;
        for (int i = 0; i < n; ++i) {
            double v = amp * c.r.real(-1, 1);
            const double w = static_cast<double>(mm.step(v));
            g.process(&v, 1);
            scale = std::max(scale, std::fabs(w));
            VCHECK(vh::close(v, w, 1e-8 * scale), key, "value %d is %.15g, expected %.15g with %d/%d coefficients", i, v, w, na, nb);
            c.ev("values_compared");
        }
    };
    const int ops = c.r.i(1, 8);
    c.d("changes %d ", ops);
    c.nontrivial = ops > 1;
    for (int o = 0; o < ops; ++o) {
        switch (c.r.i(0, 2)) {
            case 0:
                c.d("set ");
                set();
                break;
            case 1: {
                c.d("copy ");
                dsp::iir::IIRFilter<double> g(f);
                Model mg(m);
                run(g, mg, c.r.i(1, 20), "copy");
                break;
            }
            default: {
                const int oa = std::max(na, 1), ob = std::max(nb, 1);
                na = c.r.i(1, 5);
                nb = c.r.i(0, 5);
                c.d("resize %d/%d ", na, nb);
                if (c.r.chance(.5)) { f.set_asize(na); f.set_bsize(nb); }
                else { f.set_bsize(nb); f.set_asize(na); }
                c.ev("resizes");
                if (m.x.size() > (size_t)std::min(oa, na)) m.x.resize(std::min(oa, na));      // what both sizes have room for is kept
                if (m.y.size() > (size_t)std::min(ob, nb)) m.y.resize(std::min(ob, nb));
                if (na > oa || nb > ob) {       // what lies further back was not kept: not asked for until it is there again
                    std::vector<double> a(na, 0.);
                    for (int i = 0; i < std::min(na, oa); ++i) a[i] = c.r.real(-1, 1);
                    std::vector<double> b = stable(c, std::min(nb, ob), 0.7);
                    b.resize(nb, 0.);
                    load(c, f, a, b);
                    m.a.assign(a.begin(), a.end());
                    m.b.assign(b.begin(), b.end());
                    run(f, m, std::max(na, nb) + 1, "resized");
                }
                set();
            }
        }
        run(f, m, c.r.i(1, 40), "changes");
        c.ev("changes");
    }
}

VSCENARIO(response, 2000, 20000) {
    const int na = c.r.chance(.03) ? c.r.i(7, 200) : c.r.i(1, 6), nb = c.r.i(0, 5);
    std::vector<double> a(na);
    for (auto& v : a) { v = c.r.real(-1, 1); c.fold(v); }
    const std::vector<double> b = stable(c, nb, 0.8);
    const double rate = c.r.of<double>({8000, 44100, 48000});
    const double hz = c.r.chance(.1) ? 0 : c.r.chance(.1) ? rate / 2 : c.r.real(0, rate / 2);
    const double rad = dsp::iir::freq_map(hz, rate);
    c.d("response %d/%d at %g of %g ", na, nb, hz, rate);
    c.nontrivial = nb > 0 && hz > 0;
    VCHECK(vh::close(rad, 2 * M_PI * hz / rate, 1e-12), "freq_map", "freq_map(%g,%g)=%g", hz, rate, rad);
    const C h = dsp::iir::freq_response(rad, a, b);
    dsp::iir::IIRFilter<double> f(na, nb);
    load(c, f, a, b);
    std::complex<LD> sum = 0;
    LD tot = 1;
    for (int i = 0; i < 900; ++i) {       // the response is the transform of the impulse response
        double v = i == 0;
        f.process(&v, 1);
        const LD ph = static_cast<LD>(rad) * i;
        sum += std::complex<LD>(v * cosl(ph), -v * sinl(ph));
        tot += fabsl(v);
    }
    VCHECK(std::abs(std::complex<LD>(h) - sum) <= 1e-7L * tot, "response", "freq_response at %g rad is %g%+gi, the filter's impulse response has %Lg%+Lgi (%d/%d)", rad, h.real(),
           h.imag(), sum.real(), sum.imag(), na, nb);
    if (c.r.chance(.3)) {       // and what happens to a tone
        dsp::iir::IIRFilter<double> g(na, nb);
        load(c, g, a, b);
        double mx = 0;
        for (int i = 0; i < 700; ++i) {
            double v = std::cos(rad * i);
            g.process(&v, 1);
            const double w = std::abs(h) * std::cos(rad * i + std::arg(h));
            if (i > 500) mx = std::max(mx, std::fabs(v - w));
        }
        VCHECK(mx <= 1e-6 * static_cast<double>(tot), "tone", "a tone of %g rad comes out up to %g away from gain %g phase %g", rad, mx, std::abs(h), std::arg(h));
        c.ev("tones");
    }
    c.ev("responses");
}

// close to a pole the response is large, and still that of the coefficients
VSCENARIO(resonant, 2000, 20000) {
    const double d = std::pow(10.0, -c.r.real(1, 9)), t = c.r.real(0, M_PI), rd = 1 - d;
    std::vector<double> b;
    if (c.r.chance(.5)) b = {2 * rd * std::cos(t), -rd * rd}; else b = {c.r.chance(.5) ? rd : -rd};
    const double pole = b.size() == 2 ? t : b[0] > 0 ? 0 : M_PI;
    std::vector<double> a(c.r.i(1, 3));
    for (auto& v : a) v = c.r.real(-1, 1);
    const double rad = c.r.chance(.7) ? pole : pole + c.r.real(-1, 1) * d;
    c.fold(rad);
    c.d("resonant pole at %g, %g inside, evaluated at %g ", pole, d, rad);
    std::complex<LD> num = 0, den = 1;
    for (size_t i = 0; i < a.size(); ++i) num += static_cast<LD>(a[i]) * std::polar<LD>(1, -static_cast<LD>(rad) * i);
    for (size_t i = 0; i < b.size(); ++i) den -= static_cast<LD>(b[i]) * std::polar<LD>(1, -static_cast<LD>(rad) * (i + 1));
    const C h = dsp::iir::freq_response(rad, a, b);
    const std::complex<LD> want = num / den;
    VCHECK(std::abs(std::complex<LD>(h) - want) <= (1e-9L + 1e-14L / std::abs(den)) * (std::abs(want) + 1 / std::abs(den)), "resonance", "freq_response at %g is %g, expected %Lg", rad, std::abs(h), std::abs(want));
    c.nontrivial = true;
    c.ev("responses");
}

VSCENARIO(single_pole, 3000, 30000) {
    dsp::iir::SinglePole<double> f;
    const bool fresh = c.r.chance(.2);
    const int rate = fresh ? f.get_sample_rate() : c.r.of<int>({8000, 22050, 44100, 48000, 96000});
    VCHECK(!fresh || rate == 44100, "default_rate", "a new filter has sample rate %d", rate);
    VCHECK(f.get_type() == dsp::consts::FilterType::LowPass, "default_type", "a new filter is not low pass");
    if (!fresh) f.set_sample_rate(rate);
    const double lo = c.r.real(0.0005, 0.45), hi = c.r.real(0.0005, 0.45);
    const bool hz = c.r.chance(.5);
    if (hz) { f.set_freq_low(lo * rate); f.set_freq_high(hi * rate); }
    else { f.set_frac_low(lo); f.set_frac_high(hi); }
    VCHECK(vh::close(f.get_frac_low(), lo, 1e-12) && vh::close(f.get_frac_high(), hi, 1e-12), "fractions", "fractions %g/%g, set %g/%g of the sample rate", f.get_frac_low(),
           f.get_frac_high(), lo, hi);
    VCHECK(vh::close(f.get_freq_low(), lo * rate, 1e-6) && vh::close(f.get_freq_high(), hi * rate, 1e-6), "hertz", "frequencies %g/%g, set %g/%g", f.get_freq_low(), f.get_freq_high(),
           lo * rate, hi * rate);
    const int rounds = c.r.i(1, 3);
    c.d("single_pole lo=%g hi=%g rate=%d rounds=%d ", lo, hi, rate, rounds);
    c.nontrivial = true;
    for (int r = 0; r < rounds; ++r) {
        const bool low = r == 0 && fresh ? true : c.r.chance(.5);
        if (!(r == 0 && fresh)) f.set_type(low ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass);
        c.d("%s ", low ? "low" : "high");
        if (c.r.chance(.5)) f.generate_coefficients();
        else static_cast<dsp::iir::BaseIIRImplementation<double>&>(f).generate_coefficients();
        const double x = std::exp(-2 * M_PI * (low ? hi : lo));
        for (int i = 0; i < 8000; ++i) { double z = 0; f.process(&z, 1); if (i > 50 && std::pow(x, i) < 1e-13) break; }
        Model m;
        if (low) { m.a = {1 - static_cast<LD>(x)}; m.b = {x}; }
        else { m.a = {(1 + static_cast<LD>(x)) / 2, -(1 + static_cast<LD>(x)) / 2}; m.b = {x}; }
        for (int i = 0; i < 120; ++i) {
            double v = c.r.real(-1, 1);
            const double w = static_cast<double>(m.step(v));
            f.process(&v, 1);
            VCHECK(vh::close(v, w, 1e-9), "single_pole", "%s pass at %g of the rate: value %d is %.12g, expected %.12g", low ? "low" : "high", low ? hi : lo, i, v, w);
        }
        c.ev("values_compared", 120);
        const std::vector<double> a(f.abegin(), f.aend()), b(f.bbegin(), f.bend());
        const double dc = std::abs(dsp::iir::freq_response(0, a, b)), ny = std::abs(dsp::iir::freq_response(M_PI, a, b));
        VCHECK(vh::close(low ? dc : ny, 1, 1e-9), "passband", "gain %g where the filter passes", low ? dc : ny);
        VCHECK(low ? ny < 1 : vh::close(dc, 0, 1e-9), "stopband", "gain %g where the filter stops", low ? ny : dc);
        double prev = low ? 2 : -1;
        for (int i = 0; i <= 16; ++i) {
            const double g = std::abs(dsp::iir::freq_response(dsp::iir::freq_map(rate / 32.0 * i, rate), a, b));
            VCHECK(low ? g < prev + 1e-12 : g > prev - 1e-12, "monotonic", "%s pass: gain %g at step %d after %g", low ? "low" : "high", g, i, prev);
            prev = g;
        }
        c.ev("responses", 17);
    }
}

// a single pole filter whose cutoff, or type, changes while it plays goes on from where it was
VSCENARIO(single_pole_moves, 1500, 15000) {
    dsp::iir::SinglePole<double> f;
    const int rate = c.r.of<int>({8000, 44100, 48000});
    f.set_sample_rate(rate);
    bool low = c.r.chance(.5), first = true;
    Model m;
    const int ops = c.r.i(2, 8);
    c.d("moves %d ", ops);
    c.nontrivial = true;
    for (int o = 0; o < ops; ++o) {
        const double hz = c.r.real(0.0005, 0.45) * rate;
        if (first || c.r.chance(.4)) { low = c.r.chance(.5); f.set_type(low ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass); c.d(low ? "low " : "high "); }
        low ? f.set_freq_high(hz) : f.set_freq_low(hz);
        f.generate_coefficients();
        const LD x = std::exp(-2 * M_PI * hz / rate);
        if (low) m.a = {1 - x}; else m.a = {(1 + x) / 2, -(1 + x) / 2};
        m.b = {x};
        if (m.x.size() > m.a.size()) m.x.resize(m.a.size());
        first = false;
        const int n = c.r.i(1, 60);
        for (int i = 0; i < n; ++i) {
            double v = c.r.real(-1, 1);
            const double w = static_cast<double>(m.step(v));
            f.process(&v, 1);
            VCHECK(vh::close(v, w, 1e-9), "moves", "value %d after change %d (%s pass): %.12g, expected %.12g", i, o, low ? "low" : "high", v, w);
        }
        c.ev("values_compared", n);
        c.ev("changes");
    }
}

// days of audio: more samples than an int counts
VSCENARIO(endless, 0, 2) {
    static const int as[] = {3, 1, 2, 5}, bs[] = {0, 3, 2, 7};
    const int na = as[c.idx % 4], nb = bs[c.idx % 4];
    c.d("endless %d/%d ", na, nb);
    c.nontrivial = true;
    dsp::iir::IIRFilter<double> f(na, nb);
    for (int i = 0; i < na; ++i) f.set_a(i, std::pow(10, i));
    for (int i = 0; i < nb; ++i) f.set_b(i, 0.5 / (nb + i));
    std::vector<double> x(7 * 1024), o(x.size());
    for (size_t i = 0; i < x.size(); ++i) x[i] = static_cast<double>(i % 7);
    std::vector<double> first;
    const unsigned long rounds = (1ul << 31) / x.size() + 40;
    for (unsigned long r = 0; r < rounds; ++r) {
        f.process(x.data(), static_cast<int>(x.size()), o.data());
        if (r % 256 == 0) c.beat();
        if (r == 2) first = o;
        if (r > 2 && (r % 4096 == 0 || r + 80 > rounds))
            for (size_t i = 0; i < x.size(); ++i) VCHECK(vh::close(o[i], first[i], 1e-6), "endless", "value %lu is %g, the same input gave %g before", r * x.size() + i, o[i], first[i]);
    }
    c.ev("values_compared", rounds);
    c.ev("samples_streamed", rounds * x.size());
}
int main(int a, char** v) { return vh::main_impl(a, v); }
