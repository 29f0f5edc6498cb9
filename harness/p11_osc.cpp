// P11: oscillators play the ideal waveform of the set frequency on all channels, in range, without a seam between buffers.
#include "vh.hpp"
#include <memory>
#include "fund_oscillator.hpp"
#include "amp_module.hpp"
#include "sink_module.hpp"

static const char* names[] = {"sine", "square", "sawtooth", "triangle"};
// x = periods since the start; returns false next to a jump of the waveform
static bool ideal(int kind, long double x, long double err, double* v) {
    long double f = x - std::floor(x);
    auto near = [&](long double at) { long double d = std::fabs(f - at); return std::min(d, 1 - d) < err; };
    switch (kind) {
        case 0: *v = static_cast<double>(std::sin(2 * M_PIl * f)); return true;
        case 1: *v = f < .5L ? 1 : -1; return !near(0) && !near(.5L);
        case 2: *v = static_cast<double>(f < .5L ? 2 * f : 2 * f - 2); return !near(.5L);
        default: *v = static_cast<double>(f < .25L ? 4 * f : f < .75L ? 2 - 4 * f : 4 * f - 4); return true;
    }
}
static std::unique_ptr<BaseOscillator> osc(int kind, double f, double p, bool setters, bool nophase) {
    auto mk = [&](auto t) -> std::unique_ptr<BaseOscillator> {
        using T = typename decltype(t)::type;
        if (setters) { auto o = std::make_unique<T>(); o->set_frequency(f); o->set_phase(p); return o; }
        if (nophase) { auto o = std::make_unique<T>(f); if (p != 0) o->set_phase(p); return o; }
        return std::make_unique<T>(f, p);
    };
    switch (kind) {
        case 0: return mk(std::type_identity<SineOscillator>());
        case 1: return mk(std::type_identity<SquareOscillator>());
        case 2: return mk(std::type_identity<SawtoothOscillator>());
        default: return mk(std::type_identity<TriangleOscillator>());
    }
}
static std::unique_ptr<BaseModulatedOscillator> mosc(int kind, double f, double p, bool link) {
    auto mk = [&](auto t) -> std::unique_ptr<BaseModulatedOscillator> {
        using T = typename decltype(t)::type;
        if (link) { auto o = std::make_unique<T>(); o->set_phase(p); return o; }
        return std::make_unique<T>(f, p);
    };
    switch (kind) {
        case 0: return mk(std::type_identity<ModSineOscillator>());
        case 1: return mk(std::type_identity<ModSquareOscillator>());
        case 2: return mk(std::type_identity<ModSawtoothOscillator>());
        default: return mk(std::type_identity<ModTriangleOscillator>());
    }
}
struct Snk : SinkModule<> {
    std::vector<double> got; int ch = 0; double rate = 0; std::size_t last = 0;
    void process() override { got.insert(got.end(), buff.ibegin(), buff.iend()); ch = buff.channels(); rate = buff.get_samplerate(); last = buff.size(); }
};
// runs a source for some frames in a chain, in buffers of changing size
static std::vector<double> run(vh::Case& c, BaseModule* src, int frames, int ch, double rate, int fixed) {
    Snk s;
    s.link(src);
    auto* ci = s.get_chain_info();
    ci->channels = ch; ci->sample_rate = rate; ci->buffer_size = 1;
    s.meta_info_sync();
    s.meta_start();
    for (int left = frames; left > 0;) {
        int n = std::min(left, fixed ? fixed : c.r.i(1, 60));
        ci->buffer_size = n;
        s.meta_info_sync();
        s.meta_process();
        VCHECK(s.last == static_cast<std::size_t>(n * ch) && s.ch == ch && s.rate == rate, "shape", "%zu samples of %d channels at %g", s.last, s.ch, s.rate);
        left -= n;
        c.ev("buffers");
    }
    s.meta_stop();
    c.ev("samples_checked", s.got.size());
    return s.got;
}
static double pick_freq(vh::Case& c, double rate) {
    return c.r.of({440., 0., -440., rate / 2, rate / 4, rate / 3, rate, 1., c.r.real(0.01, 5000), c.r.real(-5000, 5000), c.r.real(0, rate)});
}
VSCENARIO(waveform, 2500, 80000) {
    int kind = c.r.i(0, 3), ch = c.r.chn(1, 5), frames = c.r.sz(1, 300);
    double rate = c.r.of({44100., 8000., 48000., 192000., 12345., 44099.25, 22050.5, 100.75, 12.5});
    double f = pick_freq(c, rate), p = c.r.of({0., 0., 1., 0.25, -100., c.r.real(-1000, 1000), 1e6, 1e9, 44100. * 86400});
    int fixed = c.r.chance(.4) ? c.r.i(1, 100) : 0;
    c.d("%s f=%.17g phase=%.17g rate=%g ch=%d frames=%d fixed=%d", names[kind], f, p, rate, ch, frames, fixed);
    c.nontrivial = frames > 1 && f != 0;
    auto o = osc(kind, f, p, c.r.chance(.3), c.r.chance(.3));
    VCHECK(o->get_frequency() == f && o->get_phase() == p, "getters", "frequency %g phase %g", o->get_frequency(), o->get_phase());
    auto got = run(c, o.get(), frames, ch, rate, fixed);
    for (int k = 0; k < frames; ++k) {
        long double x = static_cast<long double>(f) * (static_cast<long double>(p) + k) / rate;
        long double err = 1e-9L + std::fabs(x) * 1e-14L;
        double e;
        bool exact = ideal(kind, x, err, &e);
        for (int j = 0; j < ch; ++j) {
            double v = got[static_cast<std::size_t>(k) * ch + j];
            VCHECK(v >= -1 && v <= 1, "range", "frame %d channel %d is %.17g", k, j, v);
            VCHECK(!exact || vh::close(v, e, static_cast<double>(8 * err)), "waveform", "frame %d channel %d is %.17g expected %.17g", k, j, v, e);
            VCHECK(v == got[static_cast<std::size_t>(k) * ch], "channels", "frame %d differs between channels", k);
            if (kind == 1) VCHECK(v == 1 || v == -1, "square-values", "%g", v);
        }
    }
    // a second oscillator takes over where this one stopped
    auto o2 = osc(kind, f, o->get_phase(), false, false);
    auto a = run(c, o.get(), 20, ch, rate, 0), b = run(c, o2.get(), 20, ch, rate, 7);
    for (std::size_t i = 0; i < a.size(); ++i) VCHECK(a[i] == b[i], "resume", "sample %zu after the hand-over is %.17g instead of %.17g", i, b[i], a[i]);
}
// the frequency and the phase can be set while it plays: each frame is the waveform of the frequency set at that time
VSCENARIO(retuned, 1500, 20000) {
    int kind = c.r.i(0, 3), ch = c.r.chn(1, 3), rounds = c.r.i(2, 12);
    double rate = c.r.of({44100., 8000., 48000., 12.5}), f = pick_freq(c, rate), p = c.r.chance(.5) ? 0 : c.r.real(-1000, 1000);
    c.d("%s retuned rate=%g ch=%d rounds=%d", names[kind], rate, ch, rounds);
    c.nontrivial = true;
    auto o = osc(kind, f, p, c.r.chance(.3), c.r.chance(.3));
    Snk s;
    s.link(o.get());
    auto* ci = s.get_chain_info();
    ci->channels = ch; ci->sample_rate = rate; ci->buffer_size = c.r.i(1, 40);
    s.meta_info_sync();
    s.meta_start();
    for (int r = 0; r < rounds; ++r) {
        if (c.r.chance(.5)) { f = pick_freq(c, rate); o->set_frequency(f); c.d(" f=%.17g", f); }
        if (c.r.chance(.15)) { p = c.r.real(-1000, 1000); o->set_phase(p); c.d(" p=%.17g", p); }
        VCHECK(o->get_frequency() == f && vh::close(o->get_phase(), p, 1e-9), "getters", "frequency %g phase %.17g, expected %g and %.17g", o->get_frequency(), o->get_phase(), f, p);
        if (c.r.chance(.3)) { ci->buffer_size = c.r.i(1, 40); s.meta_info_sync(); }
        s.got.clear();
        s.meta_process();
        const int n = static_cast<int>(s.got.size()) / ch;
        VCHECK(n == ci->buffer_size, "shape", "%d frames instead of %d", n, ci->buffer_size);
        for (int k = 0; k < n; ++k) {
            long double x = static_cast<long double>(f) * (static_cast<long double>(p) + k) / rate, err = 1e-9L + std::fabs(x) * 1e-13L;
            double e;
            bool exact = ideal(kind, x, err, &e);
            for (int j = 0; j < ch; ++j) VCHECK(!exact || vh::close(s.got[static_cast<std::size_t>(k) * ch + j], e, static_cast<double>(8 * err)), "retuned", "round %d frame %d channel %d is %.17g expected %.17g", r, k, j, s.got[static_cast<std::size_t>(k) * ch + j], e);
        }
        for (int k = 0; k < n; ++k) p += 1;         // the phase of an oscillator counts frames
        c.ev("samples_checked", s.got.size());
    }
}
// emits a frequency curve, the same on every channel
struct Freq : SourceModule {
    std::function<double(long)> f; long k = 0; int starts = 0;
    void process() override {
        reserve();
        int ch = buff.channels();
        for (std::size_t i = 0; i < buff.size() / ch; ++i, ++k) for (int j = 0; j < ch; ++j) buff.at(i * ch + j) = f(k);
    }
    void start() override { ++starts; }
};
VSCENARIO(modulated, 2500, 80000) {
    int kind = c.r.i(0, 3), ch = c.r.chn(1, 5), frames = c.r.sz(1, 300);
    double rate = c.r.of({44100., 8000., 48000., 12345., 44099.25, 22050.5, 100.75, 12.5});
    double f = pick_freq(c, rate), dev = c.r.real(-2000, 2000), speed = c.r.real(0, .3), p = c.r.of({0., 0.25, -3.5, c.r.real(-10, 10), 1e5});
    int mode = c.r.i(0, 2);   // 0 constant, 1 curve, 2 steps
    int fixed = c.r.chance(.4) ? c.r.i(1, 100) : 0;
    c.d("%s f=%.17g dev=%.17g speed=%g mode=%d phase=%.17g rate=%g ch=%d frames=%d fixed=%d", names[kind], f, dev, speed, mode, p, rate, ch, frames, fixed);
    c.nontrivial = frames > 1 && mode > 0;
    auto curve = [=](long k) { return mode == 0 ? f : mode == 1 ? f + dev * std::sin(speed * static_cast<double>(k)) : (k / 10 % 2 ? f : dev); };
    Freq fr; fr.f = curve;
    bool link = mode > 0 || c.r.chance(.3);
    auto o = mosc(kind, f, p, link);
    if (link) o->get_frequency()->link(&fr);
    VCHECK(o->get_phase() == p, "getters", "phase %g", o->get_phase());
    auto got = run(c, o.get(), frames, ch, rate, fixed);
    if (link) VCHECK(fr.starts == 1 && fr.k == frames, "modulator", "modulator started %d times, advanced %ld frames of %d", fr.starts, fr.k, frames);
    long double x = p, top = 0;
    for (int k = 0; k < frames; ++k) {
        top = std::max(top, std::fabs(x));
        long double err = 1e-9L + top * (1e-13L + 2.3e-16L * k);   // each frame's addition rounds the phase
        double e;
        bool exact = ideal(kind, x, err, &e);
        for (int j = 0; j < ch; ++j) {
            double v = got[static_cast<std::size_t>(k) * ch + j];
            VCHECK(v >= -1 && v <= 1, "range", "frame %d channel %d is %.17g", k, j, v);
            VCHECK(!exact || vh::close(v, e, static_cast<double>(8 * err)), "modulated-waveform", "frame %d channel %d is %.17g expected %.17g", k, j, v, e);
            VCHECK(v == got[static_cast<std::size_t>(k) * ch], "channels", "frame %d differs between channels", k);
        }
        x += static_cast<long double>(curve(k)) / rate;
    }
    c.ev("modulated_frames", frames);
}
// one oscillator drives the frequency of another, compared with the same arithmetic done by hand; also in a chain composed at compile time
VSCENARIO(fm_static, 500, 10000) {
    double fm = c.r.real(1, 100), depth = c.r.real(1, 300), base = c.r.real(100, 2000), rate = c.r.of({44100., 8000.});
    int ch = c.r.chn(1, 3), frames = c.r.sz(1, 200);
    c.d("fm=%g depth=%g base=%g rate=%g ch=%d frames=%d", fm, depth, base, rate, ch, frames);
    c.nontrivial = frames > 1;
    SineOscillator lfo(fm);
    AmplitudeScale<> sc(depth);
    AmplitudeAdd<> ad(base);
    ad.link(&sc)->link(&lfo);
    ModSineOscillator o;
    o.get_frequency()->link(&ad);
    auto got = run(c, &o, frames, ch, rate, 0);
    long double x = 0;
    for (int k = 0; k < frames; ++k) {
        VCHECK(vh::close(got[static_cast<std::size_t>(k) * ch], static_cast<double>(std::sin(2 * M_PIl * x)), 1e-6), "fm", "frame %d is %.17g", k, got[static_cast<std::size_t>(k) * ch]);
        x += (base + depth * std::sin(2 * M_PIl * fm * k / rate)) / rate;
    }
    using A = AmplitudeScale<ModSineOscillator>;
    SinkModule<A> s;
    s.link_static(A(2.))->link_static(ModSineOscillator(base));
    s.get_chain_info()->buffer_size = frames; s.get_chain_info()->channels = ch; s.get_chain_info()->sample_rate = rate;
    s.meta_info_sync();
    s.meta_start();
    s.meta_process();
    auto b = s.get_buffer();
    VCHECK(b.size() == static_cast<std::size_t>(frames * ch), "static-shape", "%zu", b.size());
    for (int k = 0; k < frames; ++k) VCHECK(vh::close(b.at(static_cast<std::size_t>(k) * ch), 2 * std::sin(2 * M_PI * base * k / rate), 1e-6), "static-moved", "frame %d is %g", k, b.at(static_cast<std::size_t>(k) * ch));
    c.ev("fm_frames", frames);
}
// an oscillator that is moved goes on where it was, with what modulates it; a fresh one starts at zero
VSCENARIO(moved, 300, 6000) {
    double rate = c.r.of({44100., 8000.}), f = c.r.real(1, 3000), p = c.r.real(-3, 3);
    int kind = c.r.i(0, 3), how = c.r.i(0, 3), ch = c.r.chn(1, 3), before = c.r.sz(0, 60), after = c.r.sz(1, 60);
    c.d("%s how=%d ch=%d before=%d after=%d f=%.17g p=%.17g", names[kind], how, ch, before, after, f, p);
    c.nontrivial = before > 0;
    auto all = [&](auto tag, auto mtag) {
        using T = typename decltype(tag)::type;
        using M = typename decltype(mtag)::type;
        {
            T fresh; M mfresh;
            VCHECK(fresh.get_frequency() == 0 && fresh.get_phase() == 0 && mfresh.get_phase() == 0, "default", "starts at frequency %g phase %g / %g", fresh.get_frequency(), fresh.get_phase(), mfresh.get_phase());
            M one(f);
            VCHECK(one.get_phase() == 0, "default", "starts at phase %g", one.get_phase());
        }
        T whole(f, p), part(f, p);
        auto w = run(c, &whole, before + after, ch, rate, 0), g = before ? run(c, &part, before, ch, rate, 0) : std::vector<double>();
        std::vector<double> h;
        if (how == 0) { T q(part); h = run(c, &q, after, ch, rate, 0); }
        else if (how == 1) { T q; q = part; h = run(c, &q, after, ch, rate, 0); }
        else if (how == 2) { T q(std::move(part)); h = run(c, &q, after, ch, rate, 0); }
        else { T q(1, 2); q = std::move(part); h = run(c, &q, after, ch, rate, 0); }
        g.insert(g.end(), h.begin(), h.end());
        VCHECK(g == w, "moved", "a copied or moved oscillator plays something else");
        // the modulated one: constant or by a module
        for (bool link : {false, true}) {
            Freq fr; fr.f = [=](long k) { return f + 100 * std::sin(.1 * static_cast<double>(k)); };
            Freq fr2; fr2.f = fr.f;
            auto mk = [&](Freq& m) { if (!link) return M(f, p); M o; if (how > 1) o.get_frequency()->set_constant(f + 3); o.set_phase(p); o.get_frequency()->link(&m); return o; };
            M mw = mk(fr), mp = mk(fr2);
            if (link) { mw.get_frequency()->link(&fr); mp.get_frequency()->link(&fr2); }
            auto a = run(c, &mw, before + after, ch, rate, 5);
            auto b = before ? run(c, &mp, before, ch, rate, 5) : std::vector<double>();
            std::vector<double> d;
            if (how % 2) { M q(std::move(mp)); if (link && c.r.chance(.3)) q.get_frequency()->link(&fr2); d = run(c, &q, after, ch, rate, 5); }
            else { M q(3, 4); run(c, &q, 3, ch, rate, 5); q = std::move(mp); if (link && c.r.chance(.3)) q.get_frequency()->link(&fr2); d = run(c, &q, after, ch, rate, 5); }
            b.insert(b.end(), d.begin(), d.end());
            VCHECK(a == b, "moved-modulated", "a moved modulated oscillator plays something else (link %d)", (int)link);
            // without playing: format and state go along
            M s1(f, p);
            s1.get_info()->channels = ch + 3; s1.get_info()->out_buffer = 17;
            if (how % 2) { M s2(std::move(s1)); VCHECK(s2.get_info()->channels == ch + 3 && s2.get_info()->out_buffer == 17 && s2.get_phase() == p, "moved-info", "-"); }
            else { M s2; s2 = std::move(s1); VCHECK(s2.get_info()->channels == ch + 3 && s2.get_info()->out_buffer == 17 && s2.get_phase() == p, "moved-info", "-"); }
        }
    };
    switch (kind) {
        case 0: all(std::type_identity<SineOscillator>(), std::type_identity<ModSineOscillator>()); break;
        case 1: all(std::type_identity<SquareOscillator>(), std::type_identity<ModSquareOscillator>()); break;
        case 2: all(std::type_identity<SawtoothOscillator>(), std::type_identity<ModSawtoothOscillator>()); break;
        default: all(std::type_identity<TriangleOscillator>(), std::type_identity<ModTriangleOscillator>());
    }
    c.ev("oscillators_moved");
}
int main(int a, char** v) { return vh::main_impl(a, v); }
