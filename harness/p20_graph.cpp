// P20: a whole graph plays the sum of what its parts play, frame by frame, however its audio is cut into buffers; and what it plays survives the
// way through a WAVE file into the next graph.
#include "vh.hpp"
#include <memory>
#include "wavref.hpp"
#include "amp_module.hpp"
#include "envelope.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"
#include "io/wav.hpp"
using vh::Case;
typedef std::vector<double> DV;
typedef std::vector<DV> Chans;

enum Kind { OSC, MOD, CONST, ENV, WAVE, NUM, SCALE, ADD, MIX, MULTI, UP, COUNTER, LATENCY, FIR, PAR, UNIFORM };
static const char* NAME[] = {"osc", "mod", "const", "env", "wave", "num", "scale", "add", "mix", "multi", "up", "counter", "latency", "fir", "par", "uniform"};
struct Spec {
    Kind kind; int shape = 0, n = 0; double a = 0, b = 0;
    DV h;
    struct E { int kind; int64_t t0, t1; double v0, v1; };
    std::vector<E> env;
    std::vector<int> codes;      // file
    std::vector<Spec> kids;
};
struct Conf { int ch; double rate; };

// numbered frames of every channel, in blocks as asked or of any length
static double num(long k, int ch, const Spec& s) { return s.a * static_cast<double>((k * 7 + ch * 13) % 101 - 50) / 50; }
struct Num : SourceModule {
    const Spec* s; vh::Rng* ragged = nullptr; long k = 0;
    void process() override {
        reserve();
        const int ch = get_info()->channels;
        const int n = ragged ? ragged->i(0, 40) : get_info()->out_buffer;
        buff = AudioBuffer(n, ch, get_info()->sample_rate);
        for (int f = 0; f < n; ++f, ++k) for (int j = 0; j < ch; ++j) buff.at(j, f) = num(k, j, *s);
    }
};
struct Play : SourceModule {     // plays what was recorded
    Chans d; std::size_t k = 0;
    void process() override {
        reserve();
        for (int f = 0; f < static_cast<int>(buff.channel_capacity()); ++f, ++k)
            for (int j = 0; j < static_cast<int>(buff.channels()); ++j) buff.at(j, f) = k < d[j].size() ? d[j][k] : 0;
    }
};
struct Fir : BaseConvFilter<> {
    DV h;
    void generate_kernel() override {
        auto b = std::make_unique<AudioBuffer>(static_cast<int>(h.size()), 1);
        std::copy(h.begin(), h.end(), b->ibegin());
        set_kernel(std::move(b));
    }
};
struct Snk : SinkModule<> {
    Chans got; int want_ch = 0; double want_rate = 0; int last = 0;
    WaveWriter* w = nullptr;
    void process() override {
        const int ch = static_cast<int>(buff.channels());
        VCHECK(ch == want_ch && buff.get_samplerate() == want_rate, "format", "buffer of %d channels at %g, the chain has %d at %g", ch, buff.get_samplerate(), want_ch, want_rate);
        last = static_cast<int>(buff.channel_capacity());
        got.resize(ch);
        for (int j = 0; j < ch; ++j) for (int f = 0; f < last; ++f) got[j].push_back(buff.at(j, f));
        if (w) w->write_data(std::make_unique<AudioBuffer>(buff));
    }
};

static Spec make(Case& c, int depth, Conf cf, bool par, bool top) {
    Spec s;
    const bool leaf = depth <= 0 && !top;
    if (leaf) s.kind = static_cast<Kind>(c.r.i(OSC, NUM));
    else s.kind = c.r.of({SCALE, ADD, MIX, MIX, MULTI, UP, COUNTER, LATENCY, FIR, FIR, par ? PAR : MIX, par ? PAR : SCALE, UNIFORM, MOD});
    c.d("%s", NAME[s.kind]);
    c.fold((uint64_t)s.kind);
    auto kid = [&](int d) { s.kids.push_back(make(c, d, cf, par, false)); };
    s.a = c.r.real(-2, 2);
    c.fold(s.a);
    switch (s.kind) {
        case OSC: s.shape = c.r.i(0, 3); s.a = c.r.chance(.3) ? c.r.of({440., 0., 1000., cf.rate / 4}) : c.r.real(1, 5000); s.b = c.r.of({0., 0., 5., c.r.real(-100, 100)}); break;
        case MOD: s.shape = c.r.i(0, 3); s.a = c.r.real(50, 1000); s.b = c.r.real(1, 400);
                  c.d("("); if (leaf) s.kids.push_back([&] { Spec k; k.kind = NUM; k.a = 1; return k; }()); else kid(depth - 1); c.d(")"); break;
        case CONST: break;
        case ENV: {
            int64_t t = 0, npf = NANO / static_cast<int64_t>(cf.rate);
            for (int k = c.r.i(1, 4); k > 0; --k) {
                t += c.r.chance(.5) ? 0 : c.r.range(0, 60) * npf;
                int64_t e = t + c.r.range(1, 90 * npf);
                s.env.push_back({c.r.i(0, 3), t, e, c.r.real(.1, 1), c.r.real(.1, 1)});
                t = e;
            }
            break;
        }
        case WAVE: s.n = c.r.i(1, 2); for (int k = c.r.i(0, 300) * cf.ch; k > 0; --k) s.codes.push_back(s.n == 2 ? c.r.i(-32768, 32767) : c.r.i(0, 255)); break;
        case NUM: break;
        case SCALE: case ADD: case COUNTER: case LATENCY: case UP: c.d("("); kid(depth - 1); c.d(")"); break;
        case MIX: case MULTI: c.d("("); for (int k = c.r.i(1, 4); k > 0; --k) { kid(depth - 1); c.d(" "); } c.d(")"); break;
        case FIR: s.h.resize(c.r.i(1, 25)); for (auto& v : s.h) v = c.r.real(-.5, .5); c.d("%zu(", s.h.size()); kid(depth - 1); c.d(")"); break;
        case PAR: s.n = c.r.i(1, 4); c.d("%d(", s.n); kid(depth - 1); c.d(")"); break;
        case UNIFORM: c.d("(ragged)"); break;
    }
    return s;
}
static bool has(const Spec& s, Kind k) { if (s.kind == k) return true; for (auto& x : s.kids) if (has(x, k)) return true; return false; }
static int count(const Spec& s) { int n = 1 + (s.kind == UNIFORM) + (s.kind == MOD); for (auto& x : s.kids) n += count(x); return n; }

struct Built {
    std::vector<std::unique_ptr<BaseModule>> mods;
    std::vector<std::unique_ptr<BaseEnvelope>> envs;
    std::vector<std::unique_ptr<CharIStream>> streams;
    std::vector<std::pair<Counter*, const Spec*>> counters;
    vh::Rng* r = nullptr;
    ~Built() { for (auto it = mods.rbegin(); it != mods.rend(); ++it) if (auto* p = dynamic_cast<ParallelModule*>(it->get())) p->stop(); }
    template <class T> T* keep(std::unique_ptr<T> p) { T* raw = p.get(); mods.push_back(std::move(p)); return raw; }
    template <class T, class... A> T* neu(A&&... a) { return keep(std::make_unique<T>(std::forward<A>(a)...)); }
    BaseModule* leaf(const Spec& s, Conf cf, BaseModule* freq) {
        switch (s.kind) {
            case OSC:
                switch (s.shape) { case 0: return neu<SineOscillator>(s.a, s.b); case 1: return neu<SquareOscillator>(s.a, s.b); case 2: return neu<SawtoothOscillator>(s.a, s.b); default: return neu<TriangleOscillator>(s.a, s.b); }
            case MOD: {
                BaseModulatedOscillator* o;
                switch (s.shape) { case 0: o = neu<ModSineOscillator>(); break; case 1: o = neu<ModSquareOscillator>(); break; case 2: o = neu<ModSawtoothOscillator>(); break; default: o = neu<ModTriangleOscillator>(); }
                auto* ad = neu<AmplitudeAdd<>>(s.a); auto* sc = neu<AmplitudeScale<>>(s.b);
                o->get_frequency()->link(ad)->link(sc)->link(freq);
                return o;
            }
            case CONST: return neu<ConstModule>(s.a);
            case ENV: {
                auto* e = neu<ChainEnvelope>();
                e->get_timer()->set_samplerate(static_cast<int>(cf.rate)); e->get_timer()->set_channels(cf.ch);
                e->set_start_value(s.a);
                for (auto& x : s.env) {
                    std::unique_ptr<BaseEnvelope> b;
                    switch (x.kind) { case 0: b = std::make_unique<ConstantEnvelope>(); break; case 1: b = std::make_unique<SetValue>(); break; case 2: b = std::make_unique<LinearRamp>(); break; default: b = std::make_unique<ExponentialRamp>(); }
                    b->set_start_time(x.t0); b->set_stop_time(x.t1); b->set_start_value(x.v0); b->set_stop_value(x.v1);
                    e->add_envelope(b.get());
                    envs.push_back(std::move(b));
                }
                return e;
            }
            case WAVE: {
                wavref::File f;
                f.channels = cf.ch; f.rate = static_cast<int>(cf.rate); f.bits = 8 * s.n;
                wavref::Chunk k; k.data = true;
                for (int v : s.codes) wavref::le(k.body, static_cast<uint32_t>(v), s.n);
                f.chunks.push_back(k);
                f.build();
                streams.push_back(std::make_unique<CharIStream>());
                streams.back()->get_array() = f.bytes;
                return neu<WaveSource>(streams.back().get());
            }
            default: { auto* n = neu<Num>(); n->s = &s; return n; }
        }
    }
    BaseModule* build(const Spec& s, Conf cf) {
        auto under = [&](BaseModule* m) { for (auto& k : s.kids) m->link(build(k, cf)); return m; };
        switch (s.kind) {
            case SCALE: return under(neu<AmplitudeScale<>>(s.a));
            case ADD: return under(neu<AmplitudeAdd<>>(s.a));
            case MIX: return under(neu<ModuleMixDown>());
            case MULTI: return under(neu<MultiMix>());
            case UP: return under(neu<ModuleMixUp>());
            case COUNTER: { auto* k = neu<Counter>(); counters.push_back({k, &s}); return under(k); }
            case LATENCY: { auto* k = neu<LatencyModule>(); counters.push_back({k, &s}); return under(k); }
            case FIR: { auto* f = neu<Fir>(); f->h = s.h; return under(f); }
            case PAR: { auto* p = neu<ParallelModule>(); p->max_size(s.n); return under(p); }
            case UNIFORM: { auto* u = neu<UniformBuffer>(); auto* n = neu<Num>(); n->s = &s; n->ragged = r; u->link(n); return u; }
            case MOD: return leaf(s, cf, build(s.kids[0], cf));
            default: return leaf(s, cf, nullptr);
        }
    }
};

// a library source on its own, in a single buffer (what it then plays is decided by other properties)
static Chans alone(const Spec& s, Conf cf, int n, const Chans* freq) {
    Built b;
    Snk k; k.want_ch = cf.ch; k.want_rate = cf.rate;
    auto* ci = k.get_chain_info();
    ci->buffer_size = n; ci->channels = cf.ch; ci->sample_rate = cf.rate;
    Play p;
    if (freq) p.d = *freq;
    k.link(b.leaf(s, cf, &p));
    k.meta_info_sync(); k.meta_start(); k.meta_process(); k.meta_stop();
    return k.got;
}
static Chans model(const Spec& s, Conf cf, int n) {
    Chans o(cf.ch, DV(n));
    auto each = [&](auto f) { for (int j = 0; j < cf.ch; ++j) for (int i = 0; i < n; ++i) o[j][i] = f(j, i); };
    switch (s.kind) {
        case OSC: case ENV: return alone(s, cf, n, nullptr);
        case MOD: { Chans f = model(s.kids[0], cf, n); return alone(s, cf, n, &f); }
        case CONST: each([&](int, int) { return s.a; }); break;
        case WAVE: each([&](int j, int i) { std::size_t k = (std::size_t)i * cf.ch + j; return k >= s.codes.size() ? 0. : s.n == 2 ? wavref::dec16(s.codes[k]) : wavref::dec8(s.codes[k]); }); break;
        case NUM: case UNIFORM: each([&](int j, int i) { return num(i, j, s); }); break;
        case SCALE: o = model(s.kids[0], cf, n); for (auto& v : o) for (auto& x : v) x *= s.a; break;
        case ADD: o = model(s.kids[0], cf, n); for (auto& v : o) for (auto& x : v) x += s.a; break;
        case MIX: case MULTI: for (auto& k : s.kids) { Chans m = model(k, cf, n); for (int j = 0; j < cf.ch; ++j) for (int i = 0; i < n; ++i) o[j][i] += m[j][i]; } break;
        case UP: case COUNTER: case LATENCY: case PAR: return model(s.kids[0], cf, n);
        case FIR: {
            Chans m = model(s.kids[0], cf, n);
            for (int j = 0; j < cf.ch; ++j) for (int i = 0; i < n; ++i) { long double t = 0; for (int k = 0; k < (int)s.h.size() && k <= i; ++k) t += (long double)s.h[k] * m[j][i - k]; o[j][i] = (double)t; }
            break;
        }
    }
    return o;
}
// how far rounding may carry: discontinuous oscillators driven by a filtered frequency may flip on a rounding error
static bool fragile(const Spec& s) {
    if (s.kind == MOD && s.shape != 0 && (has(s.kids[0], FIR) || has(s.kids[0], MIX) || has(s.kids[0], MULTI))) return true;
    for (auto& k : s.kids) if (fragile(k)) return true;
    return false;
}
static DV partition(Case& c, int n, int& fixed, bool par) {
    DV p;
    fixed = par || c.r.chance(.3) ? c.r.i(1, 60) : 0;
    for (int left = n; left > 0;) {
        int b = fixed ? fixed : c.r.chance(.2) ? c.r.i(1, 3) : c.r.i(1, 120);
        if (!fixed) b = std::min(b, left);
        p.push_back(b); left -= b;
    }
    return p;
}
static Chans play(Case& c, const Spec& s, Conf cf, int n, vh::Rng& r, WaveWriter* w, int* rounds) {
    const bool par = has(s, PAR);
    Built b; b.r = &r;
    Snk k; k.want_ch = cf.ch; k.want_rate = cf.rate;
    BaseModule* root = b.build(s, cf);
    k.link(root);
    int fixed = 0;
    DV parts = partition(c, n, fixed, par);
    auto* ci = k.get_chain_info();
    ci->buffer_size = static_cast<int>(parts[0]); ci->channels = cf.ch; ci->sample_rate = cf.rate;
    k.meta_info_sync();
    k.meta_start();
    k.w = w;
    long frames = 0; int round = 0;
    for (double x : parts) {
        if (ci->buffer_size != static_cast<int>(x)) { ci->buffer_size = static_cast<int>(x); k.meta_info_sync(); c.ev("resized"); }
        k.meta_process();
        frames += static_cast<long>(x); ++round;
        VCHECK(k.last == static_cast<int>(x), "block", "round %d gave %d frames instead of %g", round, k.last, x);
        if (!par) for (auto& q : b.counters) VCHECK(q.first->processed() == round && q.first->samples() == frames * cf.ch, "counted", "%d buffers %d samples of %d, %ld", q.first->processed(), q.first->samples(), round, frames * cf.ch);
        c.ev("rounds");
    }
    k.meta_stop();
    *rounds = round;
    c.ev("modules_played", b.mods.size());
    return k.got;
}
static Conf pick(Case& c) { return {c.r.i(1, 4), c.r.of({8000., 44100., 1000., 48000.})}; }

static void compare(Case& c, const char* key, const Chans& got, const Chans& want, int n, double tol, const char* what) {
    for (std::size_t j = 0; j < want.size(); ++j) {
        VCHECK(got.size() == want.size() && static_cast<int>(got[j].size()) >= n, "length", "%s: %zu frames of %d", what, got.size() > j ? got[j].size() : 0, n);
        for (int i = 0; i < n; ++i)
            VCHECK(std::fabs(got[j][i] - want[j][i]) <= tol * (1 + std::fabs(want[j][i])), key, "%s: channel %zu frame %d is %.17g instead of %.17g", what, j, i, got[j][i], want[j][i]);
    }
    c.ev("frames_compared", n);
}
VSCENARIO(graph, 1500, 40000) {
    Conf cf = pick(c);
    Spec s = make(c, c.r.i(1, 4), cf, c.r.chance(.25), true);
    while (fragile(s)) { c.d(" | "); s = make(c, c.r.i(1, 4), cf, false, true); }
    int n = c.r.i(1, c.r.chance(.2) ? 900 : 200);
    c.d(" ch=%d rate=%g frames=%d", cf.ch, cf.rate, n);
    c.nontrivial = count(s) > 3;
    Chans want = model(s, cf, n + 200);
    for (int k = 0; k < 2; ++k) {
        int rounds;
        compare(c, "audio", play(c, s, cf, n, c.r, nullptr, &rounds), want, n, 1e-7, k ? "second partition" : "first partition");
    }
    if (has(s, PAR)) c.ev("parallel_graphs");
    if (has(s, MOD)) c.ev("modulated_graphs");
    if (has(s, FIR)) c.ev("filtered_graphs");
}

// through a period sink: the same audio, several buffers for each call
struct Per : PeriodSink {
    Chans got;
    void process() override {
        got.resize(buff.channels());
        for (int j = 0; j < static_cast<int>(buff.channels()); ++j) for (int f = 0; f < static_cast<int>(buff.channel_capacity()); ++f) got[j].push_back(buff.at(j, f));
    }
};
VSCENARIO(period, 400, 10000) {
    Conf cf = pick(c);
    Spec s = make(c, c.r.i(1, 3), cf, false, true);
    while (fragile(s)) { c.d(" | "); s = make(c, c.r.i(1, 3), cf, false, true); }
    int p = c.r.i(1, 6), bs = c.r.sz(1, 40), rounds = c.r.i(1, 6), n = p * bs * rounds;
    c.d(" ch=%d rate=%g periods=%d of %d rounds=%d", cf.ch, cf.rate, p, bs, rounds);
    c.nontrivial = p > 1;
    Chans want = model(s, cf, n);
    Built b; b.r = &c.r;
    Per k; k.set_period(p);
    VCHECK(k.get_period() == p, "period", "%d", k.get_period());
    auto* ci = k.get_chain_info();
    ci->buffer_size = bs; ci->channels = cf.ch; ci->sample_rate = cf.rate;
    k.link(b.build(s, cf));
    k.meta_info_sync(); k.meta_start();
    for (int i = 1; i <= rounds; ++i) {
        k.meta_process();
        VCHECK(!k.got.empty() && static_cast<int>(k.got[0].size()) == i * p * bs, "period-frames", "%zu frames after %d rounds of %d periods of %d", k.got[0].size(), i, p, bs);
    }
    k.meta_stop();
    compare(c, "period-audio", k.got, want, n, 1e-7, "periods");
    c.ev("period_rounds", rounds);
}

// a chain written to a file, the file played by the next chain
VSCENARIO(file, 600, 15000) {
    Conf cf = pick(c);
    Spec inner = make(c, c.r.i(0, 3), cf, c.r.chance(.2), true);
    while (fragile(inner)) { c.d(" | "); inner = make(c, c.r.i(0, 3), cf, false, true); }
    int n = c.r.i(1, 300), bytes = c.r.i(1, 2);
    Chans raw = model(inner, cf, n + 200);
    double peak = 1e-9;
    for (auto& v : raw) for (double x : v) peak = std::max(peak, std::fabs(x));
    Spec s; s.kind = SCALE; s.a = .999 / peak; s.kids.push_back(inner);
    Chans want = model(s, cf, n + 200);
    c.d(" ch=%d rate=%g frames=%d bytes=%d peak=%g", cf.ch, cf.rate, n, bytes, peak);
    c.nontrivial = count(s) > 3;
    CharOStream os;
    WaveWriter w(&os);
    w.set_channels(cf.ch); w.set_samplerate(static_cast<int>(cf.rate)); w.set_bytes_per_sample(bytes);
    w.start();
    int rounds;
    Chans sent = play(c, s, cf, n, c.r, &w, &rounds);
    w.stop();
    const int total = static_cast<int>(sent[0].size());
    compare(c, "sent", sent, want, n, 1e-7, "before writing");
    const auto& file = os.get_array();
    VCHECK(file.size() == 44 + (std::size_t)total * cf.ch * bytes, "file-size", "%zu bytes for %d frames", file.size(), total);
    // played again by another chain, in other buffers
    CharIStream is; is.get_array().assign(file.begin(), file.end());
    WaveSource src(&is);
    AmplitudeScale<> g(1 / s.a);
    Snk k; k.want_ch = cf.ch; k.want_rate = cf.rate;
    auto* ci = k.get_chain_info();
    ci->buffer_size = c.r.sz(1, 100);
    k.link(&g)->link(&src);
    k.meta_info_sync(); k.meta_start();
    for (int guard = 0; !src.WaveReader::done() && guard < 2000; ++guard) k.meta_process();
    VCHECK(src.WaveReader::done() && !k.got.empty() && static_cast<int>(k.got[0].size()) >= total && static_cast<int>(k.got[0].size()) < total + ci->buffer_size, "file-length",
           "%zu frames played of %d", k.got.empty() ? 0 : k.got[0].size(), total);
    k.meta_stop();
    const double step = bytes == 2 ? 1.01 / 32767 : 1.01 / 255;      // one code step: values are cut off to 16 bits, rounded to 8
    for (int j = 0; j < cf.ch; ++j)
        for (int i = 0; i < static_cast<int>(k.got[j].size()); ++i) {
            double e = i < total ? sent[j][i] : 0, v = k.got[j][i] * s.a;
            VCHECK(std::fabs(v - e) <= (i < total ? step : 0), "round-trip", "channel %d frame %d came back as %.10g instead of %.10g (step %g)", j, i, v, e, step);
        }
    c.ev("frames_through_file", total);
}
int main(int a, char** v) { return vh::main_impl(a, v); }
