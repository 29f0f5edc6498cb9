// P23: the work of a round depends on the audio in it, not on how much was played before: counted in executed basic blocks, bytes moved and
// allocations.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#define NOCOUNT __attribute__((no_sanitize_coverage, noinline))
static thread_local uint64_t work = 0;
extern "C" {
NOCOUNT void __sanitizer_cov_trace_pc() { ++work; }
void* __real_memmove(void*, const void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
NOCOUNT void* __wrap_memmove(void* d, const void* s, size_t n) { work += n / 8; return __real_memmove(d, s, n); }
NOCOUNT void* __wrap_memcpy(void* d, const void* s, size_t n) { work += n / 8; return __real_memcpy(d, s, n); }
NOCOUNT void* __wrap_memset(void* d, int c, size_t n) { work += n / 8; return __real_memset(d, c, n); }
}
NOCOUNT void* operator new(size_t n) { work += 4; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
NOCOUNT void operator delete(void* p) noexcept { free(p); }
NOCOUNT void operator delete(void* p, size_t) noexcept { free(p); }

#include <numeric>
#include "vh.hpp"
#include "parts.hpp"

struct Rounds { uint64_t last = 0; std::vector<uint32_t> w; };
static void mark(void* p) { auto* r = static_cast<Rounds*>(p); if (r->w.size() < r->w.capacity()) r->w.push_back(static_cast<uint32_t>(work - r->last)); r->last = work; }
static const char* what(int k) { static const char* n[] = {"line", "sine", "square", "sawtooth", "triangle", "mixers", "filter", "envelopes", "adsr", "parallel", "static", "wave", "dsp", "iir", "stores"}; return n[k]; }

// one long session: no round takes more than the first ones did
VSCENARIO(steady, 200, 3000) {
    const int kind = c.r.of({0, 1, 2, 3, 4, 5, 6, 7, 10, 11});
    const int n = kind == 11 ? 500 : c.thorough && c.r.chance(.1) ? 60000 : 6000;
    auto p = parts::make(kind, c.r);
    c.d("%s rounds=%d", what(kind), n);
    c.nontrivial = true;
    Rounds r;
    r.w.reserve(n);
    p->on = mark; p->arg = &r;
    r.last = work;
    p->session(n);
    if (r.w.empty()) return;
    uint64_t first = 0, later = 0; std::size_t at = 0;
    for (std::size_t i = 1; i < r.w.size(); ++i)            // (the first one starts the chain)
        if (i <= r.w.size() / 3) first = std::max<uint64_t>(first, r.w[i]); else if (r.w[i] > later) { later = r.w[i]; at = i; }
    VCHECK(later <= 2 * first + 400, "round-grows", "%s: round %zu takes %lu steps, the first %zu at most %lu", what(kind), at, later, r.w.size() / 3, first);
    c.ev("rounds_measured", r.w.size());
    c.ev("steps_counted", std::accumulate(r.w.begin(), r.w.end(), uint64_t{0}));
}

// the same session again and again
VSCENARIO(sessions, 200, 3000) {
    const int kind = c.r.of({0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14});
    const int rounds = c.r.i(1, 5), n = kind == 12 ? 60 : kind == 11 ? 100 : 400;
    auto p = parts::make(kind, c.r);
    c.d("%s rounds=%d sessions=%d", what(kind), rounds, n);
    c.nontrivial = true;
    uint64_t first = 0;
    for (int k = 0; k < n; ++k) {
        const uint64_t b = work;
        p->session(rounds);
        const uint64_t w = work - b;
        if (k < n / 3) first = std::max(first, w);
        else VCHECK(w <= first + first / 2 + 600, "session-grows", "%s: session %d takes %lu steps, the first %d at most %lu", what(kind), k, w, n / 3, first);
        c.ev("sessions_measured");
    }
}

// twice the audio, twice the work
template <class F> static void linear(vh::Case& c, const char* name, int n, F&& f, double log_factor = 0) {
    uint64_t w[3];
    f(n);                                                  // (what is acquired once)
    for (int i = 0; i < 3; ++i) { const uint64_t b = work; f(n << i); w[i] = work - b; }
    const double d1 = static_cast<double>(w[1]) - w[0], d2 = static_cast<double>(w[2]) - w[1];
    VCHECK(d2 <= (2.6 + log_factor) * std::max(d1, 0.) + 600, "not-linear", "%s: %d, %d and %d take %lu, %lu and %lu steps", name, n, 2 * n, 4 * n, w[0], w[1], w[2]);
    c.ev("scalings_measured");
}
VSCENARIO(scaling, 300, 4000) {
    const int n = c.r.i(150, 900), ch = c.r.i(1, 4);
    const uint64_t seed = c.r.next();
    const int pick = static_cast<int>(c.idx % 24);
    c.d("%d n=%d ch=%d", pick, n, ch);
    c.nontrivial = true;
    auto chain = [&](int kind) {
        linear(c, what(kind), n, [&](int m) {
            vh::Rng r{seed};
            auto p = parts::make(kind, r);
            if (auto* q = dynamic_cast<parts::Chain*>(p.get())) { q->bs = m; q->ch = ch; }
            p->session(3);
        });
    };
    vh::Rng r{seed};
    auto noise = [&](int m) { std::vector<double> v(m); for (auto& x : v) x = r.real(-1, 1); return v; };
    switch (pick) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: chain(pick); break;
        case 7: { const int k = c.r.i(2, 20); linear(c, "input convolution", n, [&](int m) { auto x = noise(m), h = noise(k); std::vector<double> o(m + k); dsp::conv::input_conv(x.begin(), m, h.begin(), k, o.begin()); }); break; }
        case 8: { const int k = c.r.i(2, 20); linear(c, "output convolution", n, [&](int m) { auto x = noise(m), h = noise(k); std::vector<double> o(m + k); dsp::conv::output_conv(x.begin(), m, h.begin(), k, o.begin()); }); break; }
        case 9: { const int k = 1 << c.r.i(5, 9); linear(c, "fft", k, [&](int m) { std::vector<std::complex<double>> x(m), o(m); for (auto& v : x) v = r.unit(); dsp::ft::fft_c_radix2(x.begin(), m, o.begin()); }, .8); break; }
        case 10: { const int k = 1 << c.r.i(5, 9); linear(c, "fft in place", k, [&](int m) { std::vector<std::complex<double>> x(m); for (auto& v : x) v = r.unit(); dsp::util::bit_reverse(m, x.begin()); dsp::ft::fft_c_radix2(x.begin(), m); }, .8); break; }
        case 11: { const int k = (1 << c.r.i(6, 9)) - 20; linear(c, "fft convolution", k, [&](int m) { auto x = noise(m), h = noise(11); std::vector<double> o(m + 11); dsp::conv::conv_fft(x.begin(), m, h.begin(), 11, o.begin()); }, 1.6); break; }
        case 12: linear(c, "recursive filter", n, [&](int m) { dsp::iir::IIRFilter<double> f(5, 3); for (int i = 0; i < 5; ++i) f.set_a(i, .1); for (int i = 0; i < 3; ++i) f.set_b(i, .1); auto x = noise(m); f.process(x.begin(), m); }); break;
        case 13: linear(c, "sequential walk", n, [&](int m) { AudioBuffer b(m, ch, 48000.); double s = 0; for (auto i = b.sbegin(); i != b.send(); ++i) s += *i; for (auto i = b.send(); i != b.sbegin();) { --i; s += *i; } VCHECK(s == 0, "silence", "%g", s); }); break;
        case 14: linear(c, "interleaved walk", n, [&](int m) { AudioBuffer b(m, ch, 48000.); double s = 0; for (auto i = b.ibegin(); i < b.iend(); i += 1) s += *i; for (int i = 0; i < m * ch; ++i) s += b.at(i) + *(b.sbegin() + i); VCHECK(s == 0, "silence", "%g", s); }); break;
        case 15: linear(c, "appending", n, [&](int m) { AudioBuffer b; for (int i = 0; i < m; ++i) b.push_back(i); Collection<int> col; for (int i = 0; i < m; ++i) { auto p = std::make_unique<int>(i); col.add_object(p); } for (int i = 0; i < m; ++i) col.get_object(i); }, .3); break;
        case 16: linear(c, "ring", n, [&](int m) { dsp::buff::RingBuffer<double> q(9); auto i = q.begin(); for (int k = 0; k < m; ++k) { *i = k; ++i; q[k * 7919 - 1000000] += 1; } }); break;
        case 17: linear(c, "memory stream", n, [&](int m) { CharOStream o; o.start(); char b[7] = {}; for (int i = 0; i < m; ++i) o.write(b, 7); CharIStream s; s.get_array() = o.get_array(); s.start(); for (int i = 0; i < m; ++i) s.read(b, 7); }, .3); break;
        case 18: linear(c, "wave writer and reader", n, [&](int m) {
            CharOStream o; WaveWriter w(&o); w.set_channels(ch); w.set_bits_per_sample(16); w.start();
            for (int i = 0; i < m; ++i) w.write_data(std::make_unique<AudioBuffer>(2, ch));
            w.stop();
            CharIStream s; s.get_array() = o.get_array();
            WaveReader rd(&s); rd.start(); rd.set_buffer_size(3);
            for (int i = 0; i < m && !rd.done(); ++i) rd.get_data();
        }, .3); break;
        // many parts
        case 20: linear(c, "envelopes of a chain", n / 4, [&](int m) {
            const int64_t npf = 1000000000 / 48000;
            std::vector<LinearRamp> e(m);
            ChainEnvelope env;
            env.get_info()->out_buffer = 7; env.get_info()->channels = ch;
            env.get_timer()->set_samplerate(48000); env.get_timer()->set_channels(ch);
            int64_t t = 0;
            for (auto& x : e) {
                x.get_timer()->set_samplerate(48000); x.get_timer()->set_channels(ch);
                x.set_start_time(t * npf); t += 2; x.set_stop_time(t * npf); if (seed % 2) ++t;
                env.add_envelope(&x);
            }
            env.meta_start();
            for (int64_t k = 0; k < t / 7; ++k) env.meta_process();
        }); break;
        case 21: linear(c, "inputs of a mixer", n / 4, [&](int m) {
            std::vector<ConstModule> s(m);
            ModuleMixDown mix; SinkModule<> snk; snk.link(&mix);
            for (auto& x : s) { x.set_value(.01); mix.link(&x); }
            snk.get_chain_info()->buffer_size = 7; snk.get_chain_info()->channels = ch;
            snk.meta_info_sync(); snk.meta_start();
            for (int k = 0; k < 3; ++k) snk.meta_process();
            snk.meta_stop();
        }); break;
        case 22: linear(c, "modules of a chain", n / 4, [&](int m) {
            std::vector<AmplitudeAdd<>> s(m);
            ConstModule src; SinkModule<> snk;
            BaseModule* at = &snk;
            for (auto& x : s) { at->link(&x); at = &x; }
            at->link(&src);
            snk.get_chain_info()->buffer_size = 7; snk.get_chain_info()->channels = ch;
            snk.meta_info_sync(); snk.meta_start();
            for (int k = 0; k < 3; ++k) snk.meta_process();
            snk.meta_stop();
        }); break;
        case 23: linear(c, "channels", n / 8, [&](int m) {
            SineOscillator src(440., 0.); AmplitudeScale<> amp(.5); SinkModule<> snk;
            snk.link(&amp)->link(&src);
            snk.get_chain_info()->buffer_size = 7; snk.get_chain_info()->channels = m;
            snk.meta_info_sync(); snk.meta_start();
            for (int k = 0; k < 3; ++k) snk.meta_process();
            snk.meta_stop();
        }); break;
        default: linear(c, "kernels", n, [&](int m) { std::vector<double> k(m); dsp::kern::sinc_kernel(.1, m, k.begin()); dsp::kern::spectral_inversion(k.begin(), m); }); break;
    }
}

// late in the life of a part the work is the same: high phases, times and counts
VSCENARIO(late, 300, 4000) {
    const int kind = c.r.i(0, 7), bs = c.r.i(1, 60), ch = c.r.i(1, 3);
    const int64_t far = c.r.of({int64_t{100000}, int64_t{1} << 24, int64_t{1} << 30, int64_t{1} << 40});
    c.d("%d far=%ld bs=%d ch=%d", kind, (long)far, bs, ch);
    c.nontrivial = true;
    auto rounds = [&](BaseModule* m) { uint64_t w = 0; for (int i = 0; i < 4; ++i) { const uint64_t b = work; m->meta_process(); w = std::max(w, work - b); } return w; };
    auto compare = [&](const char* n, uint64_t early, uint64_t then) { VCHECK(then <= 2 * early + 400, "late-grows", "%s takes %lu steps a round after %ld, %lu at the start", n, then, (long)far, early); c.ev("late_rounds", 4); };
    auto conf = [&](BaseModule& m) { m.get_info()->out_buffer = bs; m.get_info()->in_buffer = bs; m.get_info()->channels = ch; m.get_info()->sample_rate = 48000; };
    if (kind < 4) {
        const double f = c.r.real(20, 9000), ph = static_cast<double>(far) + c.r.unit();
        std::unique_ptr<BaseModule> a, b;
        switch (kind) {
            case 0: a = std::make_unique<SineOscillator>(f, 0.); b = std::make_unique<SineOscillator>(f, ph); break;
            case 1: a = std::make_unique<SquareOscillator>(f, 0.); b = std::make_unique<SquareOscillator>(f, ph); break;
            case 2: a = std::make_unique<SawtoothOscillator>(f, 0.); b = std::make_unique<SawtoothOscillator>(f, ph); break;
            default: a = std::make_unique<TriangleOscillator>(f, 0.); b = std::make_unique<TriangleOscillator>(f, ph);
        }
        conf(*a); conf(*b); a->meta_start(); b->meta_start();
        compare("oscillator", rounds(a.get()), rounds(b.get()));
    } else if (kind == 4) {
        ModSineOscillator a(c.r.real(20, 2000), 0.), b(c.r.real(20, 2000), static_cast<double>(far));
        SinkModule<> sa, sb;
        sa.link(&a); sb.link(&b);
        for (auto* s : {&sa, &sb}) { s->get_chain_info()->buffer_size = bs; s->get_chain_info()->channels = ch; s->meta_info_sync(); s->meta_start(); }
        compare("modulated", rounds(&sa), rounds(&sb));
    } else if (kind == 5) {
        ConstantEnvelope x, y;
        LinearRamp u, v;
        ChainEnvelope a, b;
        auto fill = [&](ChainEnvelope& e, BaseEnvelope& p, BaseEnvelope& q, int64_t from) {
            conf(e); conf(p); conf(q);
            for (auto* t : {e.get_timer(), p.get_timer(), q.get_timer()}) { t->set_samplerate(48000); t->set_channels(ch); t->add_sample(static_cast<int64_t>(from) * ch); }
            const int64_t npf = 1000000000 / 48000;
            p.set_start_time(from * npf); p.set_stop_time((from + 20) * npf); p.set_start_value(.5); p.set_stop_value(.6);
            q.set_start_time((from + 20) * npf); q.set_stop_time((from + 60) * npf); q.set_start_value(.6); q.set_stop_value(.9);
            e.add_envelope(&p); e.add_envelope(&q);
            e.meta_start();
        };
        fill(a, x, u, 0); fill(b, y, v, far);
        compare("envelopes", rounds(&a), rounds(&b));
    } else if (kind == 6) {
        Counter a, b;
        ConstModule s, t;
        conf(a); conf(b); conf(s); conf(t); a.link(&s); b.link(&t);
        a.meta_start(); b.meta_start();
        const uint64_t w = rounds(&a);
        for (int i = 0; i < 3000; ++i) b.meta_process();
        compare("counter", w, rounds(&b));
    } else {
        ChainTimer a, b;
        a.set_samplerate(48000); b.set_samplerate(48000); a.set_channels(ch); b.set_channels(ch); b.add_sample(far);
        auto one = [&](ChainTimer& t) { const uint64_t x = work; for (int i = 0; i < 50; ++i) { t.inc_sample(); t.get_time(); } return work - x; };
        compare("timer", one(a), one(b));
    }
}
int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
