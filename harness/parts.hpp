// Parts of every kind, made from a seed and played in sessions: what they play is folded into one number. Used by the checks of
// properties that hold for all of them (P21, P22).
#pragma once
#include "vh.hpp"
#include <complex>
#include <memory>
#include <unistd.h>
#include "amp_module.hpp"
#include "dsp/conv.hpp"
#include "dsp/ft.hpp"
#include "dsp/iir.hpp"
#include "dsp/kernel.hpp"
#include "dsp/matrix.hpp"
#include "dsp/window.hpp"
#include "envelope.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "io/wav.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"
#include "utils.hpp"

namespace parts {
struct Sum {
    uint64_t h = 1;
    void operator()(uint64_t v) { h = vh::mix(h ^ v); }
    void operator()(double v) { uint64_t u; memcpy(&u, &v, 8); (*this)(u); }
    template <class B> void all(B& b) { for (std::size_t i = 0; i < b.size(); ++i) (*this)(static_cast<double>(b.at(static_cast<int>(i)))); }
};
inline std::string scratch() {
    static std::atomic<int> n{0};
    const char* d = getenv("VERIF_SCRATCH");
    return std::string(d ? d : ".") + "/p" + std::to_string(getpid()) + "_" + std::to_string(n++);
}
// Round: called after every round of every session (the monitors look at the process there)
typedef void (*Round)(void*);
struct Part {
    Sum s; Round on = nullptr; void* arg = nullptr;
    bool whole = true;            // start, play, stop (else a session may be left in the middle)
    virtual ~Part() = default;
    virtual void session(int rounds) = 0;
    virtual const char* name() const = 0;
    virtual long slack() const { return 0; }      // bytes that may be held at one time and not at another
    void round() { if (on) on(arg); }
};
struct Snk : SinkModule<> {
    Sum* s = nullptr;
    void process() override { (*s)(static_cast<uint64_t>(buff.size())); (*s)(buff.get_samplerate()); s->all(buff); }
};
// anything that ends in a sink
struct Chain : Part {
    Snk snk; int bs, ch; double rate; bool fin = false, every = true, synced = false;
    std::vector<std::unique_ptr<BaseModule>> own;
    const char* nm = "chain";
    explicit Chain(vh::Rng& r) : bs(r.i(1, 70)), ch(r.i(1, 4)), rate(r.of({8000., 44100., 48000.})), fin(r.chance(.3)), every(r.chance(.7)) { snk.s = &s; }
    void conf() { auto* i = snk.get_chain_info(); i->buffer_size = bs; i->channels = ch; i->sample_rate = rate; snk.meta_info_sync(); }
    template <class T, class... A> T* add(A&&... a) { auto p = std::make_unique<T>(std::forward<A>(a)...); T* t = p.get(); own.push_back(std::move(p)); return t; }
    const char* name() const override { return nm; }
    virtual void before() {}
    void session(int rounds) override {
        before();
        if (every || !synced) { conf(); synced = true; }
        snk.meta_start();
        for (int k = 0; k < rounds; ++k) {
            if (fin && k == rounds - 1) snk.meta_finish();
            snk.meta_process();
            round();
        }
        if (whole) snk.meta_stop();
        s(static_cast<uint64_t>(snk.get_chain_info()->module_num));
    }
};
inline BaseModule* osc(Chain& p, vh::Rng& r) {
    double f = r.real(20, 2000), ph = r.i(0, 100);
    switch (r.i(0, 5)) {
        case 0: return p.add<SineOscillator>(f, ph);
        case 1: return p.add<SquareOscillator>(f, ph);
        case 2: return p.add<SawtoothOscillator>(f, ph);
        case 3: return p.add<TriangleOscillator>(f, ph);
        case 4: return p.add<ConstModule>(r.real(-1, 1));
        default: return p.add<ModSineOscillator>(f, r.unit());
    }
}
struct Line : Chain {             // source, gains, counters
    explicit Line(vh::Rng& r) : Chain(r) {
        nm = "line";
        BaseModule* at = &snk;
        for (int i = r.i(0, 4); i > 0; --i) {
            BaseModule* m;
            switch (r.i(0, 4)) {
                case 0: m = add<AmplitudeScale<>>(r.real(-1, 1)); break;
                case 1: m = add<AmplitudeAdd<>>(r.real(-1, 1)); break;
                case 2: m = add<Counter>(); break;
                case 3: m = add<LatencyModule>(); break;
                default: m = add<UniformBuffer>();
            }
            at = at->link(m);
        }
        at->link(osc(*this, r));
    }
};
template <class M> struct Mod : Chain {
    explicit Mod(vh::Rng& r) : Chain(r) {
        nm = "modulated";
        auto* m = add<M>(r.real(20, 2000), r.unit());
        if (r.chance(.7)) { auto* sc = add<AmplitudeScale<>>(r.real(1, 400)); sc->link(add<SineOscillator>(r.real(1, 9), 0.)); m->get_frequency()->link(sc); }
        snk.link(m);
    }
};
struct Mix : Chain {
    explicit Mix(vh::Rng& r) : Chain(r) {
        nm = "mixers";
        auto* m = add<ModuleMixDown>();
        snk.link(m);
        for (int i = r.i(0, 5); i > 0; --i) {
            BaseModule* at = m;
            if (r.chance(.4)) { auto* n = add<MultiMix>(); m->link(n); at = n; for (int k = r.i(0, 2); k > 0; --k) n->link(osc(*this, r)); }
            else if (r.chance(.4)) { auto* n = add<ModuleMixUp>(); m->link(n); n->link(osc(*this, r)); continue; }
            at->link(osc(*this, r));
        }
    }
};
struct Filt : Chain {
    explicit Filt(vh::Rng& r) : Chain(r) {
        nm = "filter";
        auto* f = add<SincFilter<>>();
        f->set_type(r.of({dsp::consts::FilterType::LowPass, dsp::consts::FilterType::HighPass, dsp::consts::FilterType::BandPass, dsp::consts::FilterType::BandReject}));
        f->set_start_freq(r.real(100, 1000)); f->set_stop_freq(r.real(1500, 3500)); f->set_size(r.of({3, 21, 51, 101}));
        snk.link(f)->link(osc(*this, r));
    }
};
struct Env : Chain {
    ChainEnvelope* ce = nullptr; std::vector<BaseEnvelope*> leaf; vh::Rng mine;
    explicit Env(vh::Rng& r) : Chain(r), mine{r.next()} {
        nm = "envelopes";
        ce = add<ChainEnvelope>();
        ce->set_start_value(r.real(-1, 1));
        leaf = {add<ConstantEnvelope>(), add<SetValue>(), add<LinearRamp>(), add<ExponentialRamp>(), add<LinearRamp>()};
        snk.link(ce);
    }
    void before() override {      // the same line of envelopes for each session
        ce->clear();
        const int64_t npf = static_cast<int64_t>(1e9) / static_cast<int64_t>(rate);
        vh::Rng r = mine;
        ce->get_timer()->reset(); ce->get_timer()->set_samplerate(static_cast<int>(rate)); ce->get_timer()->set_channels(ch);
        int64_t t = 0;
        for (auto* e : leaf) {
            e->get_timer()->reset(); e->get_timer()->set_samplerate(static_cast<int>(rate)); e->get_timer()->set_channels(ch);
            t += r.range(0, 40) * npf; e->set_start_time(t); t += r.range(1, 90) * npf; e->set_stop_time(t);
            e->set_start_value(r.real(.1, 1)); e->set_stop_value(r.real(.1, 1));
            ce->add_envelope(e);
        }
    }
};
struct Adsr : Chain {
    ADSREnvelope* e;
    explicit Adsr(vh::Rng& r) : Chain(r) {
        nm = "adsr"; fin = false;
        int64_t npf = static_cast<int64_t>(1e9 / rate);
        e = add<ADSREnvelope>(r.range(0, 90) * npf, r.range(0, 90) * npf, r.real(.1, .9), r.range(1, 90) * npf);
        e->get_timer()->set_samplerate(static_cast<int>(rate)); e->get_timer()->set_channels(ch);
        snk.link(e);
    }
    void session(int rounds) override {
        Chain::session(rounds / 2);
        e->finish();
        for (int k = rounds / 2; k < rounds; ++k) { snk.meta_process(); round(); }
    }
};
struct Par : Chain {
    ParallelModule* p; std::size_t lim;
    explicit Par(vh::Rng& r) : Chain(r), lim(r.i(1, 5)) {
        nm = "parallel";
        fin = false;              // reading ahead, a module may be told to finish any number of buffers later
        p = add<ParallelModule>(); p->max_size(lim);
        auto* k = add<Counter>();
        snk.link(p)->link(k)->link(add<UniformBuffer>())->link(add<ConstModule>(r.real(-1, 1)));
    }
    long slack() const override { return static_cast<long>((lim + 3) * (bs * ch * 8 + 64)) + 8192; }
};
struct Static : Part {            // a chain the compiler knows
    SinkModule<AmplitudeScale<AmplitudeAdd<SineOscillator>>> snk; int bs, ch;
    explicit Static(vh::Rng& r) : bs(r.i(1, 70)), ch(r.i(1, 4)) {
        snk.backward().set_value(r.real(-1, 1)); snk.backward().backward().set_value(r.real(-1, 1)); snk.backward().backward().backward().set_frequency(r.real(20, 2000));
    }
    const char* name() const override { return "static"; }
    void session(int rounds) override {
        auto* i = snk.get_chain_info(); i->buffer_size = bs; i->channels = ch;
        snk.meta_info_sync(); snk.meta_start();
        for (int k = 0; k < rounds; ++k) { snk.meta_process(); auto b = snk.get_buffer(); s.all(b); round(); }
        if (whole) snk.meta_stop();
    }
};
struct Wave : Part {              // through a WAVE file, in memory or on disk
    bool file; int ch, bits, n; double f; std::string path;
    explicit Wave(vh::Rng& r) : file(r.chance(.5)), ch(r.i(1, 3)), bits(r.of({8, 16})), n(r.i(1, 90)), f(r.real(.01, 1)) { if (file) path = scratch(); }
    ~Wave() override { if (file) unlink(path.c_str()); }
    const char* name() const override { return file ? "wave file" : "wave memory"; }
    void session(int rounds) override {
        CharOStream mo; FOStream fo; CharIStream mi; FIStream fi;
        fo.set_path(path); fi.set_path(path);
        WaveWriter w(file ? static_cast<BaseMOStream*>(&fo) : &mo);
        w.set_bits_per_sample(bits); w.set_channels(ch); w.set_samplerate(48000);
        w.start();
        for (int k = 0; k < rounds; ++k) {
            auto b = std::make_unique<AudioBuffer>(n, ch);
            for (int i = 0; i < n * ch; ++i) b->at(i) = std::sin(f * (k * n * ch + i));
            w.write_data(std::move(b));
        }
        if (!file || whole) w.stop();
        if (!file) mi.get_array() = mo.get_array();
        if (file && !whole) return;
        WaveSource src(file ? static_cast<BaseMIStream*>(&fi) : &mi);
        Snk snk; snk.s = &s; snk.get_chain_info()->buffer_size = n + 3; snk.link(&src);
        snk.meta_info_sync(); snk.meta_start();
        for (int k = 0; k < rounds && !src.WaveReader::done(); ++k) { snk.meta_process(); round(); }
        if (whole) snk.meta_stop();
    }
};
struct Dsp : Part {               // convolution, transforms, kernels, matrices
    vh::Rng mine;
    explicit Dsp(vh::Rng& r) : mine{r.next()} {}
    const char* name() const override { return "dsp"; }
    void session(int rounds) override {
        vh::Rng r = mine;
        for (int k = 0; k < rounds; ++k) {
            std::vector<double> x(r.i(1, 60)), h(r.i(1, 30));
            for (auto& v : x) v = r.real(-1, 1);
            for (auto& v : h) v = r.real(-1, 1);
            std::vector<double> a(x.size() + h.size() - 1), b(a), d(a);
            dsp::conv::input_conv(x.begin(), x.size(), h.begin(), h.size(), a.begin());
            dsp::conv::output_conv(x.begin(), x.size(), h.begin(), h.size(), b.begin());
            dsp::conv::conv_fft(x.begin(), static_cast<int>(x.size()), h.begin(), static_cast<int>(h.size()), d.begin());
            for (auto& v : {a, b, d}) for (double u : v) s(u);
            auto bp = std::make_unique<AudioBuffer>(20, 2), kp = std::make_unique<AudioBuffer>(5, 2);
            for (int i = 0; i < 40; ++i) bp->at(i) = r.real(-1, 1);
            for (int i = 0; i < 10; ++i) kp->at(i) = r.real(-1, 1);
            auto cp = k % 2 ? dsp::conv::input_conv(std::move(bp), std::move(kp)) : dsp::conv::output_conv(std::move(bp), std::move(kp));
            s.all(*cp);
            const int n = 1 << r.i(1, 7);
            std::vector<std::complex<double>> z(n), y(n), q;
            for (auto& v : z) v = {r.real(-1, 1), r.real(-1, 1)};
            dsp::ft::fft_c_radix2(z.begin(), n, y.begin());
            q = z; dsp::util::bit_reverse(n, q.begin()); dsp::ft::fft_c_radix2(q.begin(), n);
            for (int i = 0; i < n; ++i) { s(y[i].real()); s(q[i].imag()); }
            std::vector<double> re(n); for (auto& v : re) v = r.real(-1, 1);
            std::vector<std::complex<double>> fr(n / 2 + 1); std::vector<double> back(n);
            if (n >= 4) { dsp::ft::fft_r_radix2(re.begin(), n, fr.begin()); dsp::ft::ifft_r_radix2(fr.begin(), n / 2 + 1, back.begin()); for (double v : back) s(v); }
            std::fill(fr.begin(), fr.end(), 0); dsp::ft::dft(re.begin(), re.size(), fr.begin());
            for (auto& v : fr) s(v.real());
            std::vector<double> kern(r.of({3, 21, 51}));
            dsp::kern::sinc_kernel(r.real(.01, .4), static_cast<int>(kern.size()), kern.begin());
            if (k % 2) dsp::kern::spectral_inversion(kern.begin(), static_cast<int>(kern.size()));
            for (double v : kern) s(v);
            s(dsp::win::window_hann(r.i(0, 9), 10)); s(dsp::win::window_blackman(r.i(0, 9), 10));
            const int p = r.i(1, 4), m = r.i(1, 4), o = r.i(1, 4);
            dsp::buff::Buffer<double> ma(m, p), mb(o, m), mc;
            for (auto& v : ma) v = r.real(-1, 1);
            for (auto& v : mb) v = r.real(-1, 1);
            dsp::mat::matrix_mult(ma, mb, mc);
            s.all(mc);
            round();
        }
    }
};
struct Iir : Part {
    dsp::iir::IIRFilter<double> f; dsp::iir::SinglePole<double> sp; vh::Rng mine;
    explicit Iir(vh::Rng& r) : f(r.i(0, 5), r.i(0, 4)), mine{r.next()} {
        for (int i = 0; i < f.get_asize(); ++i) f.set_a(i, r.real(-1, 1));
        for (int i = 0; i < f.get_bsize(); ++i) f.set_b(i, r.real(-.2, .2));
        sp.set_type(r.chance(.5) ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass);
        sp.set_frac_high(r.real(.01, .4)); sp.set_frac_low(r.real(.01, .4)); sp.generate_coefficients();
    }
    const char* name() const override { return "iir"; }
    void session(int rounds) override {
        vh::Rng r = mine;
        std::vector<double> v(50), w(50);
        for (int k = 0; k < rounds; ++k) {
            for (auto& x : v) x = r.real(-1, 1);
            f.process(v.begin(), r.i(1, 50)); sp.process(v.begin(), 50, w.begin());
            for (double x : v) s(x);
            for (double x : w) s(x);
            std::vector<double> a(3, .2), b(2, .1);
            s(std::abs(dsp::iir::freq_response(r.real(0, 3), a, b)));
            round();
        }
    }
};
struct Store : Part {             // buffers, rings, collections, conversions, byte streams
    vh::Rng mine;
    Collection<std::vector<double>> col; AudioBuffer buf; dsp::buff::RingBuffer<double> ring{7};
    explicit Store(vh::Rng& r) : mine{r.next()} {}
    const char* name() const override { return "stores"; }
    void session(int rounds) override {
        vh::Rng r = mine;
        for (int k = 0; k < rounds; ++k) {
            auto o = std::make_unique<std::vector<double>>(r.i(1, 20), r.unit());
            col.add_object(o);
            s((*col.get_object(col.num_objects() - 1))[0]);
            if (col.num_objects() > 3) { if (r.chance(.5)) col.free_object(r.i(0, col.num_objects() - 1)); else { delete col.release_object(0); col.free_object(0); } }
            AudioBuffer b(20, 2);
            for (auto it = b.sbegin(); it != b.send(); ++it) *it = r.real(-1, 1);
            AudioBuffer q = b, t;
            t = q; q.push_back(1); buf = std::move(q);
            s.all(t); s.all(buf);
            for (int i = 0; i < 9; ++i) ring[r.i(-20, 20)] = b.at(i);
            for (int i = 0; i < 7; ++i) s(ring[i]);
            std::vector<int16_t> codes(t.size());
            squish_inter(&t, codes.begin(), &mf_int16);
            for (auto v : codes) s(int16_mf(v));
            auto p = create_buffer(5, 2, 48000.);
            s(p->get_samplerate());
            CharOStream mo; mo.start();
            char by[8] = {}; int32_char(r.i(0, 1 << 30), by); mo.write(by, 8); mo.seek(2); mo.write(by, 4);
            CharIStream mi; mi.get_array() = mo.get_array(); mi.start(); mi.read(by, 5); s(static_cast<uint64_t>(char_int32(by)));
            round();
        }
        col.clear();
    }
};
constexpr int KINDS = 15;
inline std::unique_ptr<Part> make(int kind, vh::Rng& r) {
    switch (kind) {
        case 0: return std::make_unique<Line>(r);
        case 1: return std::make_unique<Mod<ModSineOscillator>>(r);
        case 2: return std::make_unique<Mod<ModSquareOscillator>>(r);
        case 3: return std::make_unique<Mod<ModSawtoothOscillator>>(r);
        case 4: return std::make_unique<Mod<ModTriangleOscillator>>(r);
        case 5: return std::make_unique<Mix>(r);
        case 6: return std::make_unique<Filt>(r);
        case 7: return std::make_unique<Env>(r);
        case 8: return std::make_unique<Adsr>(r);
        case 9: return std::make_unique<Par>(r);
        case 10: return std::make_unique<Static>(r);
        case 11: return std::make_unique<Wave>(r);
        case 12: return std::make_unique<Dsp>(r);
        case 13: return std::make_unique<Iir>(r);
        default: return std::make_unique<Store>(r);
    }
}
}
