// P17: FIR filter modules convolve the whole stream channel by channel; kernels and windows have the documented shape and response.
#include "vh.hpp"
#include <complex>
#include <memory>
#include "filter_module.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include "dsp/kernel.hpp"
#include "dsp/window.hpp"
using vh::Case;
typedef dsp::consts::FilterType FT;
typedef std::vector<double> DV;
typedef std::vector<DV> Chans;

// emits blocks of any length and remembers them
struct Src : SourceModule {
    vh::Rng* r = nullptr;
    int lo = 0, hi = 0;
    Chans sent;
    int last = 0;
    double amp = 1;         // how loud; the tolerances are relative to it
    void process() override {
        reserve();
        const int ch = get_info()->channels;
        last = lo < 0 ? get_info()->out_buffer : r->i(lo, hi);
        buff = AudioBuffer(last, ch, get_info()->sample_rate);
        sent.resize(ch);
        std::vector<char> quiet(ch, 0);         // channels that are silent in this block
        if (r->chance(.15)) for (auto& q : quiet) q = r->chance(.6);
        for (int f = 0; f < last; ++f)
            for (int k = 0; k < ch; ++k) {
                const double v = amp * (quiet[k] ? 0 : r->chance(.1) ? r->i(-100, 100) : r->real(-1, 1));
                buff.at(k, f) = v;
                sent[k].push_back(v);
            }
    }
};
struct Snk : SinkModule<> {
    Chans got;
    int frames = 0, ch = 0;
    double rate = 0;
    void process() override {
        ch = static_cast<int>(buff.channels());
        frames = ch ? static_cast<int>(buff.channel_capacity()) : 0;
        rate = buff.get_samplerate();
        got.resize(ch);
        for (int k = 0; k < ch; ++k) for (int f = 0; f < frames; ++f) got[k].push_back(buff.at(k, f));
    }
};
struct Fir : BaseConvFilter<> {
    DV h;
    int made = 0;
    void generate_kernel() override { ++made; put(); }
    void put() {
        auto b = std::make_unique<AudioBuffer>(static_cast<int>(h.size()), 1);
        std::copy(h.begin(), h.end(), b->ibegin());
        set_kernel(std::move(b));
    }
};
static double loudness(Case& c) { return c.r.chance(.6) ? 1.0 : c.r.of<double>({1e-5, 1e-8, 1e-12, 1e-18, 32768.0, 1e9}); }
static DV kernel(Case& c, int n) {
    DV h(n);
    for (auto& v : h) { v = c.r.chance(.2) ? 0 : c.r.real(-1, 1); c.fold(v); }
    return h;
}
// add what a block starting at `at` contributes
static void add(DV& out, const DV& x, size_t at, size_t n, const DV& h) {
    if (out.size() < at + n + h.size()) out.resize(at + n + h.size(), 0);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < h.size(); ++j) out[at + i + j] += x[at + i] * h[j];
}
static void conf(ChainInfo* ci, int bs, int ch, double rate) { ci->buffer_size = bs; ci->channels = ch; ci->sample_rate = rate; }

VSCENARIO(stream, 3000, 30000) {
    const int bs = c.r.sz(1, 60), ch = c.r.chn(1, 4), hn = c.r.chance(.01) ? c.r.i(121, 3000) : c.r.i(1, c.r.chance(.5) ? 120 : 6);
    const double rate = c.r.of<double>({8000, 22050, 44100, 48000});
    Src src;
    src.r = &c.r;
    src.lo = c.r.chance(.4) ? -1 : c.r.i(0, 5);
    src.hi = 5 + c.r.i(0, 60);
    src.amp = loudness(c);
    Fir f;
    f.h = kernel(c, hn);
    Snk s;
    s.link(&f)->link(&src);
    conf(s.get_chain_info(), bs, ch, rate);
    s.meta_info_sync();
    const int sessions = c.r.i(1, 3);
    c.d("stream bs=%d ch=%d kernel=%d blocks=%d..%d sessions=%d ", bs, ch, hn, src.lo, src.hi, sessions);
    c.nontrivial = hn > 1 && ch > 1;
    for (int ses = 0; ses < sessions; ++ses) {
        src.sent.assign(ch, {});
        s.got.assign(ch, {});
        const int made = f.made;
        s.meta_start();
        VCHECK(f.made == made + 1, "generate", "starting made the kernel %d times", f.made - made);
        Chans want(ch);
        size_t at = 0;
        double sum = 1;
        for (double v : f.h) sum += std::fabs(v);
        for (int r = c.r.i(1, 12); r > 0; --r) {
            if (c.r.chance(.1)) {               // another kernel from the next block on
                f.h = kernel(c, c.r.i(1, 60));
                f.put();
                for (double v : f.h) sum += std::fabs(v);
                c.ev("kernel_changes");
            }
            s.meta_process();
            VCHECK(s.ch == ch && s.frames == src.last, "shape", "%d frames of %d channels for %d of %d", s.frames, s.ch, src.last, ch);
            VCHECK(src.last == 0 || s.rate == rate, "rate", "sample rate %g, expected %g", s.rate, rate);
            for (int k = 0; k < ch; ++k) {
                add(want[k], src.sent[k], at, src.last, f.h);
                for (int i = 0; i < src.last; ++i)
                    VCHECK(vh::close(s.got[k][at + i], want[k][at + i], 1e-10 * sum * 100 * src.amp), "stream",
                           "session %d channel %d frame %zu is %.12g, the convolution of the stream gives %.12g (block of %d from frame %zu, kernel of %zu)", ses, k, at + i,
                           s.got[k][at + i], want[k][at + i], src.last, at, f.h.size());
                c.ev("samples_compared", src.last);
            }
            at += src.last;
        }
        if (c.r.chance(.5)) s.meta_stop();
        c.ev("sessions");
    }
}

// a filter without kernel passes the audio, another channel count is no danger
VSCENARIO(bare, 800, 8000) {
    const int bs = c.r.sz(1, 30);
    int ch = c.r.chn(1, 4);
    Src src;
    src.r = &c.r;
    src.lo = -1;
    const bool none = c.r.chance(.5);
    BaseConvFilter<> bare;
    Fir fir;
    fir.h = kernel(c, c.r.i(1, 20));
    BaseModule* m = none ? static_cast<BaseModule*>(&bare) : &fir;
    Snk s;
    s.link(m)->link(&src);
    conf(s.get_chain_info(), bs, ch, 8000);
    s.meta_info_sync();
    s.meta_start();
    c.d("bare none=%d ", none);
    c.nontrivial = true;
    for (int r = c.r.i(2, 6); r > 0; --r) {
        if (c.r.chance(.5)) {
            ch = c.r.chn(1, 4);
            s.get_chain_info()->channels = ch;
            s.meta_info_sync();
        }
        src.sent.clear();
        s.got.clear();
        s.meta_process();
        VCHECK(s.ch == ch && s.frames == bs, "shape", "%d frames of %d channels for %d of %d", s.frames, s.ch, bs, ch);
        if (none) VCHECK(s.got == src.sent, "pass", "a filter without kernel changed the audio");
        else {
            src.sent.clear();
            s.got.clear();
            s.meta_start();
            s.meta_process();
            for (int k = 0; k < ch; ++k) {
                DV want;
                add(want, src.sent[k], 0, bs, fir.h);
                for (int i = 0; i < bs; ++i) VCHECK(vh::close(s.got[k][i], want[i], 1e-8), "rechannel", "channel %d frame %d is %g, expected %g", k, i, s.got[k][i], want[i]);
            }
        }
        c.ev("samples_compared", static_cast<uint64_t>(bs) * ch);
    }
}

static double blackman(int i, int n) { return n == 1 ? 1 : 0.42 - 0.5 * std::cos(2 * M_PI * i / (n - 1)) + 0.08 * std::cos(4 * M_PI * i / (n - 1)); }
static DV lowpass(double fr, int n, bool window = true) {
    DV h(n);
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        const double t = i - (n - 1) / 2.0;
        h[i] = (fr == 0 || t == 0 ? 1.0 : std::sin(2 * M_PI * fr * t) / (2 * M_PI * fr * t)) * (window ? blackman(i, n) : 1);
        sum += h[i];
    }
    for (auto& v : h) v /= sum;
    return h;
}
static double gain(const DV& h, double w) {
    std::complex<double> s = 0;
    for (size_t i = 0; i < h.size(); ++i) s += h[i] * std::polar(1.0, -w * static_cast<double>(i));
    return std::abs(s);
}

VSCENARIO(sinc_module, 2500, 25000) {
    const int type = c.r.i(0, 3);
    const FT ft = type == 0 ? FT::LowPass : type == 1 ? FT::HighPass : type == 2 ? FT::BandPass : FT::BandReject;
    const double rate = c.r.of<double>({8000, 22050, 44100, 48000, 96000});
    const bool default_size = c.r.chance(.2);
    const int n = default_size ? 51 : c.r.chance(.01) ? 2 * c.r.i(61, 700) + 1 : type == 0 ? c.r.i(3, 120) : 2 * c.r.i(2, 60) + 1;
    double lo = c.r.real(0.02, 0.4), hi = lo + c.r.real(0.02, 0.48 - lo);
    SincFilter<> f;
    VCHECK(f.get_type() == FT::LowPass && f.get_start_freq() == 0 && f.get_stop_freq() == 0, "defaults", "a new filter is not a low pass of frequency zero");
    if (type || c.r.chance(.5)) f.set_type(ft);
    f.set_start_freq(lo * rate);
    if (type > 1 || c.r.chance(.5)) f.set_stop_freq(hi * rate);
    if (!default_size) f.set_size(n);
    VCHECK(f.get_size() == n && f.get_type() == ft && f.get_start_freq() == lo * rate, "settings", "size %d type %d start %g", f.get_size(), static_cast<int>(f.get_type()), f.get_start_freq());
    const int bs = c.r.sz(1, 100), ch = c.r.chn(1, 3);
    c.d("sinc_module type=%d n=%d lo=%g hi=%g rate=%g bs=%d ch=%d ", type, n, lo, hi, rate, bs, ch);
    c.nontrivial = true;
    Src src;
    src.r = &c.r;
    src.lo = -1;
    src.amp = loudness(c);
    Snk s;
    s.link(&f)->link(&src);
    if (c.r.chance(.4)) {       // it has played something else before
        const int what = c.r.i(0, 3);
        conf(s.get_chain_info(), c.r.sz(1, 100), ch, what == 0 || c.r.chance(.3) ? rate * c.r.real(0.99, 3) : rate);
        if (what == 1) { f.set_start_freq(lo * rate * .7); if (c.r.chance(.5)) f.set_stop_freq(hi * rate * .9); }
        if (what == 2) f.set_size(f.get_size() + 2);
        if (what == 3) f.set_type(type == 1 ? FT::LowPass : FT::HighPass);
        const double stop = f.get_stop_freq();
        s.meta_info_sync();
        s.meta_start();
        for (int r = c.r.i(0, 3); r > 0; --r) s.meta_process();
        if (c.r.chance(.5)) s.meta_stop();
        if (what == 1) { f.set_start_freq(lo * rate); if (stop != 0) f.set_stop_freq(hi * rate); }
        if (what == 2) f.set_size(n);
        if (what == 3) f.set_type(ft);
        src.sent.clear();
        s.got.clear();
        c.ev("sessions");
    }
    conf(s.get_chain_info(), bs, ch, rate);
    s.meta_info_sync();
    s.meta_start();
    DV h = lowpass(lo, n);
    if (type == 1) { for (auto& v : h) v = -v; h[n / 2] += 1; }
    if (type > 1) {
        const DV h2 = lowpass(hi, n);
        for (int i = 0; i < n; ++i) h[i] -= h2[i];
        h[n / 2] += 1;                                                   // band reject
        if (type == 2) { for (auto& v : h) v = -v; h[n / 2] += 1; }
    }
    const int rounds = std::max(2, (2 * n) / bs + 1);
    for (int r = 0; r < rounds; ++r) s.meta_process();
    for (int k = 0; k < ch; ++k) {
        DV want;
        add(want, src.sent[k], 0, src.sent[k].size(), h);
        for (size_t i = 0; i < s.got[k].size(); ++i)
            VCHECK(vh::close(s.got[k][i], want[i], 1e-6 * src.amp), "sinc_stream", "type %d, %d taps, %g..%g of the rate: channel %d frame %zu is %.10g, expected %.10g", type, n, lo, hi, k, i,
                   s.got[k][i], want[i]);
        c.ev("samples_compared", s.got[k].size());
    }
    // the response of what is really in the module
    BufferPointer kp = f.get_kernel();
    VCHECK(kp != nullptr && static_cast<int>(kp->size()) == n, "kernel_size", "kernel of %zu values, asked for %d", kp ? static_cast<size_t>(kp->size()) : 0, n);
    const DV k(kp->ibegin(), kp->iend());
    const double width = 4.0 / n;
    for (int i = 0; i <= 32; ++i) {
        const double fr = i / 64.0, g = gain(k, 2 * M_PI * fr);
        int want = -1;      // 1 pass, 0 stop, -1 in transition
        const int below_lo = fr <= lo - width ? 1 : fr >= lo + width ? 0 : -1, below_hi = fr <= hi - width ? 1 : fr >= hi + width ? 0 : -1;
        if (lo < width || hi > 0.5 - width / 2) continue;
        if (type == 0) want = below_lo;
        if (type == 1) want = below_lo < 0 ? -1 : 1 - below_lo;
        if (type > 1 && hi - lo > 2 * width && below_lo >= 0 && below_hi >= 0) want = (below_lo == 0 && below_hi == 1) == (type == 2);
        if (want < 0) continue;
        VCHECK(std::fabs(g - want) < 0.03, "response", "type %d with %d taps, %g..%g of the rate: gain %g at %g", type, n, lo, hi, g, fr);
        c.ev("gains_checked");
    }
}

VSCENARIO(kernels, 3000, 30000) {
    const int n = c.r.chance(.1) ? c.r.i(1, 3) : c.r.chance(.03) ? c.r.i(201, 3000) : c.r.i(3, 200);
    const double fr = c.r.chance(.1) ? 0 : c.r.real(0.001, 0.5);
    const bool win = c.r.chance(.6) || n < 3;
    c.d("kernels n=%d f=%g window=%d ", n, fr, win);
    c.nontrivial = n > 2;
    DV h(n, 55);
    if (n == 2) {       // the window is zero at both ends: nothing to normalise
        DV hr(2, 55);
        dsp::kern::sinc_kernel(fr, 2, hr.begin(), dsp::win::window_rectangle);
        VCHECK(vh::close(hr[0], .5, 1e-12) && vh::close(hr[1], .5, 1e-12), "sinc_kernel", "two values are %g %g", hr[0], hr[1]);
        return;
    }
    if (win) dsp::kern::sinc_kernel(fr, n, h.begin());
    else dsp::kern::sinc_kernel(fr, n, h.begin(), dsp::win::window_rectangle);
    const DV w = lowpass(fr, n, win);
    double sum = 0;
    for (int i = 0; i < n; ++i) {
        VCHECK(vh::close(h[i], w[i], 1e-9), "sinc_kernel", "%d values of frequency %g: value %d is %.12g, expected %.12g", n, fr, i, h[i], w[i]);
        VCHECK(vh::close(h[i], h[n - 1 - i], 1e-9), "symmetry", "%d values of frequency %g: value %d is %.12g, its mirror %.12g", n, fr, i, h[i], h[n - 1 - i]);
        sum += h[i];
    }
    VCHECK(vh::close(sum, 1, 1e-9), "sum", "%d values of frequency %g: the sum is %g", n, fr, sum);
    c.ev("kernels");
    // inversion: the response is one minus the response
    if (n % 2) {
        DV v(h);
        dsp::kern::spectral_inversion(v.begin(), n);
        for (int i = 0; i < n; ++i) VCHECK(vh::close(v[i], (i == n / 2) - h[i], 1e-12), "inversion", "value %d of %d is %g", i, n, v[i]);
        dsp::kern::spectral_inversion(v.begin(), n);
        for (int i = 0; i < n; ++i) VCHECK(vh::close(v[i], h[i], 1e-12), "inversion_twice", "value %d of %d is %g", i, n, v[i]);
    }
    DV v(n);
    for (auto& x : v) { x = c.r.real(-1, 1); }
    const DV o(v);
    dsp::kern::spectral_reversal(v.begin(), n);
    for (int i = 0; i < 5; ++i) {
        const double q = c.r.real(0, M_PI);
        VCHECK(vh::close(gain(v, q), gain(o, M_PI - q), 1e-8), "reversal", "%d values: gain %g at %g, was %g at the mirrored frequency", n, gain(v, q), q, gain(o, M_PI - q));
    }
    dsp::kern::spectral_reversal(v.begin(), n);
    for (int i = 0; i < n; ++i) VCHECK(vh::close(v[i], o[i], 1e-12), "reversal_twice", "value %d of %d is %g, was %g", i, n, v[i], o[i]);
    c.ev("reversals");
}

VSCENARIO(windows, 2000, 20000) {
    const int n = c.idx < 60 ? static_cast<int>(c.idx) + 1 : c.r.i(1, 3000);
    const double p = c.r.real(0, 1);
    c.d("windows n=%d p=%g ", n, p);
    c.nontrivial = n > 2;
    for (int t = 0; t < 30; ++t) {
        const int i = t == 0 ? 0 : t == 1 ? n - 1 : t == 2 ? n / 2 : c.r.i(0, n - 1);
        const double c1 = n == 1 ? -1 : std::cos(2 * M_PI * i / (n - 1)), c2 = n == 1 ? 1 : std::cos(4 * M_PI * i / (n - 1));
        struct { const char* name; double got, mirror, want; } w[] = {
            {"rectangle", dsp::win::window_rectangle(i, n), dsp::win::window_rectangle(n - 1 - i, n), 1},
            {"hann", dsp::win::window_hann(i, n), dsp::win::window_hann(n - 1 - i, n), .5 - .5 * c1},
            {"hann(a0)", dsp::win::window_hann(i, n, p), dsp::win::window_hann(n - 1 - i, n, p), p - (1 - p) * c1},
            {"hamming", dsp::win::window_hamming(i, n), dsp::win::window_hamming(n - 1 - i, n), .54 - .46 * c1},
            {"hamming(a0)", dsp::win::window_hamming(i, n, p), dsp::win::window_hamming(n - 1 - i, n, p), p - (1 - p) * c1},
            {"blackman", dsp::win::window_blackman(i, n), dsp::win::window_blackman(n - 1 - i, n), .42 - .5 * c1 + .08 * c2},
            {"blackmanc(alpha)", dsp::win::window_blackmanc(i, n, p), dsp::win::window_blackmanc(n - 1 - i, n, p), (1 - p) / 2 - .5 * c1 + p / 2 * c2},
            {"blackmanc", dsp::win::window_blackmanc(i, n), dsp::win::window_blackmanc(n - 1 - i, n), .42 - .5 * c1 + .08 * c2},
        };
        for (auto& x : w) {
            VCHECK(vh::close(x.got, x.want, 1e-9), "window", "%s window of %d: value %d is %.12g, expected %.12g", x.name, n, i, x.got, x.want);
            VCHECK(vh::close(x.got, x.mirror, 1e-9), "window_symmetry", "%s window of %d: value %d is %.12g, its mirror %.12g", x.name, n, i, x.got, x.mirror);
        }
        c.ev("window_values", 8);
    }
}
int main(int a, char** v) { return vh::main_impl(a, v); }
