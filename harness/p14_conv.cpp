// P14: every convolution routine computes sum_j kernel[j] * input[i-j], for every length, type and iterator.
#include "audio_buffer.hpp"
#include "dsp/conv.hpp"
#include "vh.hpp"
#include <deque>
#include <list>
#include <complex>

using vh::Case;
typedef std::vector<long double> LV;

static LV direct(const LV& a, const LV& b) {
    if (a.empty() || b.empty()) return {};
    LV o(a.size() + b.size() - 1, 0.0L);
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j) o[i + j] += a[i] * b[j];
    return o;
}
static double scale(const LV& a, const LV& b) {
    long double sa = 0, mb = 0;
    for (auto v : a) sa += fabsl(v);
    for (auto v : b) mb = std::max(mb, fabsl(v));
    return static_cast<double>(sa * mb);
}
static std::vector<double> signal(Case& c, int n) {
    std::vector<double> v(n);
    const int kind = c.r.i(0, 5);
    // quiet and loud signals too: every tolerance is relative to the signals
    const double amp = c.r.chance(.6) ? 1.0 : c.r.of<double>({1e-5, 1e-8, 1e-12, 1e-20, 32768.0, 1e9});
    for (int i = 0; i < n; ++i) {
        switch (kind) {
            case 0: v[i] = c.r.real(-1, 1); break;
            case 1: v[i] = i == n / 2; break;
            case 2: v[i] = c.r.i(-9, 9); break;
            case 3: v[i] = c.r.chance(.1) ? c.r.real(-1e6, 1e6) : 0; break;
            case 4: v[i] = std::pow(-0.97, i); break;
            default: v[i] = 1; break;
        }
        v[i] *= amp;
        c.fold(v[i]);
    }
    return v;
}
template <class V> static LV wide(const V& v) { return LV(v.begin(), v.end()); }
template <class V>
static void same(Case& c, const V& got, const LV& want, double tol, const char* what) {
    VCHECK(got.size() == want.size(), what, "%s: %zu values, expected %zu", what, got.size(), want.size());
    size_t i = 0;
    for (auto g : got) {
        VCHECK(std::fabs(static_cast<double>(static_cast<long double>(g) - want[i])) <= tol, what, "%s: value %zu is %.17g, expected %.17Lg (tolerance %g)",
               what, i, static_cast<double>(g), want[i], tol);
        ++i;
    }
    c.ev("values_compared", got.size());
}

VSCENARIO(routines, 6000, 60000) {
    const int hi = c.idx % 50 == 0 ? 700 : (c.r.chance(.3) ? 4 : 70);
    const int n = c.r.i(0, hi), k = c.r.i(0, c.r.chance(.3) ? 3 : hi);
    const std::vector<double> a = signal(c, n), b = signal(c, k);
    const LV la = wide(a), lb = wide(b), want = direct(la, lb);
    c.d("routines input %d kernel %d ", n, k);
    c.nontrivial = n > 1 && k > 1;
    const int len = dsp::conv::length_conv(n, k);
    VCHECK(len == static_cast<int>(want.size()), "length", "length_conv(%d,%d)=%d, the convolution has %zu values", n, k, len, want.size());
    VCHECK(dsp::conv::length_conv(static_cast<std::size_t>(n), static_cast<std::size_t>(k)) == len, "length", "length_conv differs for sizes as std::size_t");
    const double tol = scale(la, lb) * 1e-13, ftol = scale(la, lb) * 1e-11;
    {
        std::vector<double> o(len, 0.0);
        dsp::conv::input_conv(a.begin(), static_cast<std::size_t>(n), b.begin(), static_cast<std::size_t>(k), o.begin());
        same(c, o, want, tol, "input_conv");
    }
    {
        std::vector<double> o(len, 0.0);
        dsp::conv::output_conv(a.begin(), static_cast<std::size_t>(n), b.begin(), static_cast<std::size_t>(k), o.begin());
        same(c, o, want, tol, "output_conv");
    }
    {   // by iterators, from containers that are not contiguous
        std::deque<double> da(a.begin(), a.end()), o(len, 0.0);
        dsp::conv::input_conv(da.cbegin(), da.cend(), b.data(), b.data() + k, o.begin());
        same(c, o, want, tol, "input_conv_iterators");
        std::deque<double> o2(len, 0.0);
        dsp::conv::output_conv(da.cbegin(), da.cend(), b.data(), b.data() + k, o2.begin());
        same(c, o2, want, tol, "output_conv_iterators");
    }
    if (n > 0 && k > 0) {   // through the iterators of buffers nobody may change
        const AudioBuffer ba(a, 1), bb(b, 1);
        std::vector<double> o(len, 0.0), o2(len, 0.0), o3(len, 7.0);
        dsp::conv::input_conv(ba.icbegin(), static_cast<std::size_t>(n), bb.icbegin(), static_cast<std::size_t>(k), o.begin());
        same(c, o, want, tol, "input_conv_buffer");
        dsp::conv::output_conv(ba.scbegin(), ba.scend(), bb.scbegin(), bb.scend(), o2.begin());
        same(c, o2, want, tol, "output_conv_buffer");
        dsp::conv::conv_fft(ba.scbegin(), n, bb.icbegin(), k, o3.begin());
        same(c, o3, want, ftol, "conv_fft_buffer");
    }
    if (n > 0 && k > 0) {
        std::list<double> da(a.begin(), a.end());
        std::vector<double> o(len, 99.0);
        dsp::conv::conv_fft(da.cbegin(), n, b.begin(), k, o.begin());
        same(c, o, want, ftol, "conv_fft");
        std::list<double> ol(len, -5.0);
        dsp::conv::conv_fft(b.begin(), k, a.begin(), n, ol.begin());
        same(c, ol, want, ftol, "conv_fft_swapped");
    } else {
        std::vector<double> o(1, 99.0);
        dsp::conv::conv_fft(a.begin(), n, b.begin(), k, o.begin());
        VCHECK(o[0] == 99.0, "conv_fft", "conv_fft wrote a value though a signal is empty");
    }
    c.ev("convolutions", 6);
}

VSCENARIO(types, 2000, 20000) {
    const int n = c.r.sz(1, 40), k = c.r.sz(1, 40);
    c.d("types input %d kernel %d ", n, k);
    c.nontrivial = n > 1 && k > 1;
    {   // integers are exact
        std::vector<int> a(n), b(k);
        for (auto& v : a) { v = c.r.i(-1000, 1000); c.fold(static_cast<uint64_t>(v)); }
        for (auto& v : b) { v = c.r.i(-1000, 1000); c.fold(static_cast<uint64_t>(v)); }
        std::vector<int64_t> o(n + k - 1), o2(n + k - 1);
        const LV want = direct(wide(a), wide(b));
        dsp::conv::input_conv(a.begin(), a.end(), b.begin(), b.end(), o.begin());
        dsp::conv::output_conv(a.begin(), a.end(), b.begin(), b.end(), o2.begin());
        same(c, o, want, 0, "input_conv_int");
        same(c, o2, want, 0, "output_conv_int");
        std::vector<float> fa(a.begin(), a.end()), fo(n + k - 1);
        dsp::conv::conv_fft(fa.begin(), n, b.begin(), k, fo.begin());
        same(c, fo, want, scale(wide(a), wide(b)) * 1e-6, "conv_fft_float");
    }
    {   // complex values; real and imaginary part against four real convolutions
        typedef std::complex<double> C;
        std::vector<C> a(n), b(k), o(n + k - 1), o2(n + k - 1);
        LV ar, ai, br, bi;
        for (auto& v : a) { v = C(c.r.real(-1, 1), c.r.real(-1, 1)); ar.push_back(v.real()); ai.push_back(v.imag()); }
        for (auto& v : b) { v = C(c.r.real(-1, 1), c.r.real(-1, 1)); br.push_back(v.real()); bi.push_back(v.imag()); }
        dsp::conv::input_conv(a.begin(), a.end(), b.begin(), b.end(), o.begin());
        dsp::conv::output_conv(a.begin(), a.end(), b.begin(), b.end(), o2.begin());
        const LV rr = direct(ar, br), ii = direct(ai, bi), ri = direct(ar, bi), ir = direct(ai, br);
        for (size_t x = 0; x < o.size(); ++x) {
            const C w(static_cast<double>(rr[x] - ii[x]), static_cast<double>(ri[x] + ir[x]));
            VCHECK(std::abs(o[x] - w) < 1e-11, "input_conv_complex", "value %zu is %g%+gi, expected %g%+gi", x, o[x].real(), o[x].imag(), w.real(), w.imag());
            VCHECK(std::abs(o2[x] - w) < 1e-11, "output_conv_complex", "value %zu is %g%+gi, expected %g%+gi", x, o2[x].real(), o2[x].imag(), w.real(), w.imag());
        }
        c.ev("values_compared", 2 * o.size());
    }
    {   // reverse iterators: the reversed signals give the reversed result
        std::vector<double> a = signal(c, n), b = signal(c, k), o(n + k - 1, 0.0);
        dsp::conv::input_conv(a.rbegin(), a.rend(), b.rbegin(), b.rend(), o.rbegin());
        const LV want = direct(wide(a), wide(b));
        same(c, o, want, scale(wide(a), wide(b)) * 1e-13, "input_conv_reverse");
    }
    c.ev("convolutions", 6);
}

VSCENARIO(buffers, 5000, 50000) {
    const int ca = c.r.i(1, 4), cb = c.r.chance(.4) ? 1 : c.r.i(1, 4);
    const int fa = c.r.sz(0, 40), fb = c.r.sz(0, 12);
    const double rate = c.r.of<double>({8000, 22050, 44100, 48000}), krate = c.r.of<double>({8000, 44100, 96000});
    c.d("buffers %dx%d at %g * %dx%d at %g ", fa, ca, rate, fb, cb, krate);
    c.nontrivial = fa > 1 && fb > 1;
    std::vector<LV> la(ca), lb(cb);
    const double amp = c.r.chance(.7) ? 1.0 : c.r.of<double>({1e-5, 1e-9, 1e-15, 32768.0});
    auto mk = [&](int frames, int chans, double r, std::vector<LV>& l) {
        BufferPointer p = std::make_unique<AudioBuffer>(frames, chans, r);
        for (int f = 0; f < frames; ++f)
            for (int ch = 0; ch < chans; ++ch) {
                const double v = amp * c.r.real(-1, 1);
                c.fold(v);
                l[ch].push_back(v);
                p->at(ch, f) = v;
            }
        return p;
    };
    const bool in = c.r.chance(.5);
    BufferPointer a = mk(fa, ca, rate, la), b = mk(fb, cb, krate, lb);
    BufferPointer o = in ? dsp::conv::input_conv(std::move(a), std::move(b)) : dsp::conv::output_conv(std::move(a), std::move(b));
    const int chans = std::max(ca, cb);
    const int len = fa && fb ? fa + fb - 1 : 0;
    VCHECK(o != nullptr, "buffer_null", "no buffer returned");
    VCHECK(static_cast<int>(o->channels()) == chans, "buffer_channels", "%zu channels, expected %d", static_cast<size_t>(o->channels()), chans);
    VCHECK(static_cast<int>(o->channel_capacity()) == len, "buffer_length", "%zu frames, expected %d", static_cast<size_t>(o->channel_capacity()), len);
    VCHECK(o->get_samplerate() == rate, "buffer_rate", "sample rate %g, the input has %g", o->get_samplerate(), rate);
    for (int ch = 0; ch < chans; ++ch) {
        const LV want = direct(la[ch % ca], lb[ch % cb]);
        std::vector<double> got;
        for (int f = 0; f < len; ++f) got.push_back(o->at(ch, f));
        same(c, got, want, 1e-11 * amp * amp, "buffer_values");
    }
    c.ev("convolutions");
    c.ev("buffer_convolutions");
}

// long signals: linear in each argument, a delayed pulse delays, the sums multiply
VSCENARIO(large, 40, 400) {
    const bool huge = c.idx % 40 == 7;      // ten seconds of audio
    const int n = huge ? c.r.i(60000, 200000) : c.r.i(1000, c.thorough ? 40000 : 6000), k = huge ? c.r.i(1, 60000) : c.r.i(1, c.thorough ? 9000 : 3000);
    const std::vector<double> a = signal(c, n);
    c.d("large input %d kernel %d ", n, k);
    c.nontrivial = true;
    std::vector<double> b(k, 0.0);
    const int at1 = c.r.i(0, k - 1), at2 = c.r.i(0, k - 1);
    const double g = c.r.real(-2, 2);
    b[at1] += 1;
    b[at2] += g;
    std::vector<double> o(n + k - 1, -7.0);
    dsp::conv::conv_fft(a.begin(), n, b.begin(), k, o.begin());
    double m = 0;
    for (double v : a) m = std::max(m, std::fabs(v));
    for (int i = 0; i < n + k - 1; ++i) {
        const double w = (i >= at1 && i - at1 < n ? a[i - at1] : 0) + g * (i >= at2 && i - at2 < n ? a[i - at2] : 0);
        VCHECK(std::fabs(o[i] - w) <= 1e-9 * m * (1 + std::fabs(g)), "conv_fft_large", "value %d is %.12g, two delayed copies give %.12g", i, o[i], w);
    }
    c.ev("values_compared", o.size());
    c.ev("convolutions");
}
int main(int a, char** v) { return vh::main_impl(a, v); }
