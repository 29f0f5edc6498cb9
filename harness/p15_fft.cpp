// P15: the transforms compute the discrete Fourier transform, and the inverses undo it.
#include "dsp/ft.hpp"
#include "dsp/util.hpp"
#include "vh.hpp"
#include <complex>
#include <deque>

using vh::Case;
typedef std::complex<double> C;
typedef std::complex<long double> CL;
static const long double TAU = 2 * 3.14159265358979323846264338327950288L;

static CL root(long k, long n, int sign) {      // e^(sign*2*pi*i*k/n), reduced first
    k %= n;
    return CL(cosl(TAU * k / n), sign * sinl(TAU * k / n));
}
template <class V> static CL bin(const V& x, long k, int sign) {
    CL s = 0;
    const long n = static_cast<long>(x.size());
    for (long i = 0; i < n; ++i) s += CL(x[i]) * root((k * i) % n, n, sign);
    return s;
}
// how loud the signals of this case are; every tolerance is relative to it
static double AMP = 1;
static double loudness(Case& c) { return c.r.chance(.6) ? 1.0 : c.r.of<double>({1e-5, 1e-8, 1e-12, 1e-18, 32768.0, 1e9}); }
static std::vector<C> csignal(Case& c, int n) {
    std::vector<C> v(n);
    const int kind = c.r.i(0, 3);
    for (int i = 0; i < n; ++i) {
        switch (kind) {
            case 0: v[i] = C(c.r.real(-1, 1), c.r.real(-1, 1)); break;
            case 1: v[i] = i == n / 3 ? C(0, 1) : 0; break;
            case 2: v[i] = C(std::cos(0.7 * i), std::sin(1.3 * i)); break;
            default: v[i] = C(c.r.i(-3, 3), c.r.i(-3, 3)); break;
        }
        v[i] *= AMP;
        c.fold(v[i].real());
        c.fold(v[i].imag());
    }
    return v;
}
static std::vector<double> rsignal(Case& c, int n) {
    std::vector<double> v(n);
    const int kind = c.r.i(0, 3);
    for (int i = 0; i < n; ++i) {
        switch (kind) {
            case 0: v[i] = c.r.real(-1, 1); break;
            case 1: v[i] = i == n / 3; break;
            case 2: v[i] = std::cos(0.7 * i) + 0.5; break;
            default: v[i] = c.r.i(-3, 3); break;
        }
        v[i] *= AMP;
        c.fold(v[i]);
    }
    return v;
}
// the bins to look at: all for small sizes, some otherwise
static std::vector<int> bins(Case& c, int n, int count) {
    std::vector<int> b;
    if (n <= 64) for (int i = 0; i < n; ++i) b.push_back(i);
    else {
        for (int i : {0, 1, n / 2, n / 4, n - 1}) b.push_back(i);
        for (int i = 0; i < count; ++i) b.push_back(c.r.i(0, n - 1));
    }
    return b;
}
// mostly small transforms, some of a second of audio and a few of ten seconds
static int log_size(Case& c) {
    AMP = loudness(c);
    if (c.idx % 1500 == 7) return c.r.i(12, 18);
    return c.r.i(0, c.idx % 40 == 0 ? (c.thorough ? 14 : 11) : 7);
}
#define CLOSE(got, want, tol, key, ...)                                                                              \
    do {                                                                                                             \
        const CL g_ = CL(got), w_ = CL(want);                                                                        \
        if (!(std::abs(g_ - w_) <= (tol))) {                                                                         \
            char b_[300];                                                                                            \
            snprintf(b_, sizeof b_, __VA_ARGS__);                                                                    \
            ::vh::fail(key, "%s: got %.12Lg%+.12Lgi, expected %.12Lg%+.12Lgi", b_, g_.real(), g_.imag(), w_.real(), w_.imag()); \
        }                                                                                                            \
    } while (0)

VSCENARIO(complex_out_of_place, 3000, 30000) {
    const int logn = log_size(c), n = 1 << logn;
    const std::vector<C> x = csignal(c, n);
    const int sign = c.r.chance(.5) ? -1 : 1;
    c.d("complex_out_of_place n=%d sign=%d ", n, sign);
    c.nontrivial = n > 1;
    const double tol = 1e-13 * (n + 4) * 4 * AMP;
    std::vector<C> o(n, C(9, 9));
    std::deque<C> dx(x.begin(), x.end());
    if (c.r.chance(.5)) dsp::ft::fft_c_radix2(x.begin(), n, o.begin(), 1, sign);
    else dsp::ft::fft_c_radix2(dx.begin(), n, o.data(), 1, sign);
    for (int k : bins(c, n, 12)) CLOSE(o[k], bin(x, k, sign), tol, "fft", "size %d sign %d bin %d", n, sign, k);
    c.ev("bins_checked", std::min(n, 64));
    long double e1 = 0, e2 = 0;
    for (auto v : x) e1 += std::norm(CL(v));
    for (auto v : o) e2 += std::norm(CL(v));
    VCHECK(fabsl(e2 / n - e1) <= 1e-11 * (AMP * AMP + e1), "parseval", "energy %Lg in time, %Lg in frequency, size %d", e1, e2 / n, n);
    // and back
    std::vector<C> y(n, C(-3, 3));
    if (sign == -1) {
        dsp::ft::ifft_c_radix2(o.begin(), n, y.begin());
        for (int i = 0; i < n; ++i) CLOSE(y[i], x[i], tol, "ifft", "size %d value %d", n, i);
        std::vector<C> back(n, C(1, 1));
        dsp::ft::ifft_c_radix2(x.begin(), n, back.begin());
        for (int k : bins(c, n, 12)) CLOSE(CL(back[k]) * static_cast<long double>(n), bin(x, k, 1), tol, "ifft", "size %d value %d from a spectrum", n, k);
    }
    c.ev("transforms", 3);
    // every second, third... value of an interleaved input
    const int stride = c.r.i(2, 4);
    std::vector<C> wide(static_cast<size_t>(n) * stride, C(1e3 * AMP, -1e3 * AMP));
    const int off = c.r.i(0, stride - 1);
    for (int i = 0; i < n; ++i) wide[static_cast<size_t>(i) * stride + off] = x[i];
    std::vector<C> so(n), si(n);
    dsp::ft::fft_c_radix2(wide.begin() + off, n, so.begin(), stride, sign);
    for (int k = 0; k < n; ++k) CLOSE(so[k], o[k], tol, "stride", "size %d stride %d bin %d", n, stride, k);
    if (sign == 1) {
        dsp::ft::ifft_c_radix2(wide.begin() + off, n, si.begin(), stride);
        for (int k = 0; k < n; ++k) CLOSE(CL(si[k]) * static_cast<long double>(n), o[k], tol, "stride", "size %d stride %d inverse value %d", n, stride, k);
    }
    c.ev("strided");
}

VSCENARIO(complex_in_place, 3000, 30000) {
    const int logn = log_size(c), n = 1 << logn;
    const std::vector<C> x = csignal(c, n);
    const int sign = c.r.chance(.5) ? -1 : 1;
    c.d("complex_in_place n=%d sign=%d ", n, sign);
    c.nontrivial = n > 1;
    const double tol = 1e-13 * (n + 4) * 4 * AMP;
    std::vector<C> o(x);
    dsp::ft::fft_c_radix2(o.begin(), n, sign);
    const std::vector<C> unsorted(o);
    dsp::util::bit_reverse(n, o.begin());
    for (int k : bins(c, n, 12)) CLOSE(o[k], bin(x, k, sign), tol, "inplace", "size %d sign %d bin %d", n, sign, k);
    c.ev("bins_checked", std::min(n, 64));
    for (int i = 0; i < n; ++i) {       // sorting exchanges each position with its reverse
        int r = 0;
        for (int b = 0; b < logn; ++b) if (i >> b & 1) r |= 1 << (logn - 1 - b);
        VCHECK(o[i] == unsorted[r], "bit_reverse", "size %d: position %d does not hold what was at %d", n, i, r);
    }
    std::vector<C> y(o);
    if (sign == -1) {
        dsp::ft::ifft_c_radix2(y.begin(), n);
        dsp::util::bit_reverse(n, y.begin());
        for (int i = 0; i < n; ++i) CLOSE(y[i], x[i], tol, "inplace_inverse", "size %d value %d", n, i);
        // fast convolution in the unsorted order needs no sorting
        std::vector<C> p(n), q(csignal(c, n)), fq(q);
        dsp::ft::fft_c_radix2(fq.begin(), n);
        dsp::util::multiply_signals(n, unsorted.begin(), static_cast<std::vector<C>::const_iterator>(fq.begin()), p.begin());
        for (int i = 0; i < n; ++i) CLOSE(p[i], CL(unsorted[i]) * CL(fq[i]), 1e-9 * n * AMP * AMP, "multiply_signals", "value %d", i);
    }
    c.ev("transforms", 2);
}

template <class F> static void real_case(Case& c, int n, double eps) {
    const std::vector<double> xd = rsignal(c, n);
    std::vector<F> x(xd.begin(), xd.end());
    const std::vector<F> keep(x);
    const int half = static_cast<int>(dsp::ft::length_ft(n));
    VCHECK(half == n / 2 + 1, "length_ft", "length_ft(%d)=%d", n, half);
    VCHECK(static_cast<int>(dsp::ft::length_ift(half)) == n, "length_ift", "length_ift(length_ft(%d))=%zu", n, dsp::ft::length_ift(half));
    const double tol = eps * (n + 4) * 8 * AMP;
    std::vector<C> o(half, C(5, 5));
    if (c.r.chance(.5)) dsp::ft::fft_r_radix2(x.begin(), n, o.begin());
    else dsp::ft::fft_r_radix2(x.data(), n, o.data());
    VCHECK(x == keep, "fft_real_input", "the input of the real FFT (size %d) was changed", n);
    for (int k : bins(c, n, 12)) if (k < half) CLOSE(o[k], bin(x, k, -1), tol, "fft_real", "size %d bin %d", n, k);
    c.ev("bins_checked", half);
    // the same through the other ways to get there
    std::vector<std::complex<F>> cx(n), cs(n);
    dsp::util::real_complex_naive(x.begin(), n, cx.begin());
    dsp::ft::fft_c_radix2(cx.begin(), n, cs.begin());
    for (int k = 0; k < half; ++k) CLOSE(CL(cs[k]), CL(o[k]), tol * 4, "fft_real_complex", "size %d bin %d differs from the complex FFT", n, k);
    std::vector<C> eo(n / 2), pr(half);
    dsp::util::real_eop_complex(x.begin(), n, eo.begin());
    dsp::ft::fft_c_radix2(eo.begin(), n / 2, pr.begin());
    dsp::ft::fft_process_real(pr.begin(), n, false);
    for (int k = 0; k < half; ++k) CLOSE(pr[k], CL(o[k]), tol * 4, "fft_process_real", "size %d bin %d differs", n, k);
    // back
    std::vector<C> oc(o);
    std::vector<F> y(n, F(-4));
    dsp::ft::ifft_r_radix2(oc.begin(), half, y.begin());
    for (int i = 0; i < n; ++i) VCHECK(std::fabs(static_cast<double>(y[i]) - static_cast<double>(x[i])) <= tol, "ifft_real", "size %d value %d is %.12g after both transforms, was %.12g", n, i,
                                       static_cast<double>(y[i]), static_cast<double>(x[i]));
    // any spectrum of a real signal
    std::vector<C> sp(half), sp2;
    for (auto& v : sp) v = AMP * C(c.r.real(-1, 1), c.r.real(-1, 1));
    sp[0] = sp[0].real();
    sp[half - 1] = sp[half - 1].real();
    sp2 = sp;
    std::vector<double> z(n);
    dsp::ft::ifft_r_radix2(sp2.begin(), half, z.begin());
    std::vector<C> full(n);
    for (int k = 0; k < half; ++k) { full[k] = sp[k]; if (k) full[n - k] = std::conj(sp[k]); }
    for (int i : bins(c, n, 6)) CLOSE(CL(z[i]), bin(full, i, 1) / static_cast<long double>(n), 1e-13 * (n + 4) * 8 * AMP, "ifft_real_spectrum", "size %d value %d", n, i);
    c.ev("transforms", 5);
}
VSCENARIO(real_fft, 3000, 30000) {
    const int n = 1 << std::max(1, log_size(c));
    const bool f = c.r.chance(.25);
    c.d("real_fft n=%d %s ", n, f ? "float" : "double");
    c.nontrivial = n > 2;
    if (f) real_case<float>(c, n, 1e-6);
    else real_case<double>(c, n, 1e-13);
}

VSCENARIO(dft, 3000, 30000) {
    const int n = c.idx < 40 ? static_cast<int>(c.idx) + 1 : c.r.i(1, 150);
    AMP = loudness(c);
    const std::vector<double> x = rsignal(c, n);
    c.d("dft n=%d ", n);
    c.nontrivial = n > 1;
    const int half = static_cast<int>(dsp::ft::length_ft(n));
    const double tol = 1e-12 * (n + 4) * 4 * AMP;
    std::vector<C> o(half, C(0, 0));
    dsp::ft::dft(x.begin(), n, o.begin());
    for (int k = 0; k < half; ++k) CLOSE(o[k], bin(x, k, -1), tol, "dft", "size %d bin %d", n, k);
    c.ev("bins_checked", half);
    c.ev("transforms", 1);
    if (n % 2 == 0) {
        std::vector<double> y(n, 0.0);
        dsp::ft::inv_dft(o.begin(), half, y.begin());
        for (int i = 0; i < n; ++i) VCHECK(std::fabs(y[i] - x[i]) <= tol, "inv_dft", "size %d value %d is %.12g after both transforms, was %.12g", n, i, y[i], x[i]);
        if ((n & (n - 1)) == 0 && n > 1) {
            std::vector<double> xx(x);
            std::vector<C> f(half);
            dsp::ft::fft_r_radix2(xx.begin(), n, f.begin());
            for (int k = 0; k < half; ++k) CLOSE(f[k], CL(o[k]), tol, "dft_fft", "size %d bin %d: the real FFT differs from the DFT", n, k);
        }
        c.ev("transforms", 1);
    }
    // a pure tone appears at the bin index_freq names
    if (n >= 4) {
        const int k = c.r.i(1, (n - 1) / 2);
        const double rate = c.r.of<double>({8000, 44100, 48000, 1});
        const double hz = dsp::ft::index_freq(k, n, rate);
        VCHECK(std::fabs(hz - k * rate / n) <= 1e-9 * rate, "index_freq", "index_freq(%d,%d,%g)=%g", k, n, rate, hz);
        std::vector<double> t(n);
        for (int i = 0; i < n; ++i) t[i] = std::cos(static_cast<double>(TAU) * hz * i / rate);
        std::vector<C> s(half, C(0, 0));
        dsp::ft::dft(t.begin(), n, s.begin());
        for (int j = 0; j < half; ++j)
            VCHECK(std::fabs(std::abs(s[j]) - (j == k ? n / 2.0 : 0)) <= 1e-8 * n, "tone", "size %d: a tone at bin %d gives %g at bin %d", n, k, std::abs(s[j]), j);
        c.ev("tones");
    }
}

VSCENARIO(factors, 2000, 20000) {
    const int n = c.r.i(1, 5000), k = c.r.i(-2 * n, 2 * n);
    const int sign = c.r.chance(.5) ? 1 : -1;
    c.d("factors n=%d k=%d sign=%d ", n, k, sign);
    c.nontrivial = n > 2;
    const CL w = root(((k % n) + n) % n, n, sign), wm = root(((k % n) + n) % n, n, -1);
    CLOSE(dsp::ft::twiddle<double>(k, n, sign), w, 1e-12, "twiddle", "twiddle(%d,%d,%d)", k, n, sign);
    CLOSE(dsp::ft::twiddle<double>(k, n), wm, 1e-12, "twiddle", "twiddle(%d,%d)", k, n);
    CLOSE(dsp::ft::compute_a<double>(k, n), (CL(1) - CL(0, 1) * wm) / 2.0L, 1e-12, "compute_a", "compute_a(%d,%d)", k, n);
    CLOSE(dsp::ft::compute_b<double>(k, n), (CL(1) + CL(0, 1) * wm) / 2.0L, 1e-12, "compute_b", "compute_b(%d,%d)", k, n);
    const int ph = c.r.i(0, 5000);
    const double fr = c.r.chance(.5) ? c.r.i(0, 50) : c.r.real(0, 50);
    VCHECK(std::fabs(dsp::ft::cos_basis(ph, n, fr) - cosl(TAU * fr * ph / n)) < 1e-8, "basis", "cos_basis(%d,%d,%g)", ph, n, fr);
    VCHECK(std::fabs(dsp::ft::sin_basis(ph, n, fr) - sinl(TAU * fr * ph / n)) < 1e-8, "basis", "sin_basis(%d,%d,%g)", ph, n, fr);
    c.ev("factors", 6);
}
int main(int a, char** v) { return vh::main_impl(a, v); }
