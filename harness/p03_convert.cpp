// P03: sample format conversion; P03 also decides the little-endian byte codecs.
#include "vh.hpp"
#include <array>
#include <list>
#include <vector>
#include "audio_buffer.hpp"

// Reference of one format: the exact ideal value of code x, and the code range.
struct Fmt {
    const char* name;
    long lo, hi;                       // code range
    double step;                       // largest gap between neighbouring codes' values
    long (*enc)(double);
    double (*dec)(long);
    double tie;                        // largest allowed |decode(encode(v)) - v|
};
static const Fmt FMTS[] = {
    {"int16", -32768, 32767, 1 / 32767., [](double v) -> long { return mf_int16(v); }, [](long x) { return int16_mf(static_cast<int16_t>(x)); }, 1.01 / 32767.},
    {"uint16", 0, 65535, 2 / 65535., [](double v) -> long { return mf_uint16(v); }, [](long x) { return uint16_mf(static_cast<uint16_t>(x)); }, 1.001 / 65535.},
    {"char", -128, 127, 1 / 127., [](double v) -> long { return mf_char(v); }, [](long x) { return char_mf(static_cast<char>(x)); }, 1.01 / 127.},
    {"uchar", 0, 255, 2 / 255., [](double v) -> long { return mf_uchar(v); }, [](long x) { return uchar_mf(static_cast<unsigned char>(x)); }, 1.001 / 255.},
};

// Exhaustive over codes: case i handles a slice of every format's code space.
VSCENARIO(all_codes, 64, 64) {
    c.d("slice %ld/64", c.idx);
    c.nontrivial = true;
    for (auto& f : FMTS) {
        long n = f.hi - f.lo + 1, a = f.lo + n * c.idx / 64, b = f.lo + n * (c.idx + 1) / 64;
        for (long x = a; x < b; ++x) {
            double v = f.dec(x);
            c.ev("codes_decoded");
            VCHECK(v >= -1. && v <= 1., std::string("range-") + f.name, "code %ld decodes to %.17g, outside [-1,1]", x, v);
            long y = f.enc(v);
            VCHECK(y >= f.lo && y <= f.hi && y == x, std::string("roundtrip-") + f.name, "code %ld decodes to %.17g which encodes to %ld", x, v, y);
            if (x > f.lo) {
                double p = f.dec(x - 1);
                VCHECK(v > p && v - p <= f.step * 1.0001, std::string("decode-steps-") + f.name, "codes %ld and %ld decode to %.17g and %.17g", x - 1, x, p, v);
            }
            // the ideal linear position of the code
            double ideal = f.lo == 0 ? 2. * x / f.hi - 1. : (x < 0 ? x / static_cast<double>(-f.lo) : x / static_cast<double>(f.hi));
            VCHECK(std::fabs(v - ideal) < 0.6 * f.step / 32, std::string("decode-value-") + f.name, "code %ld decodes to %.17g expected %.17g", x, v, ideal);
        }
    }
    if (c.idx == 0) {
        for (auto& f : FMTS) {
            VCHECK(f.enc(-1.) == f.lo && f.enc(1.) == f.hi, std::string("extremes-") + f.name, "-1 -> %ld, 1 -> %ld", f.enc(-1.), f.enc(1.));
            VCHECK(f.dec(f.lo) == -1. && f.dec(f.hi) == 1., std::string("extremes-decode-") + f.name, "%.17g %.17g", f.dec(f.lo), f.dec(f.hi));
            if (f.lo < 0) VCHECK(f.enc(0.) == 0 && f.dec(0) == 0., std::string("silence-") + f.name, "0 -> %ld", f.enc(0.));
        }
    }
}

VSCENARIO(random_values, 3000, 60000) {
    double a = c.r.real(-1, 1), b = c.r.chance(.3) ? std::nextafter(a, c.r.chance(.5) ? 1. : -1.) : c.r.real(-1, 1);
    if (c.r.chance(.1)) a = c.r.of({-1., 1., 0., -0., 1e-300, -1e-300, 0.5, -0.5, std::nextafter(1., 0.), std::nextafter(-1., 0.)});
    if (a > b) std::swap(a, b);
    c.d("a=%.17g b=%.17g", a, b);
    c.nontrivial = a != b;
    for (auto& f : FMTS) {
        c.ev("values_encoded", 2);
        long x = f.enc(a), y = f.enc(b);
        VCHECK(x >= f.lo && x <= f.hi, std::string("enc-range-") + f.name, "%.17g -> %ld", a, x);
        VCHECK(x <= y, std::string("monotone-") + f.name, "%.17g -> %ld but %.17g -> %ld", a, x, b, y);
        double ra = f.dec(x);
        VCHECK(std::fabs(ra - a) <= f.tie, std::string("error-") + f.name, "%.17g -> %ld -> %.17g, off by more than a step", a, x, ra);
    }
    VCHECK(mf_float(a) == static_cast<float>(a), "float", "%g", a);
    double nn = mf_null(a);
    VCHECK(memcmp(&nn, &a, 8) == 0, "null", "%.17g -> %.17g", a, nn);
}

// two signed formats agree on sign and silence
VSCENARIO(symmetry, 500, 10000) {
    double a = c.r.real(0, 1);
    c.d("a=%.17g", a);
    c.nontrivial = a > 0.01;
    for (auto& f : FMTS) {
        long p = f.enc(a), n = f.enc(-a);
        double dp = f.dec(p), dn = f.dec(n);
        VCHECK(std::fabs(dp + dn) <= 2 * f.tie, std::string("symmetry-") + f.name, "+-%g decode to %g and %g", a, dp, dn);
        VCHECK(dp >= -f.tie && dn <= f.tie, std::string("sign-") + f.name, "+-%g decode to %g and %g", a, dp, dn);
        c.ev("values_encoded", 2);
    }
}

// ---- byte codecs
template <class U> static void ref_bytes(U v, int n, unsigned char* o) { for (int i = 0; i < n; ++i) o[i] = static_cast<unsigned char>(v >> (8 * i)); }

VSCENARIO(codec16, 64, 64) {
    c.d("slice %ld/64 of all 16 bit values", c.idx);
    c.nontrivial = true;
    for (int u = static_cast<int>(c.idx) * 1024; u < (static_cast<int>(c.idx) + 1) * 1024; ++u) {
        int16_t v = static_cast<int16_t>(u);
        unsigned char e[2];
        ref_bytes<uint16_t>(static_cast<uint16_t>(u), 2, e);
        std::array<char, 4> o{'x', 'x', 'x', 'x'};
        int16_char(v, o.begin() + 1);
        VCHECK(static_cast<unsigned char>(o[1]) == e[0] && static_cast<unsigned char>(o[2]) == e[1] && o[0] == 'x' && o[3] == 'x', "int16-bytes", "%d", v);
        VCHECK(char_int16(o.begin() + 1) == v, "int16-roundtrip", "%d -> %d", v, char_int16(o.begin() + 1));
        std::vector<unsigned char> w(e, e + 2);
        VCHECK(char_int16(w.begin()) == v, "int16-unsigned-bytes", "%d", v);
        std::vector<unsigned char> w2(2);
        int16_char(v, w2.begin());
        VCHECK(w2 == w, "int16-unsigned-out", "%d", v);
        c.ev("codec_values");
    }
}
VSCENARIO(codec32, 4000, 200000) {
    uint32_t u = static_cast<uint32_t>(c.r.next());
    if (c.r.chance(.3)) { u = 0; for (int i = 0; i < 4; ++i) u = (u << 8) | c.r.of<uint32_t>({0, 1, 127, 128, 129, 254, 255}); }
    c.d("%08x", u);
    c.nontrivial = u > 255;
    unsigned char e[4];
    ref_bytes<uint32_t>(u, 4, e);
    std::array<char, 6> o;
    o.fill('x');
    int32_char(static_cast<int32_t>(u), o.begin() + 1);
    for (int i = 0; i < 4; ++i) VCHECK(static_cast<unsigned char>(o[1 + i]) == e[i], "int32-bytes", "%08x byte %d", u, i);
    VCHECK(o[0] == 'x' && o[5] == 'x', "int32-extent", "writes outside four bytes");
    VCHECK(char_int32(o.begin() + 1) == static_cast<int32_t>(u), "int32-roundtrip", "%08x", u);
    VCHECK(char_uint32(o.begin() + 1) == u, "uint32-decode", "%08x", u);
    o.fill('y');
    uint32_char(u, o.begin() + 1);
    for (int i = 0; i < 4; ++i) VCHECK(static_cast<unsigned char>(o[1 + i]) == e[i], "uint32-bytes", "%08x byte %d", u, i);
    VCHECK(o[0] == 'y' && o[5] == 'y', "uint32-extent", "writes outside four bytes");
    std::vector<unsigned char> w(e, e + 4);
    VCHECK(char_uint32(w.begin()) == u && char_int32(w.begin()) == static_cast<int32_t>(u), "uint32-unsigned-bytes", "%08x", u);
    c.ev("codec_values", 2);
}
int main(int a, char** v) { return vh::main_impl(a, v); }
