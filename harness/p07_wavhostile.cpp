// P07: no input makes the WAV reader misbehave: it ends, stays inside memory and delivers the valid part of damaged files.
#include "vh.hpp"
#include <memory>
#include <sys/resource.h>
#include "wavref.hpp"
#include "io/wav.hpp"
using namespace wavref;

// drives a reader over arbitrary bytes; returns what it delivered
static std::vector<double> drive(vh::Case& c, const Bytes& b, bool file, int n, bool* finished, std::size_t cap = 20000) {
    CharIStream mem;
    FIStream fi;
    BaseMIStream* s = &mem;
    std::string path;
    if (file) { path = scratch(".wav"); spit(path, b); fi.set_path(path); s = &fi; }
    else mem.get_array() = b;
    WaveReader r(s);
    r.start();
    r.set_buffer_size(n);
    std::vector<double> out;
    // every call delivers at least one sample per byte left or reaches the end, so this many must do
    std::size_t limit = b.size() + 4;
    std::size_t calls = 0;
    for (; !r.done() && calls < limit && out.size() < cap; ++calls) {
        auto x = r.get_data();
        VCHECK(x->size() == static_cast<std::size_t>(n) * static_cast<std::size_t>(std::max(0, r.get_channels())), "shape", "size %zu for %d frames of %d", x->size(), n, r.get_channels());
        for (double v : std::vector<double>(x->ibegin(), x->iend())) {
            VCHECK(v >= -1 && v <= 1, "range", "value %.17g", v);
            out.push_back(v);
        }
        c.ev("get_data_calls");
    }
    VCHECK(r.done() || out.size() >= cap, "endless", "not done after %zu reads of a %zu byte file", calls, b.size());
    *finished = r.done();
    r.stop();
    VCHECK(r.done(), "stop", "not done after stop");
    if (file) unlink(path.c_str());
    return out;
}
static std::string hex(const Bytes& b) { std::string s; char t[4]; for (std::size_t i = 0; i < b.size() && i < 80; ++i) { snprintf(t, 4, "%02x", b[i]); s += t; } return s; }

// cut at every offset: what was there before the cut is delivered
VSCENARIO(truncated, 120, 2500) {
    File f = random_file(c.r, true, false);
    c.d("file of %zu bytes ch=%d bits=%d", f.bytes.size(), f.channels, f.bits);
    c.nontrivial = f.samples.size() > 1;
    c.fold(vh::hstr(std::string(f.bytes.begin(), f.bytes.end())));
    std::size_t step = 1 + f.bytes.size() / (c.thorough ? 2000 : 120);
    for (std::size_t cut = c.r.i(0, step - 1); cut <= f.bytes.size(); cut += step) {
        Bytes b(f.bytes.begin(), f.bytes.begin() + cut);
        bool fin;
        auto got = drive(c, b, c.r.chance(.15), c.r.i(1, 40), &fin, 1000000);
        std::size_t whole = 0;
        while (whole < f.sample_end.size() && f.sample_end[whole] <= cut) ++whole;
        if (cut >= 36) {
            VCHECK(got.size() >= whole, "lost", "cut at %zu of %zu: %zu of %zu whole samples delivered", cut, f.bytes.size(), got.size(), whole);
            for (std::size_t i = 0; i < whole; ++i) VCHECK(vh::close(got[i], f.samples[i], 1e-12), "prefix", "cut at %zu: sample %zu is %.17g expected %.17g", cut, i, got[i], f.samples[i]);
        }
        c.ev("files_cut");
    }
}
// bytes of a valid file changed, with a bias to the fields that steer the reader
VSCENARIO(mutated, 4000, 150000) {
    File f = random_file(c.r);
    Bytes b = f.bytes;
    int n = c.r.i(1, 6);
    for (int k = 0; k < n && !b.empty(); ++k) {
        std::size_t at = c.r.chance(.5) ? c.r.i(0, std::min<int>(b.size(), 60) - 1) : c.r.i(0, b.size() - 1);
        if (c.r.chance(.25)) {   // a whole 32 bit field
            uint32_t v = c.r.of<uint32_t>({0u, 1u, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFF7u, 3u, 0x10000u, static_cast<uint32_t>(c.r.next())});
            for (int i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = static_cast<unsigned char>(v >> (8 * i));
        } else if (c.r.chance(.1)) b.insert(b.begin() + at, static_cast<unsigned char>(c.r.next()));
        else if (c.r.chance(.1)) b.erase(b.begin() + at);
        else b[at] = static_cast<unsigned char>(c.r.chance(.5) ? c.r.of({0, 1, 127, 128, 255}) : c.r.next());
    }
    c.d("%zu bytes: %s", b.size(), hex(b).c_str());
    c.fold(vh::hstr(std::string(b.begin(), b.end())));
    c.nontrivial = true;
    bool fin;
    // buffers stay small: a hostile channel count may ask for 32767 values per frame
    drive(c, b, c.r.chance(.1), c.r.i(1, 12), &fin);
    c.ev("files_mutated");
}
VSCENARIO(header_fields, 1500, 60000) {
    // a well formed frame around arbitrary field values
    Bytes b;
    auto v32 = [&] { return c.r.of<uint32_t>({0, 1, 8, 16, 36, 44, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, static_cast<uint32_t>(c.r.next()), static_cast<uint32_t>(c.r.i(0, 200))}); };
    auto v16 = [&] { return c.r.of<uint32_t>({0, 1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 24, 32, 64, 0x7FFF, 0x8000, 0xFFFF}); };
    tag(b, "RIFF"); le(b, v32(), 4); tag(b, "WAVE"); tag(b, "fmt "); le(b, c.r.chance(.7) ? 16 : v32(), 4);
    le(b, v16(), 2); le(b, c.r.chance(.6) ? c.r.i(1, 4) : v16(), 2); le(b, v32(), 4); le(b, v32(), 4); le(b, v16(), 2); le(b, c.r.chance(.6) ? 8 * c.r.i(1, 2) : v16(), 2);
    int n = c.r.i(0, 3);
    for (int i = 0; i < n; ++i) { tag(b, c.r.chance(.7) ? "data" : "LIST"); le(b, v32(), 4); int k = c.r.i(0, 60); for (int j = 0; j < k; ++j) b.push_back(c.r.next()); }
    c.d("%s", hex(b).c_str());
    c.nontrivial = true;
    bool fin;
    drive(c, b, false, c.r.i(1, 12), &fin);
    c.ev("files_mutated");
}
VSCENARIO(random_bytes, 1500, 40000) {
    Bytes b;
    int n = c.r.i(0, 200);
    bool magic = c.r.chance(.5);
    if (magic) { tag(b, "RIFF"); le(b, c.r.next(), 4); tag(b, "WAVE"); }
    for (int i = 0; i < n; ++i) b.push_back(static_cast<unsigned char>(c.r.next()));
    c.d("%s", hex(b).c_str());
    c.nontrivial = n > 0;
    bool fin;
    drive(c, b, c.r.chance(.1), c.r.i(1, 4), &fin);
    c.ev("files_mutated");
}
// a file that is not there
VSCENARIO(missing_file, 30, 300) {
    FIStream fi;
    std::string p = scratch("/nowhere/x.wav");
    fi.set_path(p);
    WaveReader r(&fi);
    r.set_buffer_size(c.r.i(1, 20));
    c.d("missing file");
    c.nontrivial = true;
    r.start();
    VCHECK(r.done(), "missing", "reader of a missing file is not done");
    auto b = r.get_data();
    for (std::size_t i = 0; i < b->size(); ++i) VCHECK(b->at(i) == 0, "missing-data", "value %g", b->at(i));
    c.ev("missing_files");
}
int main(int a, char** v) { return vh::main_impl(a, v); }
