// P05: what the WAV writer emits is exactly the file the configuration and samples describe, and reads back.
#include "vh.hpp"
#include <map>
#include <memory>
#include "wavref.hpp"
#include "io/wav.hpp"
using namespace wavref;

static void configure(vh::Case& c, BaseWave& w, int ch, int rate, int bits) {
    // any order of the setters, some set twice with throw-away values
    std::vector<int> order{0, 1, 2};
    for (int i = 2; i > 0; --i) std::swap(order[i], order[c.r.i(0, i)]);
    if (c.r.chance(.3)) { w.set_channels(c.r.i(1, 9)); w.set_bits_per_sample(8 * c.r.i(1, 2)); w.set_samplerate(c.r.i(1, 9999)); }
    for (int k : order) {
        if (k == 0) w.set_channels(ch);
        else if (k == 1) w.set_samplerate(rate);
        else if (c.r.chance(.5)) w.set_bits_per_sample(bits);
        else w.set_bytes_per_sample(bits / 8);
    }
}

struct Plan { int ch, rate, bits; std::vector<std::vector<double>> parts; Bytes expect; std::vector<double> played; };
static Plan plan(vh::Case& c) {
    Plan p;
    p.ch = c.r.chn(1, 8); p.rate = c.r.chance(.5) ? c.r.of({44100, 48000, 8000, 192000}) : c.r.i(1, 300000); p.bits = c.r.chance(.5) ? 16 : 8;
    int nparts = c.r.chance(.08) ? 0 : c.r.i(1, 6);
    Bytes body;
    for (int k = 0; k < nparts; ++k) {
        std::vector<double> v(static_cast<std::size_t>(c.r.i(0, 60)) * p.ch);
        for (auto& x : v) {
            x = c.r.chance(.1) ? c.r.of({-1., 1., 0., 0.5, -0.5}) : c.r.real(-1, 1);
            int code = p.bits == 16 ? enc16(x) : enc8(x);
            le(body, static_cast<uint32_t>(code), p.bits / 8);
            p.played.push_back(p.bits == 16 ? dec16(code) : dec8(code));
        }
        p.parts.push_back(v);
    }
    Bytes& e = p.expect;
    int bp = p.bits / 8;
    tag(e, "RIFF"); le(e, 36 + body.size(), 4); tag(e, "WAVE"); tag(e, "fmt "); le(e, 16, 4);
    le(e, 1, 2); le(e, p.ch, 2); le(e, p.rate, 4); le(e, p.rate * p.ch * bp, 4); le(e, p.ch * bp, 2); le(e, p.bits, 2);
    tag(e, "data"); le(e, body.size(), 4);
    e.insert(e.end(), body.begin(), body.end());
    c.d("ch=%d rate=%d bits=%d parts=%d samples=%zu", p.ch, p.rate, p.bits, nparts, p.played.size());
    for (double x : p.played) c.fold(x);
    c.nontrivial = p.played.size() > 1;
    return p;
}
static BufferPointer buf(const std::vector<double>& v, int ch, double rate) { return std::make_unique<AudioBuffer>(v, ch, rate); }

static void compare(const Bytes& got, const Bytes& exp, const char* key) {
    VCHECK(got.size() == exp.size(), std::string(key) + "-length", "%zu bytes, expected %zu", got.size(), exp.size());
    for (std::size_t i = 0; i < exp.size(); ++i)
        VCHECK(got[i] == exp[i], std::string(key) + (i < 44 ? "-header" : "-sample"), "byte %zu is %d expected %d", i, got[i], exp[i]);
}

VSCENARIO(write_exact, 1500, 40000) {
    Plan p = plan(c);
    bool file = c.r.chance(.5), prestart = c.r.chance(.5);
    c.d(" to=%s prestart=%d", file ? "file" : "memory", prestart);
    CharOStream mem;
    FOStream fo;
    std::string path = file ? scratch(".wav") : "";
    fo.set_path(path);
    BaseMOStream* s = file ? static_cast<BaseMOStream*>(&fo) : &mem;
    WaveWriter w;
    if (c.r.chance(.5)) w.set_stream(s); else w = WaveWriter(s);
    VCHECK(w.get_stream() == s, "stream", "stream not kept");
    configure(c, w, p.ch, p.rate, p.bits);
    if (prestart) s->start();
    w.start();
    VCHECK(w.get_size() == 44, "size-start", "size %ld after start", (long)w.get_size());
    std::size_t n = 44;
    for (auto& v : p.parts) {
        w.write_data(buf(v, c.r.chance(.8) ? p.ch : 1, p.rate));
        n += v.size() * p.bits / 8;
        VCHECK(static_cast<std::size_t>(w.get_size()) == n, "size-running", "size %ld expected %zu", (long)w.get_size(), n);
        c.ev("buffers_written");
    }
    VCHECK(s->good() && s->get_state() == BaseMOStream::started, "stream-live", "stream not live while writing");
    w.stop();
    VCHECK(s->bad(), "stream-closed", "stream still open after stop");
    Bytes got = file ? slurp(path) : mem.get_array();
    if (file) unlink(path.c_str());
    compare(got, p.expect, file ? "file" : "memory");
    c.ev("bytes_compared", got.size());
    // read it back in buffers of random size
    CharIStream in;
    in.get_array() = got;
    WaveReader r(&in);
    r.start();
    VCHECK(r.get_channels() == p.ch && r.get_samplerate() == p.rate && r.get_bits_per_sample() == p.bits && r.get_bytes_per_sample() == p.bits / 8 &&
               r.get_byterate() == p.rate * p.ch * p.bits / 8 && r.get_blockalign() == p.ch * p.bits / 8 && r.get_format() == 1,
           "reread-format", "ch %d rate %d bits %d", r.get_channels(), r.get_samplerate(), r.get_bits_per_sample());
    VCHECK(static_cast<std::size_t>(r.get_size()) == got.size(), "reread-size", "%ld of %zu", (long)r.get_size(), got.size());
    std::size_t at = 0;
    for (int guard = 0; !r.done() && guard < 2000; ++guard) {
        r.set_buffer_size(c.r.i(1, 40));
        auto b = r.get_data();
        for (std::size_t i = 0; i < b->size(); ++i, ++at)
            VCHECK(vh::close(b->at(i), at < p.played.size() ? p.played[at] : 0., 1e-12), "reread-sample", "sample %zu is %.17g expected %.17g", at, b->at(i),
                   at < p.played.size() ? p.played[at] : 0.);
        c.ev("buffers_read");
    }
    VCHECK(r.done() && at >= p.played.size(), "reread-done", "%zu of %zu samples read", at, p.played.size());
}

// every 16 bit code / 8 bit code survives read -> write unchanged
VSCENARIO(lossless, 300, 6000) {
    File f;
    f.channels = c.r.i(1, 4); f.bits = c.r.chance(.6) ? 16 : 8; f.rate = 44100;
    Chunk k; k.data = true;
    int frames = c.r.sz(1, 400);
    for (int i = 0; i < frames * f.channels * f.bits / 8; ++i) k.body.push_back(static_cast<unsigned char>(c.r.chance(.2) ? c.r.of({0, 128, 127, 255, 1, 254}) : c.r.next()));
    if (k.body.size() % 2) for (int i = 0; i < f.channels; ++i) k.body.push_back(7);
    if (k.body.size() % 2) k.body.resize(k.body.size() * 2);
    f.chunks.push_back(k);
    f.build();
    c.d("ch=%d bits=%d bytes=%zu", f.channels, f.bits, k.body.size());
    c.fold(vh::hstr(std::string(k.body.begin(), k.body.end())));
    c.nontrivial = true;
    CharIStream in; in.get_array() = f.bytes;
    CharOStream out;
    WaveReader r(&in); r.start();
    WaveWriter w(&out);
    w.set_channels(r.get_channels()); w.set_samplerate(r.get_samplerate()); w.set_bits_per_sample(r.get_bits_per_sample());
    w.start();
    int total = k.body.size() / (f.bits / 8) / f.channels, done = 0;
    while (done < total) { int n = std::min(c.r.i(1, 64), total - done); r.set_buffer_size(n); w.write_data(r.get_data()); done += n; }
    w.stop();
    compare(out.get_array(), f.bytes, "lossless");
    c.ev("bytes_compared", f.bytes.size());
}

VSCENARIO(setters, 1000, 20000) {
    BaseWave w;
    int ch = 1, rate = 44100, bytes = 0, bits = 0, br = 0, ba = 0, fmt = 1;
    uint32_t size = 0;
    c.nontrivial = true;
    for (int o = 0; o < 12; ++o) {
        switch (c.r.i(0, 7)) {
            case 0: ch = c.r.chn(1, 64); w.set_channels(ch); br = ch * rate * bytes; ba = ch * bytes; break;
            case 1: rate = c.r.i(1, 200000); w.set_samplerate(rate); br = ch * rate * bytes; break;
            case 2: bits = c.r.of({8, 16, 24, 32}); bytes = bits / 8; w.set_bits_per_sample(bits); br = ch * rate * bytes; ba = ch * bytes; break;
            case 3: bytes = c.r.i(1, 4); bits = bytes * 8; w.set_bytes_per_sample(bytes); br = ch * rate * bytes; ba = ch * bytes; break;
            case 4: br = c.r.i(0, 99999); w.set_byterate(br); break;
            case 5: ba = c.r.i(0, 99); w.set_blockalign(ba); break;
            case 6: fmt = c.r.i(0, 10); w.set_format(fmt); break;
            case 7: size = static_cast<uint32_t>(c.r.chance(.5) ? c.r.i(0, 1 << 30) : c.r.i(INT_MIN, INT_MAX)); w.set_size(size); break;
        }
        c.ev("setter_calls");
        VCHECK(w.get_channels() == ch && w.get_samplerate() == rate && w.get_bits_per_sample() == bits && w.get_bytes_per_sample() == bytes &&
                   w.get_byterate() == br && w.get_blockalign() == ba && w.get_format() == fmt && w.get_size() == size,
               "setters", "ch %d/%d rate %d/%d bits %d/%d bytes %d/%d byterate %d/%d align %d/%d", w.get_channels(), ch, w.get_samplerate(), rate,
               w.get_bits_per_sample(), bits, w.get_bytes_per_sample(), bytes, w.get_byterate(), br, w.get_blockalign(), ba);
    }
    c.d("ch=%d rate=%d bits=%d", ch, rate, bits);
}

// chunk structs encode and decode as inverses
VSCENARIO(chunks, 1000, 20000) {
    std::string id;
    for (int i = 0; i < 4; ++i) id += static_cast<char>(c.r.i(32, 126));
    uint32_t size = static_cast<uint32_t>(c.r.next());
    c.d("id=%s size=%u", id.c_str(), size);
    c.nontrivial = true;
    CharOStream o;
    ChunkHeader h(id, size);
    h.encode(o);
    WavHeader wh; wh.chunk_size = size; wh.encode(o);
    WavFormat wf;
    VCHECK(wf.format == 1, "format-default", "a fresh format chunk is of format %d, not PCM", (int)wf.format);
    ChunkHeader only_id(id), only_size(size), fresh;
    VCHECK(only_id.chunk_id == id && only_id.chunk_size == 0 && only_size.chunk_size == size && only_size.chunk_id == "    " && fresh.chunk_size == 0, "chunk-default", "%u", only_id.chunk_size);
    VCHECK(ChunkHeader::size() == 8 && WavHeader::size() == 12 && WavFormat::size() == 24, "chunk-sizes", "%u %u %u", ChunkHeader::size(), WavHeader::size(), WavFormat::size());
    wf.format = c.r.i(0, 65535); wf.channels = c.r.i(0, 65535); wf.sample_rate = c.r.next(); wf.byte_rate = c.r.next(); wf.block_align = c.r.i(0, 65535); wf.bits_per_sample = c.r.i(0, 65535);
    wf.encode(o);
    UnknownChunk u(c.r.i(0, 60));
    for (auto& x : u.data) x = static_cast<char>(c.r.next());
    u.chunk_id = id;
    VCHECK(u.size() == 8 + u.data.size(), "unknown-size", "%u", u.size());
    if (c.r.chance(.3)) u.chunk_size = static_cast<uint32_t>(c.r.next());     // what is written is what is there
    if (c.r.chance(.3)) u.data.push_back(7);
    u.encode(o);
    Bytes e;
    e.insert(e.end(), id.begin(), id.end()); le(e, size, 4);
    tag(e, "RIFF"); le(e, size, 4); tag(e, "WAVE");
    tag(e, "fmt "); le(e, 16, 4); le(e, wf.format, 2); le(e, wf.channels, 2); le(e, wf.sample_rate, 4); le(e, wf.byte_rate, 4); le(e, wf.block_align, 2); le(e, wf.bits_per_sample, 2);
    e.insert(e.end(), id.begin(), id.end()); le(e, u.data.size(), 4);
    for (char x : u.data) e.push_back(static_cast<unsigned char>(x));
    VCHECK(o.get_array() == e, "chunk-encode", "encoded bytes differ");
    CharIStream in; in.get_array() = e;
    ChunkHeader h2; h2.decode(in);
    WavHeader wh2; wh2.decode(in);
    ChunkHeader fh; fh.decode(in);
    WavFormat wf2; wf2.decode(in);
    ChunkHeader uh; uh.decode(in);
    UnknownChunk u2(uh.chunk_size); u2.decode(in);
    VCHECK(h2.chunk_id == id && h2.chunk_size == size, "chunk-header", "%s %u", h2.chunk_id.c_str(), h2.chunk_size);
    VCHECK(wh2.format == "WAVE" && wh2.chunk_id == "RIFF" && wh2.chunk_size == size, "wav-header", "%s %u", wh2.format.c_str(), wh2.chunk_size);
    VCHECK(fh.chunk_id == "fmt " && fh.chunk_size == 16, "fmt-header", "%u", fh.chunk_size);
    VCHECK(wf2.format == wf.format && wf2.channels == wf.channels && wf2.sample_rate == wf.sample_rate && wf2.byte_rate == wf.byte_rate &&
               wf2.block_align == wf.block_align && wf2.bits_per_sample == wf.bits_per_sample, "fmt-values", "format values changed");
    VCHECK(uh.chunk_id == id && u2.data == u.data, "unknown-data", "unknown chunk changed");
    VCHECK(in.good(), "chunk-consumed", "decoders read too much");
    char x; in.read(&x, 1);
    VCHECK(in.bad(), "chunk-consumed", "decoders read too little");
    c.ev("chunks_coded", 4);
}

// one writer object used for several files
VSCENARIO(reuse, 300, 5000) {
    WaveWriter w;
    WaveReader r;
    FOStream fo;
    std::string path = scratch(".re.wav");
    for (int k = 0; k < 3; ++k) {
        Plan p = plan(c);
        CharOStream o;
        bool file = c.r.chance(.4);
        fo.set_path(path);
        w.set_stream(file ? static_cast<BaseMOStream*>(&fo) : &o);
        configure(c, w, p.ch, p.rate, p.bits);
        w.start();
        for (auto& v : p.parts) w.write_data(buf(v, p.ch, p.rate));
        w.stop();
        if (file) o.get_array() = slurp(path);
        compare(o.get_array(), p.expect, file ? "reuse-file" : "reuse");
        CharIStream in; in.get_array() = o.get_array();
        r.set_stream(&in);
        r.start();
        int frames = p.played.size() / p.ch;
        if (frames) {
            // sometimes abandon a file half way
            int n = c.r.chance(.3) ? c.r.i(1, frames) : frames;
            r.set_buffer_size(n);
            auto b = r.get_data();
            for (int i = 0; i < n * p.ch; ++i) VCHECK(vh::close(b->at(i), p.played[i], 1e-12), "reuse-read", "use %d sample %d", k, i);
        }
        r.stop();
        c.ev("buffers_written", p.parts.size());
    }
    unlink(path.c_str());
}

// files too large for 16 and 24 bit sizes
VSCENARIO(large, 2, 24) {
    if (c.idx % (c.thorough ? 4 : 10)) { c.d("-"); return; }
    int ch = c.r.i(1, 5), bits = c.r.of({8, 16, 16}), bp = bits / 8;
    int64_t samples = c.r.range((int64_t(1) << 24) / bp, c.thorough && c.r.chance(.3) ? (int64_t(1) << 27) / bp : (int64_t(1) << 24) / bp + 900000) / ch * ch;
    c.d("large ch=%d bits=%d samples=%ld",  ch, bits, (long)samples);
    c.nontrivial = true;
    auto value = [&](int64_t i) { return (static_cast<int>(i * 7919 % 2001) - 1000) / 1000.; };
    CharOStream o;
    const bool file = c.r.chance(.5);
    FOStream fo;
    std::string path = file ? scratch(".large.wav") : "";
    fo.set_path(path);
    if (!file) o.get_array().reserve(samples * bp + 44);
    WaveWriter w(file ? static_cast<BaseMOStream*>(&fo) : &o);
    configure(c, w, ch, 48000, bits);
    w.start();
    for (int64_t at = 0; at < samples;) {
        int64_t n = std::min<int64_t>(c.r.range(1, 200000) * ch, samples - at);
        std::vector<double> v(n);
        for (int64_t i = 0; i < n; ++i) v[i] = value(at + i);
        w.write_data(buf(v, ch, 48000));
        at += n;
        c.beat();
        c.ev("buffers_written");
    }
    w.stop();
    if (file) { o.get_array() = slurp(path); unlink(path.c_str()); }
    const Bytes& g = o.get_array();
    VCHECK(static_cast<int64_t>(g.size()) == 44 + samples * bp, "large-length", "%zu bytes", g.size());
    Bytes e; le(e, 36 + samples * bp, 4);
    VCHECK(std::equal(e.begin(), e.end(), g.begin() + 4), "large-header", "RIFF size");
    e.clear(); le(e, samples * bp, 4);
    VCHECK(std::equal(e.begin(), e.end(), g.begin() + 40), "large-header", "data size");
    for (int64_t i = 0; i < samples; i += (i % 1000 == 0 ? 977 : 1)) {
        int code = bits == 16 ? enc16(value(i)) : enc8(value(i));
        int got = bits == 16 ? static_cast<int16_t>(g[44 + 2 * i] | g[45 + 2 * i] << 8) : g[44 + i];
        VCHECK(got == (bits == 16 ? static_cast<int16_t>(code) : code & 255), "large-sample", "sample %ld is %d", (long)i, got);
    }
    c.ev("bytes_compared", g.size() / 500);
    CharIStream in; in.get_array() = std::move(o.get_array());
    WaveReader r(&in);
    r.start();
    VCHECK(r.get_size() == 44 + samples * bp, "large-read", "size %ld", (long)r.get_size());
    int64_t at = 0;
    while (!r.done()) {
        int n = c.r.i(1, 300000);
        r.set_buffer_size(n);
        auto b = r.get_data();
        for (int64_t i = 0; i < static_cast<int64_t>(b->size()); i += 61) {
            int code = at + i < samples ? (bits == 16 ? static_cast<int16_t>(enc16(value(at + i))) : enc8(value(at + i))) : 0;
            double ex = at + i < samples ? (bits == 16 ? dec16(code) : dec8(code)) : 0.;
            VCHECK(vh::close(b->at(i), ex, 1e-12), "large-read", "sample %ld", (long)(at + i));
        }
        at += b->size();
        c.beat();
        c.ev("buffers_read");
    }
    VCHECK(at >= samples, "large-read", "%ld of %ld", (long)at, (long)samples);
}
// a recording of some hours: more than 2 GB, of which only the sizes and a sample here and there are kept
struct Tape : BaseMOStream {
    std::map<uint64_t, unsigned char> seen;     // the header
    uint64_t pos = 0, end = 0, wrong = 0, checked = 0;
    int bits = 16;
    static double value(uint64_t i) { return (static_cast<int>(i % 2001) - 1000) / 1000.; }
    void seek(int p) override { pos = p; }
    void write(char* b, int n) override {
        for (uint64_t i = pos; i < 44 && i < pos + n; ++i) seen[i] = b[i - pos];
        if (pos >= 44)
            for (uint64_t i = pos; i < pos + n; i += bits == 16 ? 4094 : 4093) {      // some of the samples
                const uint64_t at = bits == 16 ? (i - 44) / 2 : i - 44;
                if (bits == 16 && ((i - 44) % 2 || i + 1 >= pos + n)) break;
                const int got = bits == 16 ? static_cast<int16_t>(static_cast<unsigned char>(b[i - pos]) | b[i - pos + 1] * 256) : static_cast<unsigned char>(b[i - pos]);
                const int want = bits == 16 ? static_cast<int16_t>(enc16(value(at))) : enc8(value(at)) & 255;
                wrong += got != want;
                ++checked;
            }
        pos += n;
        end = std::max(end, pos);
    }
};
VSCENARIO(hours, 1, 4) {
    if (c.idx % 40) { c.d("-"); return; }
    const uint64_t bytes = c.thorough && c.r.chance(.5) ? c.r.range(uint64_t{1} << 31, (uint64_t{1} << 32) - (1 << 24)) : (uint64_t{1} << 31) + c.r.range(0, 1 << 22);
    const int ch = c.r.i(1, 6), bits = 16, bp = bits / 8;
    const uint64_t samples = bytes / bp / ch * ch;
    c.d("hours ch=%d samples=%lu ", ch, samples);
    c.nontrivial = true;
    Tape t;
    t.bits = bits;
    WaveWriter w(&t);
    configure(c, w, ch, 48000, bits);
    w.start();
    const uint64_t block = (1 << 20) / ch * ch;
    for (uint64_t at = 0; at < samples; at += block) {
        const uint64_t n = std::min(block, samples - at);
        auto b = std::make_unique<AudioBuffer>(static_cast<int>(n / ch), ch, 48000.);
        double* p = &b->at(0);
        for (uint64_t i = 0; i < n; ++i) p[i] = Tape::value(at + i);
        w.write_data(std::move(b));
        c.beat();
    }
    VCHECK(static_cast<uint32_t>(w.get_size()) == 44 + samples * bp, "hours-size", "size %ld after %lu bytes", (long)w.get_size(), 44 + samples * bp);
    w.stop();
    VCHECK(t.end == 44 + samples * bp, "hours-length", "%lu bytes, expected %lu", t.end, 44 + samples * bp);
    auto at = [&](int p) { return t.seen[p] | t.seen[p + 1] << 8 | t.seen[p + 2] << 16 | static_cast<uint32_t>(t.seen[p + 3]) << 24; };
    VCHECK(at(4) == 36 + samples * bp && at(40) == samples * bp, "hours-header", "sizes %u and %u in the header, %lu samples", at(4), at(40), samples);
    VCHECK(t.wrong == 0, "hours-sample", "%lu of %lu samples looked at are wrong", t.wrong, t.checked);
    c.ev("samples_compared", t.checked);
    c.ev("hours");
}
int main(int a, char** v) { return vh::main_impl(a, v); }
