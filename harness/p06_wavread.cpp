// P06: the WAV reader delivers exactly the samples of a valid file, however it is laid out and however it is read.
#include "vh.hpp"
#include <cstring>
#include <memory>
#include "wavref.hpp"
#include "amp_module.hpp"
#include "io/wav.hpp"
using namespace wavref;

struct In {
    CharIStream mem;
    FIStream fi;
    BaseMIStream* s;
    std::string path;
    In(const Bytes& b, bool file) {
        if (file) { path = scratch(".wav"); spit(path, b); fi.set_path(path); s = &fi; }
        else { mem.get_array() = b; s = &mem; }
    }
    ~In() { if (!path.empty()) unlink(path.c_str()); }
};
static void describe(vh::Case& c, const File& f) {
    c.d("ch=%d rate=%d bits=%d ext=%zu after=%zu chunks=", f.channels, f.rate, f.bits, f.ext.size(), f.after.size());
    for (auto& k : f.chunks) c.d("%s:%zu,", k.data ? "data" : k.id, k.body.size());
    c.fold(vh::hstr(std::string(f.bytes.begin(), f.bytes.end())));
    c.nontrivial = f.samples.size() > 1;
}
// reading may go on once after the last sample to find that only other chunks follow (or that there is no audio at all), otherwise it ends with it
static int extra_reads(const File& f) {
    return f.samples.empty() || f.chunks.empty() || !f.chunks.back().data || f.chunks.back().body.empty() ? 1 : 0;
}
static void formats(WaveReader& r, const File& f) {
    VCHECK(r.get_channels() == f.channels && r.get_samplerate() == f.rate && r.get_bits_per_sample() == f.bits && r.get_bytes_per_sample() == f.bits / 8 &&
               r.get_blockalign() == f.channels * f.bits / 8 && r.get_byterate() == f.rate * f.channels * (f.bits / 8) && r.get_format() == f.format,
           "format", "ch %d rate %d bits %d align %d byterate %d", r.get_channels(), r.get_samplerate(), r.get_bits_per_sample(), r.get_blockalign(), r.get_byterate());
    VCHECK(static_cast<std::size_t>(r.get_size()) == f.bytes.size() - f.after.size(), "size", "%ld of %zu", (long)r.get_size(), f.bytes.size());
}

VSCENARIO(read_any_layout, 2500, 60000) {
    File f = random_file(c.r);
    describe(c, f);
    bool file = c.r.chance(.4);
    int fixed = c.r.chance(.4) ? c.r.sz(1, 50) : 0;
    if (c.r.chance(.1)) fixed = 1 + static_cast<int>(f.samples.size()) / f.channels;
    c.d(" via=%s buffer=%d", file ? "file" : "memory", fixed);
    In in(f.bytes, file);
    WaveReader r;
    if (c.r.chance(.5)) r = WaveReader(in.s); else r.set_stream(in.s);
    r.start();
    formats(r, f);
    std::size_t at = 0;
    int late = 0;
    for (int guard = 0; !r.done() && guard < 200000; ++guard) {
        int n = fixed ? fixed : c.r.sz(1, 30);
        r.set_buffer_size(n);
        VCHECK(r.get_buffer_size() == n, "buffer-size", "%d", n);
        if (at >= f.samples.size()) ++late;
        auto b = r.get_data();
        VCHECK(b && static_cast<int>(b->size()) == n * f.channels && b->channels() == f.channels && b->get_samplerate() == f.rate, "buffer-shape",
               "size %zu channels %d rate %g", b->size(), (int)b->channels(), b->get_samplerate());
        for (std::size_t i = 0; i < b->size(); ++i, ++at) {
            double e = at < f.samples.size() ? f.samples[at] : 0.;
            VCHECK(vh::close(b->at(i), e, 1e-12), at < f.samples.size() ? "sample" : "fill", "sample %zu of %zu is %.17g expected %.17g", at, f.samples.size(), b->at(i), e);
        }
        c.ev("buffers_read");
        c.ev("samples_compared", b->size());
        if (late) c.ev("trailing_chunk_reads");
    }
    VCHECK(at >= f.samples.size(), "complete", "done after %zu of %zu samples", at, f.samples.size());
    VCHECK(r.done() && late <= extra_reads(f), "done", "done %d after %d extra reads", (int)r.done(), late);
    VCHECK(in.s->get_state() == BaseMIStream::stopped, "stream-stopped", "state %d", (int)in.s->get_state());
    // reading on past the end gives silence of the right shape
    r.set_buffer_size(7);
    auto b = r.get_data();
    VCHECK(static_cast<int>(b->size()) == 7 * f.channels, "after-shape", "%zu", b->size());
    for (std::size_t i = 0; i < b->size(); ++i) VCHECK(b->at(i) == 0, "after-silence", "sample %zu is %g", i, b->at(i));
}

// two different ways to cut the same file give the same audio
VSCENARIO(partition, 600, 15000) {
    File f = random_file(c.r);
    describe(c, f);
    std::vector<double> got[2];
    for (int k = 0; k < 2; ++k) {
        In in(f.bytes, k == 1 && c.r.chance(.5));
        WaveReader r(in.s);
        r.start();
        std::size_t frames = f.samples.size() / f.channels;
        for (std::size_t left = frames; left > 0;) {
            std::size_t n = k == 0 ? left : std::min<std::size_t>(left, c.r.sz(1, 20));
            r.set_buffer_size(n);
            auto b = r.get_data();
            got[k].insert(got[k].end(), b->ibegin(), b->iend());
            left -= n;
            c.ev("buffers_read");
        }
        r.stop();
        VCHECK(in.s->bad(), "stop", "stream good after stop");
    }
    VCHECK(got[0] == got[1], "partition", "different audio with another buffer size");
}

// a reader that is started again plays the file from its beginning, or another one
VSCENARIO(again, 800, 15000) {
    const int runs = c.r.i(2, 4);
    File f = random_file(c.r, true, false);
    WaveReader r;
    std::unique_ptr<In> in;
    bool same = false;
    for (int k = 0; k < runs; ++k) {
        if (!same) {
            if (k) f = random_file(c.r, true, false);
            const bool file = c.r.chance(.4);
            auto next = std::make_unique<In>(f.bytes, file);
            r.set_stream(next->s);
            VCHECK(r.get_stream() == next->s, "stream", "another stream than the one set");
            in = std::move(next);
            c.d("| %s ", file ? "file" : "memory");
            describe(c, f);
        } else if (in->s == &in->mem) in->mem.seek(0);
        r.start();
        formats(r, f);
        VCHECK(!r.done(), "restarted", "done at once (run %d)", k);
        const std::size_t stop = k + 1 == runs || c.r.chance(.3) ? f.samples.size() + 1 : c.r.next() % (f.samples.size() + 1);   // often in the middle of a chunk
        std::size_t at = 0;
        const int fixed = c.r.chance(.5) ? c.r.sz(1, 50) : 0;
        for (int guard = 0; !r.done() && at < stop && guard < 200000; ++guard) {
            r.set_buffer_size(fixed ? fixed : c.r.i(1, 30));
            auto b = r.get_data();
            for (std::size_t i = 0; i < b->size(); ++i, ++at) {
                const double e = at < f.samples.size() ? f.samples[at] : 0.;
                VCHECK(vh::close(b->at(i), e, 1e-12), "again-sample", "run %d sample %zu of %zu is %.17g expected %.17g", k, at, f.samples.size(), b->at(i), e);
            }
            c.ev("samples_compared", b->size());
        }
        if (stop > f.samples.size()) VCHECK(r.done() && at >= f.samples.size(), "again-done", "run %d: done %d after %zu of %zu samples", k, (int)r.done(), at, f.samples.size());
        same = c.r.chance(.7);
        r.stop();
        VCHECK(in->s->bad(), "stop", "stream good after stop");
        c.ev("restarts");
        c.d(same ? "again " : "other ");
    }
}

class Collector : public SinkModule<> {
public:
    std::vector<double> got;
    int channels = 0;
    double rate = 0;
    void process() override {
        channels = buff.channels(); rate = buff.get_samplerate();
        got.insert(got.end(), buff.ibegin(), buff.iend());
    }
};
// the file as the source of a chain
VSCENARIO(wave_source, 600, 15000) {
    File f = random_file(c.r);
    describe(c, f);
    In in(f.bytes, c.r.chance(.4));
    WaveSource src(in.s);
    int n = c.r.sz(1, 40);
    double k = c.r.chance(.5) ? 1 : c.r.real(-2, 2);
    AmplitudeScale<> amp(k);
    Collector sink;
    sink.get_chain_info()->buffer_size = n;
    sink.link(&amp)->link(&src);
    sink.meta_info_sync();
    sink.meta_start();
    VCHECK(src.get_info()->channels == f.channels && src.get_info()->sample_rate == f.rate, "source-info", "channels %d rate %g", src.get_info()->channels, src.get_info()->sample_rate);
    int late = 0;
    const bool resize = c.r.chance(.4);
    while (!src.WaveReader::done() && late < 3) {
        if (sink.got.size() >= f.samples.size()) ++late;
        if (resize && c.r.chance(.2)) {
            n = c.r.sz(1, 40);
            sink.get_chain_info()->buffer_size = n;
            sink.meta_info_sync();
            c.ev("resized");
        }
        const std::size_t before = sink.got.size();
        sink.meta_process();
        VCHECK(sink.got.size() - before == static_cast<std::size_t>(n * f.channels), "source-block", "%zu samples for %d frames", sink.got.size() - before, n);
        VCHECK(sink.channels == f.channels && sink.rate == f.rate, "source-shape", "channels %d rate %g", sink.channels, sink.rate);
        c.ev("chain_rounds");
    }
    VCHECK(late <= extra_reads(f), "done", "%d extra rounds", late);
    VCHECK(sink.got.size() >= f.samples.size(), "complete", "%zu of %zu", sink.got.size(), f.samples.size());
    for (std::size_t i = 0; i < sink.got.size(); ++i) {
        double e = i < f.samples.size() ? f.samples[i] * k : 0;
        VCHECK(vh::close(sink.got[i], e, 1e-12), "source-sample", "sample %zu is %.17g expected %.17g", i, sink.got[i], e);
    }
    if (c.r.chance(.5)) {
        VCHECK(sink.get_chain_info()->module_finish == 0, "done-early", "%d modules done before they were asked to finish", sink.get_chain_info()->module_finish);
        sink.meta_finish();
        VCHECK(src.get_state() == BaseModule::State::Finished && sink.get_chain_info()->module_finish == 3, "done-once", "state %d, %d modules done of 3", (int)src.get_state(), sink.get_chain_info()->module_finish);
        c.ev("sources_finished");
    }
    sink.meta_stop();
    VCHECK(src.get_state() == BaseModule::State::Stopped, "stopped", "state %d", (int)src.get_state());
    VCHECK(in.s->bad(), "stop", "stream good after the chain stopped");
    c.ev("samples_compared", sink.got.size());
}
// a recording of some hours, of which nothing is kept: the bytes are made up as they are read
struct Reel : BaseMIStream {
    Bytes head;             // up to and including the data chunk's header, the junk chunk's bytes left out
    uint64_t pos = 0, junk_at = 0, junk = 0;
    static int value(uint64_t i) { return static_cast<int>(i % 60013) - 30000; }
    void seek(int p) override { pos = p; }
    std::vector<char> period;
    void read(char* b, int n) override {
        if (period.empty())
            for (int i = 0; i < 2 * 60013; ++i) period.push_back(static_cast<char>(value(i / 2) >> (i % 2 * 8)));
        while (n > 0) {
            uint64_t k = 1;
            if (pos < junk_at) *b = head[pos];
            else if (pos < junk_at + junk) { k = std::min<uint64_t>(n, junk_at + junk - pos); memset(b, 0x55, k); }
            else if (pos < head.size() + junk) *b = head[pos - junk];
            else {
                const uint64_t at = (pos - head.size() - junk) % period.size();
                k = std::min<uint64_t>(n, period.size() - at);
                memcpy(b, &period[at], k);
            }
            pos += k; b += k; n -= static_cast<int>(k);
        }
    }
};
VSCENARIO(hours, 2, 8) {
    if (c.idx % 40) { c.d("-"); return; }
    const int ch = c.r.i(1, 6);
    const uint64_t limit = (uint64_t{1} << 32) - 100;
    const bool mostly_junk = c.idx == 40 || c.r.chance(.3);      // the other chunk is the large one
    uint64_t bytes = mostly_junk ? c.r.range(1, 1 << 20) : c.thorough && c.r.chance(.5) ? c.r.range(uint64_t{1} << 31, limit - (1 << 24)) : (uint64_t{1} << 31) + c.r.range(0, 1 << 22);
    const uint64_t samples = (bytes / 2 / ch + 1) * ch;
    bytes = samples * 2;
    Reel t;
    auto put = [&](const char* s) { t.head.insert(t.head.end(), s, s + 4); };
    auto u32 = [&](uint64_t v) { for (int i = 0; i < 4; ++i) t.head.push_back(static_cast<char>(v >> 8 * i)); };
    auto u16 = [&](int v) { for (int i = 0; i < 2; ++i) t.head.push_back(static_cast<char>(v >> 8 * i)); };
    t.junk = c.r.range(mostly_junk ? uint64_t{1} << 30 : 0, (limit - bytes) / 2) * 2;
    put("RIFF"); u32(36 + 8 + t.junk + bytes); put("WAVE"); put("fmt "); u32(16); u16(1); u16(ch); u32(48000); u32(48000 * ch * 2); u16(ch * 2); u16(16);
    put("LIST"); u32(t.junk); t.junk_at = t.head.size(); put("data"); u32(bytes);
    c.d("hours ch=%d samples=%lu junk=%lu ", ch, samples, t.junk);
    c.nontrivial = true;
    WaveReader r(&t);
    r.start();
    VCHECK(static_cast<uint32_t>(r.get_size()) == 44 + 8 + t.junk + bytes, "hours-size", "size %ld", (long)r.get_size());
    uint64_t at = 0, wrong = 0, checked = 0;
    const int block = c.r.i(1 << 17, 1 << 19) / ch;
    r.set_buffer_size(block);
    while (!r.done() && at < samples) {
        auto b = r.get_data();
        VCHECK(b->size() == static_cast<std::size_t>(block) * ch, "hours-shape", "%zu", b->size());
        const double* p = &b->at(0);
        for (std::size_t i = 0; i < b->size(); i += i + 97 < b->size() ? 97 : 1) {        // some of them, and the last ones
            const double want = at + i < samples ? dec16(static_cast<int16_t>(Reel::value(at + i))) : 0.;
            wrong += !vh::close(p[i], want, 1e-12);
            ++checked;
        }
        VCHECK(wrong == 0, "hours-sample", "%lu of %lu samples looked at are wrong, before sample %lu", wrong, checked, at + b->size());
        at += b->size();
        c.beat();
    }
    VCHECK(at >= samples && r.done(), "hours-end", "%lu of %lu samples, done %d", at, samples, r.done());
    c.ev("samples_compared", checked);
    c.ev("hours");
}
int main(int a, char** v) { return vh::main_impl(a, v); }
