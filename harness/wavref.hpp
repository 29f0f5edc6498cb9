// Independent reference for RIFF/WAVE bytes, used by the WAV harnesses.
#pragma once
#include <cmath>
#include <cstdint>
#include <fstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace wavref {
using Bytes = std::vector<unsigned char>;
inline void le(Bytes& b, uint32_t v, int n) { for (int i = 0; i < n; ++i) b.push_back(static_cast<unsigned char>(v >> (8 * i))); }
inline void tag(Bytes& b, const char* t) { b.insert(b.end(), t, t + 4); }
inline uint32_t rd(const Bytes& b, std::size_t o, int n) { uint32_t v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | b.at(o + i); return v; }
// code <-> value, written from the format definition
inline double dec16(int v) { return v < 0 ? v / 32768. : v / 32767.; }
inline double dec8(int u) { return u / 255. * 2. - 1.; }
inline int enc16(double x) { return static_cast<int>(x < 0 ? x * 32768. : x * 32767.); }
inline int enc8(double x) { return static_cast<int>(std::floor((x + 1) / 2 * 255. + .5)); }

struct Chunk {
    bool data;
    char id[5];
    Bytes body;
};
struct File {
    int channels = 1, rate = 44100, bits = 16, format = 1;
    Bytes ext;                       // bytes after the 16 standard format bytes
    std::vector<Chunk> chunks;
    Bytes after;                     // bytes behind the RIFF chunk
    std::vector<double> samples;     // what the file plays
    Bytes bytes;
    std::size_t audio_end = 0;       // offset behind the last audio byte
    std::vector<std::size_t> sample_end;  // offset behind each sample's bytes
    void build() {
        bytes.clear(); samples.clear(); sample_end.clear();
        tag(bytes, "RIFF"); le(bytes, 0, 4); tag(bytes, "WAVE");
        tag(bytes, "fmt "); le(bytes, 16 + ext.size(), 4);
        int bp = bits / 8;
        le(bytes, format, 2); le(bytes, channels, 2); le(bytes, rate, 4); le(bytes, rate * channels * bp, 4); le(bytes, channels * bp, 2); le(bytes, bits, 2);
        bytes.insert(bytes.end(), ext.begin(), ext.end());
        if (ext.size() % 2) bytes.push_back(0);
        for (auto& c : chunks) {
            tag(bytes, c.data ? "data" : c.id);
            le(bytes, c.body.size(), 4);
            if (c.data) {
                for (std::size_t i = 0; i + bp <= c.body.size(); i += bp) {
                    samples.push_back(bp == 2 ? dec16(static_cast<int16_t>(rd(c.body, i, 2))) : dec8(c.body[i]));
                    sample_end.push_back(bytes.size() + i + bp);
                }
                audio_end = bytes.size() + c.body.size();
            }
            bytes.insert(bytes.end(), c.body.begin(), c.body.end());
            if (c.body.size() % 2) bytes.push_back(0);
        }
        uint32_t sz = bytes.size() - 8;
        for (int i = 0; i < 4; ++i) bytes[4 + i] = static_cast<unsigned char>(sz >> (8 * i));
        bytes.insert(bytes.end(), after.begin(), after.end());
    }
};
template <class R> File random_file(R& r, bool odd8 = true, bool big = true) {
    File f;
    f.channels = r.chance(.005) ? r.of({127, 128, 255, 256, 300}) : r.chn(1, 6); f.rate = r.of({8000, 11025, 22050, 44100, 48000, 96000, 1, 192000, 65535, 65536, 384000, 768000, 2822400}); f.bits = r.chance(.5) ? 16 : 8;
    if (r.chance(.35)) { int n = r.of({2, 24, 4, 10, 3, 25, 80, 240, r.i(2, 257)}); for (int i = 0; i < n; ++i) f.ext.push_back(static_cast<unsigned char>(r.next())); f.ext[0] = n - 2; f.ext[1] = 0; }
    int n = r.i(1, 6);
    bool any = false;
    for (int i = 0; i < n; ++i) {
        Chunk c;
        c.data = r.chance(.55) || (i == n - 1 && !any);
        if (c.data) {
            any = true;
            int frames = r.chance(.1) ? 0 : big ? (r.chance(.006) ? r.of({32768, 33000, 70000}) / f.channels + 1 : r.sz(1, 40)) : r.i(1, 40);
            int samples = frames * f.channels;
            if (r.chance(.1)) samples = r.i(0, 40);   // a chunk may end inside a frame
            int len = samples * f.bits / 8;
            if (!odd8) len &= ~1;
            for (int k = 0; k < len; ++k) c.body.push_back(static_cast<unsigned char>(r.chance(.1) ? r.of({0, 127, 128, 255}) : r.next()));
        } else {
            do { for (int k = 0; k < 4; ++k) c.id[k] = "JUNKLISTfactbextcue dataDATA"[r.next() % 28]; } while (std::string(c.id, 4) == "data");
            c.id[4] = 0;
            int len = r.i(0, 50);
            if (r.chance(.1)) len = big && r.chance(.2) ? (r.chance(.2) ? r.of({65535, 65536, 65537, 70001, 131072, 200000}) : r.i(1000, 20000)) : r.i(200, 900);
            for (int k = 0; k < len; ++k) c.body.push_back(static_cast<unsigned char>(r.chance(.05) ? 'd' : r.next()));
        }
        f.chunks.push_back(c);
    }
    if (r.chance(.25)) { int k = r.i(1, 30); for (int i = 0; i < k; ++i) f.after.push_back(static_cast<unsigned char>(r.next())); }
    f.build();
    return f;
}
inline std::string scratch(const char* t) {
    static int n = 0;
    const char* d = getenv("VERIF_SCRATCH");
    return std::string(d ? d : ".") + "/w" + std::to_string(getpid()) + "_" + std::to_string(n++) + t;
}
inline void spit(const std::string& p, const Bytes& b) { std::ofstream f(p, std::ios::binary); f.write(reinterpret_cast<const char*>(b.data()), b.size()); }
inline Bytes slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
}  // namespace wavref
