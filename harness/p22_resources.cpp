// P22: what a part holds does not grow with what it plays or how often it is started, and all of it is given back with the part.
#include "vh.hpp"
#include <dirent.h>
#include <fstream>
#include <thread>
#include "parts.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static int entries(const char* dir) {
    int n = 0;
    DIR* d = opendir(dir);
    if (!d) return -1;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
static int files() { return entries("/proc/self/fd"); }
static int threads() { return entries("/proc/self/task"); }
static int settled(int want) {      // a joined thread may stay listed for a moment
    int n = threads();
    for (int i = 0; n > want && i < 2000; ++i) { usleep(1000); n = threads(); }
    return n;
}
static long bytes() { return static_cast<long>(__sanitizer_get_current_allocated_bytes()); }

struct Watch { long peak = 0, n = 0; long at[4] = {}; };
static void look(void* p) { auto* w = static_cast<Watch*>(p); const long b = bytes(); if (b > w->peak) w->peak = b; ++w->n; }

// the same sessions again and again: the memory held after a session, and at its peak, is what it was after the first ones
VSCENARIO(sessions, 300, 8000) {
    const int kind = static_cast<int>((c.idx + c.r.i(0, 1)) % parts::KINDS);
    const int rounds = c.r.i(4, 24), warm = 3, more = c.r.i(4, 12);
    vh::Rng r{c.r.next()};
    { auto p = parts::make(kind, r); p->session(4); }        // what the process acquires once
    r.s = c.r.next();
    c.d("kind=%d rounds=%d sessions=%d", kind, rounds, warm + more);
    c.ev("sessions", 0); c.ev("rounds_watched", 0);          // (the monitors' own memory is there before it is measured)
    const int f0 = files(), t0 = threads();
    const long b0 = bytes();
    auto p = parts::make(kind, r);
    c.nontrivial = true;
    const long slack = p->slack();
    long held = 0, peak = 0;
    Watch w;
    p->on = look; p->arg = &w;
    for (int k = 0; k < warm + more; ++k) {
        w.peak = 0;
        p->session(rounds);
        const long now = bytes();
        if (k < warm) { held = std::max(held, now); peak = std::max(peak, w.peak); }
        else {
            VCHECK(now <= held + slack, "grows", "%s holds %ld bytes after session %d, %ld after the first ones (slack %ld)", p->name(), now - b0, k + 1, held - b0, slack);
            VCHECK(w.peak <= peak + slack, "peak-grows", "%s holds up to %ld bytes in session %d, %ld in the first ones", p->name(), w.peak - b0, k + 1, peak - b0);
        }
        c.ev("sessions"); c.beat();
    }
    c.ev("rounds_watched", w.n);
    VCHECK(files() == f0, "files", "%s holds %d files after its sessions", p->name(), files() - f0);
    p.reset();
    VCHECK(bytes() <= b0 + (slack ? 4096 : 0), "leak", "%ld bytes are left of a %d after %d sessions of %d rounds", bytes() - b0, kind, warm + more, rounds);
    VCHECK(files() == f0, "files-left", "%d files are left open", files() - f0);
    VCHECK(settled(t0) == t0, "threads-left", "%d threads are left", threads() - t0);
}

// one long session: the memory held in a round is what it was after the first rounds
VSCENARIO(long_play, 120, 3000) {
    const int kind = c.r.of({0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 13});
    vh::Rng r{c.r.next()};
    { vh::Rng q = r; auto p = parts::make(kind, q); p->session(4); }
    const int rounds = c.thorough ? 2000 : 300;
    c.d("kind=%d rounds=%d", kind, rounds);
    c.ev("rounds_watched", 0);
    const long b0 = bytes();
    struct Steady { long n = 0, first = 0, last = 0, total; long at = 0; } st;
    auto p = parts::make(kind, r);
    c.nontrivial = true;
    st.total = rounds;
    p->arg = &st;
    p->on = [](void* a) { auto* s = static_cast<Steady*>(a); const long b = bytes(); if (++s->n <= s->total / 3) s->first = std::max(s->first, b); else if (b > s->last) { s->last = b; s->at = s->n; } };
    p->session(rounds);
    VCHECK(st.last <= st.first + p->slack(), "round-grows", "%s holds %ld bytes in round %ld, at most %ld in the first %d", p->name(), st.last - b0, st.at, st.first - b0, rounds / 3);
    c.ev("rounds_watched", rounds);
    const long slack = p->slack();
    p.reset();
    VCHECK(bytes() <= b0 + (slack ? 4096 : 0), "leak-long", "%ld bytes are left", bytes() - b0);
}

// parts that are never stopped, never started, or whose streams cannot be opened, are given back too
VSCENARIO(abandoned, 300, 8000) {
    const int kind = static_cast<int>((c.idx + c.r.i(0, 1)) % parts::KINDS);
    vh::Rng r{c.r.next()};
    { vh::Rng q = r; auto p = parts::make(kind, q); p->session(2); }
    const int how = c.r.i(0, 2), rounds = c.r.i(0, 5);
    c.d("kind=%d how=%d rounds=%d", kind, how, rounds);
    c.ev("abandoned", 0);
    const int f0 = files(), t0 = threads();
    const long b0 = bytes();
    bool slack;
    {
        auto p = parts::make(kind, r);
        slack = p->slack() != 0;
        p->whole = false;
        c.nontrivial = true;
        if (how) { p->session(rounds); if (how == 2) p->session(rounds); }
        c.ev("abandoned");
    }
    VCHECK(bytes() <= b0 + (slack ? 4096 : 0), "abandoned-leak", "%ld bytes are left of a part of kind %d", bytes() - b0, kind);
    VCHECK(files() == f0, "abandoned-files", "%d files are left open", files() - f0);
    VCHECK(settled(t0) == t0, "abandoned-threads", "%d threads are left", threads() - t0);
}

// what an object holds when it is assigned to is given back; moved-from objects hold nothing of it
VSCENARIO(assigned, 300, 8000) {
    vh::Rng& r = c.r;
    auto warm = [&] { ModSineOscillator a(3.), b(4.); a = std::move(b); };
    warm();
    const int kind = r.i(0, 5), n = r.i(1, 12);
    c.d("assign kind=%d n=%d", kind, n);
    c.ev("assignments", 0);
    const long b0 = bytes();
    c.nontrivial = n > 1;
    long after_first = 0;
    {
        auto step = [&](int k, auto&& f) { f(); const long now = bytes(); if (k == 1) after_first = now; else if (k > 1) VCHECK(now <= after_first, "assign-grows", "%ld bytes held after %d assignments, %ld after two", now - b0, k + 1, after_first - b0); c.ev("assignments"); };
        switch (kind) {
            case 0: { ModSineOscillator a(3.); for (int k = 0; k < n; ++k) step(k, [&] { a = ModSineOscillator(5. + k); }); break; }
            case 1: { ModuleParam p(1.); for (int k = 0; k < n; ++k) step(k, [&] { p.set_constant(k); }); for (int k = 0; k < n; ++k) step(k + 1, [&] { p = ModuleParam(2. + k); }); break; }
            case 2: { AudioBuffer a(50, 2); for (int k = 0; k < n; ++k) step(k, [&] { AudioBuffer q(50, 2); if (k % 2) a = q; else a = std::move(q); }); break; }
            case 3: { dsp::iir::IIRFilter<double> f(4, 3); for (int k = 0; k < n; ++k) step(k, [&] { f.set_asize(5); f.set_asize(4); dsp::iir::IIRFilter<double> g(f); f = g; }); break; }
            case 4: { struct F : BaseConvFilter<> {} f; for (int k = 0; k < n; ++k) step(k, [&] { f.set_kernel(std::make_unique<AudioBuffer>(31, 1)); if (k % 3 == 2) f.get_kernel(), f.set_kernel(std::make_unique<AudioBuffer>(31, 1)); }); break; }
            default: {
                Collection<int> col;
                for (int k = 0; k < n; ++k) step(k, [&] { for (int i = 0; i < 3; ++i) { auto p = std::make_unique<int>(i); col.add_object(p); } if (k % 2) col.clear(); else while (col.num_objects()) col.free_object(col.num_objects() - 1); });
            }
        }
    }
    VCHECK(bytes() <= b0, "assign-leak", "%ld bytes are left", bytes() - b0);
}
// stopping gives the file back at once, and what was written is there for others to read
VSCENARIO(stopped, 300, 6000) {
    const int n = c.r.i(1, 12), how = c.r.i(0, 2);
    const std::string path = parts::scratch();
    c.d("streams stopped n=%d how=%d", n, how);
    c.nontrivial = n > 1;
    c.ev("files_stopped", 0);
    const int f0 = files();
    auto length = [&] { std::ifstream s(path, std::ios::ate | std::ios::binary); return static_cast<long>(s.tellg()); };
    std::vector<std::unique_ptr<FOStream>> os; std::vector<std::unique_ptr<FIStream>> is;
    std::vector<std::unique_ptr<WaveWriter>> ws; std::vector<std::unique_ptr<WaveSource>> rs;
    for (int k = 0; k < n; ++k) {                  // the streams live on, stopped
        os.push_back(std::make_unique<FOStream>()); is.push_back(std::make_unique<FIStream>());
        auto& o = *os.back(); auto& i = *is.back();
        o.set_path(path); i.set_path(path);
        if (how == 0) {
            const int len = c.r.i(0, 3000);
            std::vector<char> b(len + 1, 'x');
            o.start(); o.write(b.data(), len); o.stop();
            VCHECK(files() == f0, "stop-keeps-file", "%d files are open after stream %d of %d was stopped", files() - f0, k + 1, n);
            VCHECK(length() == len, "stop-not-written", "%ld of %d bytes are in the file when the stream is stopped", length(), len);
            i.start(); i.read(b.data(), c.r.chance(.5) ? len + 1 : len / 2); i.stop();
        } else {
            const int fr = c.r.i(1, 200);
            ws.push_back(std::make_unique<WaveWriter>(&o)); rs.push_back(std::make_unique<WaveSource>(&i));
            ws.back()->set_channels(1); ws.back()->set_bits_per_sample(16); ws.back()->set_samplerate(8000);
            ws.back()->start(); ws.back()->write_data(std::make_unique<AudioBuffer>(fr, 1)); ws.back()->stop();
            VCHECK(files() == f0, "stop-keeps-file", "%d files are open after writer %d of %d was stopped", files() - f0, k + 1, n);
            VCHECK(length() == 44 + 2 * fr, "stop-not-written", "%ld of %d bytes are in the file when the writer is stopped", length(), 44 + 2 * fr);
            SinkModule<> s; s.get_chain_info()->buffer_size = c.r.i(1, 50); s.get_chain_info()->channels = 1;
            s.link(rs.back().get()); s.meta_info_sync(); s.meta_start();
            for (int q = c.r.i(0, how == 1 ? 3 : 300); q > 0 && !rs.back()->WaveReader::done(); --q) s.meta_process();
            s.meta_stop();
        }
        VCHECK(files() == f0, "stop-keeps-file", "%d files are open after reader %d of %d was stopped", files() - f0, k + 1, n);
        c.ev("files_stopped", 2);
    }
    unlink(path.c_str());
}
int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
