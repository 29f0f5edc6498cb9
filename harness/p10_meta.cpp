// P10: meta modules: uniform re-blocking loses and invents nothing, counters and latency statistics add up, constants and repeated
// buffers are delivered as given, module parameters follow the module they belong to.
#include "vh.hpp"
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <memory>
#include <type_traits>
#include "amp_module.hpp"
#include "fund_oscillator.hpp"
#include "meta_audio.hpp"
#include "module_param.hpp"
#include "sink_module.hpp"
using St = BaseModule::State;

// emits a running counter in blocks of changing length
struct Blocks : SourceModule {
    vh::Rng* r = nullptr; long n = 0, calls = 0; int lo = 0, hi = 0; bool empty = false; long last = 0; int starts = 0, stops = 0;
    void process() override {
        ++calls;
        reserve();
        int frames = empty && r->chance(.2) ? 0 : lo < 0 ? get_info()->out_buffer : r->i(lo, hi);
        buff.resize(frames * get_info()->channels);
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = static_cast<double>(n++);
        last = buff.size();
    }
    void start() override { ++starts; }
    void stop() override { ++stops; }
};
struct Snk : SinkModule<> {
    std::vector<double> got; int ch = 0; double rate = 0;
    void process() override { got.assign(buff.ibegin(), buff.iend()); ch = buff.channels(); rate = buff.get_samplerate(); }
};
static void conf(ChainInfo* ci, int bs, int ch, double rate) { ci->buffer_size = bs; ci->channels = ch; ci->sample_rate = rate; }

VSCENARIO(uniform, 1500, 40000) {
    int bs = c.r.sz(1, 40), ch = c.r.chn(1, 4);
    Blocks src; src.r = &c.r; src.lo = c.r.i(1, 10); src.hi = src.lo + (c.r.chance(.3) ? 0 : c.r.i(0, 80)); src.empty = c.r.chance(.2);
    UniformBuffer u;
    Snk s;
    s.link(&u)->link(&src);
    conf(s.get_chain_info(), bs, ch, 8000);
    s.meta_info_sync();
    s.meta_start();
    c.d("out=%d ch=%d in=%d..%d empty=%d", bs, ch, src.lo, src.hi, (int)src.empty);
    c.nontrivial = bs > 1;
    double next = 0;
    for (int k = c.r.i(1, 12); k > 0; --k) {
        if (c.r.chance(.15)) { bs = c.r.sz(1, 40); s.get_chain_info()->buffer_size = bs; s.meta_info_sync(); }
        s.meta_process();
        VCHECK(s.got.size() == static_cast<std::size_t>(bs * ch) && s.ch == ch && s.rate == 8000, "uniform-shape", "%zu samples of %d channels", s.got.size(), s.ch);
        for (double v : s.got) { VCHECK(v == next, "uniform-value", "%g expected %g", v, next); ++next; }
        VCHECK(src.n - next < std::max(1l, src.last), "uniform-overpull", "%ld pulled for %g delivered, last block %ld", src.n, next, src.last);
        c.ev("uniform_samples", s.got.size());
    }
}
VSCENARIO(counter, 600, 15000) {
    int bs = c.r.sz(0, 40), ch = c.r.chn(1, 5);
    Blocks src; src.r = &c.r; src.lo = c.r.chance(.5) ? -1 : 0; src.hi = 50;
    Counter k;
    Snk s;
    s.link(&k)->link(&src);
    conf(s.get_chain_info(), bs, ch, 8000);
    s.meta_info_sync();
    c.d("bs=%d ch=%d lo=%d", bs, ch, src.lo);
    c.nontrivial = true;
    long from = 0; int n = 0;
    for (int i = c.r.i(1, 12); i > 0; --i) {
        if (c.r.chance(.15)) { k.reset(); from = src.n; n = 0; VCHECK(k.samples() == 0 && k.processed() == 0, "reset", "%ld %ld", (long)k.samples(), (long)k.processed()); }
        long before = src.n;
        s.meta_process();
        ++n;
        VCHECK(k.processed() == n, "processed", "%ld of %d", (long)k.processed(), n);
        VCHECK(k.samples() == src.n - from, "samples", "%ld of %ld", (long)k.samples(), src.n - from);
        VCHECK(s.got.size() == static_cast<std::size_t>(src.n - before), "pass", "%zu", s.got.size());
        for (double v : s.got) VCHECK(v == before++, "pass-value", "%g", v);
        c.ev("counter_rounds");
    }
}
// what has run for hours: more samples than fit an int
VSCENARIO(counter_hours, 4, 40) {
    const int ch = c.r.chn(1, 6), per = c.r.i(1 << 21, 1 << 22) / ch;
    c.nontrivial = true;
    Counter k;
    k.set_buffer(AudioBuffer(per, ch, 48000.));
    const int64_t size = static_cast<int64_t>(per) * ch, rounds = c.r.range(int64_t{1} << 31, int64_t{1} << 33) / size + 1;
    c.d("ch=%d per=%d rounds=%ld", ch, per, static_cast<long>(rounds));
    for (int64_t i = 1; i <= rounds; ++i) {
        k.process();
        VCHECK(k.processed() == i && k.samples() == i * size, "hours", "%ld rounds of %ld, %ld samples counted", (long)k.processed(), (long)i, (long)k.samples());
    }
    k.reset();
    VCHECK(k.processed() == 0 && k.samples() == 0, "hours-reset", "%ld %ld", (long)k.processed(), (long)k.samples());
    c.ev("counter_long_runs");
}
struct Hooked : LatencyModule { int calls = 0; std::size_t saw = 0; void process() override { ++calls; saw = buff.size(); } };
struct Slow : SourceModule {
    long busy = 0, start_t = 0, took = 0;
    void process() override {
        reserve();
        start_t = ::get_time();
        while (::get_time() - start_t < busy) {}
        took = ::get_time() - start_t;
    }
};
VSCENARIO(latency, 300, 3000) {
    int bs = c.r.sz(0, 400), ch = c.r.chn(1, 5), rate = c.r.of({44100, 8000, 48000, 96000, 7});
    Slow src; src.busy = c.r.i(0, 30000);
    Hooked l;
    Snk s;
    s.link(&l)->link(&src);
    conf(s.get_chain_info(), bs, ch, rate);
    s.meta_info_sync();
    c.d("bs=%d ch=%d rate=%d busy=%ld", bs, ch, rate, src.busy);
    c.nontrivial = ch > 1;
    VCHECK(l.average_time() == 0 && l.average_latency() == 0 && l.time() == 0 && l.latency() == 0 && l.total_time() == 0 && l.expected() == 0, "fresh", "statistics of nothing are not zero");
    long t0 = get_time();
    s.meta_start();
    VCHECK(l.get_start_time() >= t0 && l.get_start_time() <= get_time(), "start-time", "%ld", (long)l.get_start_time());
    int64_t total = 0, sum = 0, frame = 1000000000 / rate;
    int n = 0, hooked = 0, counted = 0;
    bool mixed = false;         // the audio counted so far had more than one format: only rounds have an expected time of their own
    for (int i = c.r.i(1, 6); i > 0; --i) {
        if (n && c.r.chance(.15)) {
            bs = c.r.sz(0, 400); ch = c.r.chn(1, 5); rate = c.r.of({44100, 8000, 48000, 96000, 7});
            frame = 1000000000 / rate;
            conf(s.get_chain_info(), bs, ch, rate);
            s.meta_info_sync();
            c.d(" to %dx%d at %d", bs, ch, rate);
            c.ev("formats_changed");
            mixed = true;
        }
        if (n && c.r.chance(.15)) {
            const long now = get_time();
            l.reset();
            total = sum = 0; n = counted = 0;
            mixed = false;
            VCHECK(l.get_start_time() >= now && l.get_start_time() <= get_time(), "reset-time", "start time not set to now");
            VCHECK(l.average_time() == 0 && l.average_latency() == 0 && l.time() == 0 && l.latency() == 0 && l.total_time() == 0 && l.expected() == 0 && l.sum_latency() == 0 &&
                       l.total_latency() == 0 && l.processed() == 0 && l.samples() == 0, "reset", "statistics left after reset: processed %ld", (long)l.processed());
        }
        long a = get_time();
        s.meta_process();
        long b = get_time() - a;
        ++n;
        VCHECK(l.time() >= src.took && l.time() <= b, "time", "measured %ld, module took %ld, round took %ld", (long)l.time(), src.took, b);
        total += l.time();
        int64_t want = static_cast<int64_t>(bs) * frame;
        VCHECK(l.latency() == l.time() - want, "latency", "latency %ld for %ld, expected audio time %ld", (long)l.latency(), (long)l.time(), (long)want);
        sum += l.latency();
        VCHECK(l.total_time() == total && l.sum_latency() == sum, "totals", "%ld %ld", (long)l.total_time(), (long)l.sum_latency());
        if (!mixed) VCHECK(l.expected() == n * want, "expected", "%ld after %d rounds of %ld", (long)l.expected(), n, (long)want);
        VCHECK(l.total_latency() == total - l.expected(), "total-latency", "%ld", (long)l.total_latency());
        counted += bs * ch;
        VCHECK(l.average_time() == total / n && l.average_latency() == sum / n, "averages", "%ld %ld", (long)l.average_time(), (long)l.average_latency());
        VCHECK(l.processed() == n && l.samples() == counted, "counts", "%ld %ld", (long)l.processed(), (long)l.samples());
        VCHECK(l.elapsed() >= 0 && l.elapsed() <= get_time() - l.get_start_time(), "elapsed", "%ld", (long)l.elapsed());
        VCHECK(++hooked == l.calls && l.saw == static_cast<std::size_t>(bs * ch), "hook", "process called %d times in %d rounds, saw %zu samples", l.calls, hooked, l.saw);
        c.ev("latency_rounds");
    }
}
// A clock that stands still unless told otherwise: what every measurement must be is known to the nanosecond. It replaces
// clock_gettime, on which every clock of the standard library is based; where a clock is not, the scenario has nothing to say.
static bool g_frozen = false;
static int64_t g_now = 0;
extern "C" int clock_gettime(clockid_t id, timespec* ts) noexcept {
    if (!g_frozen) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    ts->tv_sec = g_now / 1000000000;
    ts->tv_nsec = g_now % 1000000000;
    return 0;
}
struct Frozen {
    explicit Frozen(int64_t at) { g_now = at; g_frozen = true; }
    ~Frozen() { g_frozen = false; }
};
struct Timed : SourceModule {
    int64_t took = 0;
    void process() override { reserve(); g_now += took; }
};
struct Late : LatencyModule { int64_t after = 0; void process() override { g_now += after; } };
VSCENARIO(latency_exact, 1500, 30000) {
    Frozen frozen(c.r.range(1, int64_t{1} << 50));
    const int64_t t = ::get_time();
    g_now += 12345;
    if (::get_time() != t + 12345) { c.ev("clock_not_replaced"); return; }
    int bs = c.r.sz(0, 400), ch = c.r.chn(1, 5);
    const int rate = c.r.of({44100, 8000, 48000, 96000, 7});
    Timed src;
    Late l;
    Snk s;
    s.link(&l)->link(&src);
    conf(s.get_chain_info(), bs, ch, rate);
    s.meta_info_sync();
    c.d("bs=%d ch=%d rate=%d ", bs, ch, rate);
    c.nontrivial = true;
    int64_t began = ::get_time();
    s.meta_start();
    VCHECK(l.get_start_time() == began, "start-time-exact", "%ld, started at %ld", (long)l.get_start_time(), (long)began);
    const int64_t frame = 1000000000 / rate;
    int64_t total = 0, sum = 0, audio = 0;
    int n = 0;
    const int scale = c.r.i(0, 3);
    for (int i = c.r.chance(.05) ? c.r.i(20, 300) : c.r.i(1, 12); i > 0; --i) {
        if (c.r.chance(.2)) { conf(s.get_chain_info(), bs = c.r.sz(0, 400), ch, rate); s.meta_info_sync(); }
        if (c.r.chance(.1)) {
            began = ::get_time();
            if (c.r.chance(.5)) { l.reset(); total = sum = audio = 0; n = 0; }
            else s.meta_start();
            VCHECK(l.get_start_time() == began, "start-time-exact", "%ld, started at %ld", (long)l.get_start_time(), (long)began);
        }
        if (c.r.chance(.3)) g_now += c.r.range(0, 1000000);          // the user does something else
        l.after = c.r.chance(.5) ? c.r.range(0, 100000) : 0;
        src.took = c.r.chance(.1) ? 0 : scale == 0 ? c.r.range(0, 50) : scale == 1 ? c.r.range(0, 3000) : scale == 2 ? c.r.range(0, 100000000) : c.r.range(0, int64_t{20} * 1000000000);
        s.meta_process();
        ++n;
        const int64_t play = bs * frame;
        total += src.took;
        sum += src.took - play;
        audio += play;
        VCHECK(l.time() == src.took, "time-exact", "%ld measured, the module took %ld", (long)l.time(), (long)src.took);
        VCHECK(l.total_time() == total, "total-exact", "%ld in total, the module took %ld", (long)l.total_time(), (long)total);
        VCHECK(l.latency() == src.took - play && l.sum_latency() == sum && l.expected() == audio && l.total_latency() == total - audio, "latency-exact",
               "latency %ld sum %ld expected %ld total %ld after %d rounds; %ld for %ld of audio", (long)l.latency(), (long)l.sum_latency(), (long)l.expected(), (long)l.total_latency(), n,
               (long)src.took, (long)play);
        VCHECK(l.average_time() == total / n && l.average_latency() == sum / n, "averages-exact", "%ld and %ld over %d rounds", (long)l.average_time(), (long)l.average_latency(), n);
        VCHECK(l.elapsed() == ::get_time() - began, "elapsed-exact", "%ld since the start %ld ago", (long)l.elapsed(), (long)(::get_time() - began));
        c.fold(static_cast<uint64_t>(src.took));
        c.ev("exact_rounds");
    }
}
VSCENARIO(buffer_module, 800, 20000) {
    int fr = c.r.sz(1, 40), ch = c.r.chn(1, 4);
    AudioBuffer rep(fr, ch);
    std::vector<double> want;
    for (std::size_t i = 0; i < rep.size(); ++i) want.push_back(rep.at(i) = c.r.real(-1, 1));
    BufferModule m;
    if (c.r.chance(.5)) m.set_rbuffer(&rep); else m = BufferModule(&rep);
    VCHECK(m.get_rbuffer() == &rep, "rbuffer", "pointer lost");
    VCHECK(m.get_info()->out_buffer == static_cast<int>(rep.size()), "rbuffer-info", "announces %d samples of %zu", m.get_info()->out_buffer, rep.size());
    Snk s;
    AmplitudeScale<> half(1);
    s.link(&half)->link(&m);
    int bs = c.r.sz(0, 60);
    bool sync = c.r.chance(.7);
    if (sync) { conf(s.get_chain_info(), bs, ch, 8000); s.meta_info_sync(); }
    c.d("rep=%dx%d chain=%d sync=%d", fr, ch, bs, (int)sync);
    c.nontrivial = fr > 1;
    for (int k = 0; k < 4; ++k) {
        s.meta_process();
        VCHECK(s.got.size() >= want.size(), "repeat-size", "%zu of %zu", s.got.size(), want.size());
        for (std::size_t i = 0; i < s.got.size(); ++i) VCHECK(s.got[i] == (i < want.size() ? want[i] : 0.), "repeat-value", "round %d sample %zu is %g", k, i, s.got[i]);
        for (std::size_t i = 0; i < want.size(); ++i) VCHECK(rep.at(i) == want[i], "repeat-original", "the repeated buffer changed");
        half.set_value(1);
        c.ev("repeats");
    }
}
VSCENARIO(constant, 500, 10000) {
    int bs = c.r.sz(0, 40), ch = c.r.chn(1, 4);
    double v = c.r.real(-5, 5);
    ConstModule k(v);
    Snk s;
    s.link(&k);
    conf(s.get_chain_info(), bs, ch, 96000);
    s.meta_info_sync();
    c.d("bs=%d ch=%d v=%g", bs, ch, v);
    c.nontrivial = bs * ch > 1;
    for (int i = 0; i < 4; ++i) {
        if (c.r.chance(.4)) k.set_value(v = c.r.real(-5, 5));
        VCHECK(k.get_value() == v, "const-get", "%g", k.get_value());
        s.meta_process();
        VCHECK(s.got.size() == static_cast<std::size_t>(bs * ch) && s.ch == ch && s.rate == 96000, "const-shape", "%zu", s.got.size());
        for (double x : s.got) VCHECK(x == v, "const-value", "%g expected %g", x, v);
        c.ev("constant_rounds");
    }
    // blocks nobody takes are replaced by the next one, whatever its shape
    for (int i = 0; i < 4; ++i) {
        k.get_info()->out_buffer = bs = c.r.sz(0, 40); k.get_info()->channels = ch = c.r.chn(1, 4);
        if (c.r.chance(.3)) k.set_value(v = c.r.real(-5, 5));
        k.process();
        if (c.r.chance(.5)) continue;
        auto b = k.get_buffer();
        VCHECK(b.size() == static_cast<std::size_t>(bs * ch) && static_cast<int>(b.channels()) == ch, "const-shape", "%zu", b.size());
        for (double x : b) VCHECK(x == v, "const-value", "%g expected %g", x, v);
        c.ev("constant_rounds");
    }
}

// modules with parameters of every base
template <class B> struct WithParams : B {
    ModuleParam a, b;
    std::vector<double> got;
    int starts = 0, stops = 0;
    WithParams() : B(&a, &b) {}
    void process() override {
        if constexpr (std::is_base_of_v<SourceModule, B>) this->reserve();
        auto x = a.get();
        auto y = b.get();
        for (std::size_t i = 0; i < this->buff.size(); ++i) this->buff.at(i) = this->buff.at(i) * 1000 + x.at(i) * y.at(i);
        got.assign(this->buff.ibegin(), this->buff.iend());
    }
    void start() override { ++starts; }
    void stop() override { ++stops; }
};
template <class B> static void params(vh::Case& c, int where) {
    WithParams<B> m;
    double va = c.r.real(-2, 2);
    Blocks mod; mod.r = &c.r; mod.lo = -1;
    AmplitudeScale<> g(c.r.real(-2, 2));
    ConstModule base(1);
    Snk s;
    m.a.set_constant(va);
    g.link(&mod);
    m.b.link(&g);
    BaseModule* top = &m;
    ChainInfo* ci = m.get_chain_info();
    if (where != 1) { s.link(&m); top = &s; ci = s.get_chain_info(); }
    if (where != 2) m.link(&base);
    int bs = c.r.sz(1, 30), ch = c.r.chn(1, 4);
    double rate = c.r.of({44100., 8000.});
    c.d("where=%d bs=%d ch=%d", where, bs, ch);
    c.nontrivial = true;
    VCHECK(m.get_array()->at(0) == &m.a && m.get_array()->at(1) == &m.b, "array", "parameters not registered");
    conf(ci, bs, ch, rate);
    top->meta_info_sync();
    long next = 0;
    for (int cy = 0; cy < 2; ++cy) {
        top->meta_start();
        VCHECK(m.starts == cy + 1 && mod.starts == cy + 1 && mod.get_state() == St::Started && g.get_state() == St::Started && m.a.get_state() == St::Started, "start", "parameter modules not started");
        for (int k = c.r.i(1, 5); k > 0; --k) {
            if (c.r.chance(.2)) { conf(ci, bs = c.r.sz(1, 30), ch = c.r.chn(1, 4), rate); top->meta_info_sync(); }
            if (c.r.chance(.3)) m.a.set_constant(va = c.r.real(-2, 2));
            for (ModuleParam* p : *m.get_array()) {
                VCHECK(p->get_chain_info()->buffer_size == bs && p->get_chain_info()->channels == ch && p->get_chain_info()->sample_rate == rate, "param-info", "%d %d", p->get_chain_info()->buffer_size, p->get_chain_info()->channels);
                VCHECK(p->forward() == &m, "param-forward", "parameter does not know its module");
            }
            VCHECK(mod.get_info()->out_buffer == bs && mod.get_info()->channels == ch && mod.get_info()->sample_rate == rate, "param-chain-info", "info did not reach a parameter's module");
            long calls = mod.calls;
            top->meta_process();
            VCHECK(mod.calls == calls + 1, "param-once", "parameter sampled %ld times", mod.calls - calls);
            VCHECK(m.got.size() == static_cast<std::size_t>(bs * ch), "param-shape", "%zu", m.got.size());
            for (std::size_t i = 0; i < m.got.size(); ++i, ++next) {
                double e = (where == 2 ? 0 : 1000) + va * (next * g.get_value());
                VCHECK(vh::close(m.got[i], e, 1e-9 * (1 + std::fabs(e))), "param-value", "sample %zu is %g expected %g", i, m.got[i], e);
            }
            c.ev("param_rounds");
        }
        top->meta_stop();
        VCHECK(m.stops == cy + 1 && mod.stops == cy + 1 && mod.get_state() == St::Stopped, "stop", "parameter modules not stopped");
    }
}
VSCENARIO(param_module, 400, 8000) { params<ParamModule<2>>(c, 0); }
VSCENARIO(param_sink, 400, 8000) { params<ParamSink<2>>(c, 1); }
VSCENARIO(param_source, 400, 8000) { params<ParamSource<2>>(c, 2); }
VSCENARIO(param_alone, 300, 5000) {
    double v = c.r.real(-3, 3);
    ModuleParam p(v);
    AudioModule<> owner;
    int bs = c.r.sz(1, 60), ch = c.r.chn(1, 4);
    c.d("bs=%d ch=%d v=%g", bs, ch, v);
    c.nontrivial = true;
    bool conf_it = c.r.chance(.7);
    if (conf_it) { owner.get_info()->in_buffer = bs; owner.get_info()->channels = ch; owner.get_info()->sample_rate = 8000; p.conf_mod(&owner); }
    else { bs = 440; ch = 1; }
    ModuleParam q;
    ModuleParam* use = &p;
    if (c.r.chance(.3)) { q = std::move(p); use = &q; if (conf_it) q.conf_mod(&owner); }
    for (int k = 0; k < 4; ++k) {
        if (k && c.r.chance(.5)) use->set_constant(v = c.r.real(-3, 3));
        auto b = use->get();
        VCHECK(b.size() == static_cast<std::size_t>(bs * ch), "alone-shape", "%zu expected %d", b.size(), bs * ch);
        for (double x : b) VCHECK(x == v, "alone-value", "%g expected %g", x, v);
        c.ev("param_rounds");
    }
}
// what a parameter delivers goes along when it is moved; a parameter made for a module is linked to it; nothing is set up by itself
VSCENARIO(param_moved, 300, 5000) {
    int bs = c.r.sz(1, 60), ch = c.r.chn(1, 4);
    double v = c.r.real(-3, 3), w = c.r.real(-3, 3);
    int kind = c.r.i(0, 2);                  // a constant, a module, a module in place of a constant
    bool constant = kind == 0, construct = c.r.chance(.5), relink = c.r.chance(.2);
    c.d("bs=%d ch=%d kind=%d construct=%d relink=%d", bs, ch, kind, (int)construct, (int)relink);
    c.nontrivial = true;
    AudioModule<> owner;
    owner.get_info()->in_buffer = bs; owner.get_info()->channels = ch; owner.get_info()->sample_rate = 8000;
    Blocks mod; mod.r = &c.r; mod.lo = -1;
    long at = 0;
    auto play = [&](ModuleParam& p) {
        auto b = p.get();
        VCHECK(b.size() == static_cast<std::size_t>(bs * ch) && static_cast<int>(b.channels()) == ch, "moved-shape", "%zu expected %d", b.size(), bs * ch);
        for (double x : b) { double e = constant ? v : static_cast<double>(at++); VCHECK(x == e, "moved-value", "%g expected %g", x, e); }
        c.ev("param_rounds");
    };
    auto linked = [&](ModuleParam& p) {
        if (!constant) VCHECK(static_cast<BaseModule*>(&p.backward()) == static_cast<BaseModule*>(&mod), "moved-module", "another module is linked to the moved parameter");
        VCHECK(static_cast<BaseModule*>(&p.backward())->forward() == &p, "moved-link", "the module is not linked to the moved parameter");
        if (!constant && relink) p.link(&mod);
    };
    auto a = constant ? std::make_unique<ModuleParam>(v) : kind == 1 ? std::make_unique<ModuleParam>(&mod) : std::make_unique<ModuleParam>(w);
    if (kind == 2) a->link(&mod);
    VCHECK(constant || &a->backward() == &mod, "param-link", "a parameter made for a module is not linked to it");
    a->conf_mod(&owner);
    play(*a);
    ModuleParam o(w);          // had another constant before
    if (c.r.chance(.5)) { o.conf_mod(&owner); (void)o.get(); }
    if (construct) {
        auto b = std::make_unique<ModuleParam>(std::move(*a));
        a.reset();
        linked(*b);
        if (c.r.chance(.5)) { ModuleParam empty(std::move(*b)); *b = std::move(empty); }
        b->conf_mod(&owner);
        play(*b);
        o = std::move(*b);
        b.reset();
    } else { o = std::move(*a); a.reset(); }
    linked(o);
    if (c.r.chance(.3)) { owner.get_info()->in_buffer = bs = c.r.sz(1, 60); owner.get_info()->channels = ch = c.r.chn(1, 4); }
    o.conf_mod(&owner);
    VCHECK(mod.calls == (constant ? 0 : construct ? 2 : 1), "moved-once", "%ld", mod.calls);
    play(o);
    VCHECK(o.forward() == &owner, "moved-forward", "-");
    play(o);
    o.set_constant(v = w); constant = true;
    play(o);
    ConstModule k;
    VCHECK(k.get_value() == 0, "const-default", "%g", k.get_value());
    Counter n;
    VCHECK(n.samples() == 0 && n.processed() == 0, "counter-default", "%d %d", n.samples(), n.processed());
    BufferModule bm;
    VCHECK(bm.get_rbuffer() == nullptr, "rbuffer-default", "-");
}
int main(int a, char** v) { return vh::main_impl(a, v); }
