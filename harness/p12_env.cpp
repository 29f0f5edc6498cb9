// P12: chain timers count frames exactly; envelopes output the documented value for the time of every frame, whatever the buffer
// sizes, channels and the moment envelopes are added; an ADSR envelope follows its key.
#include "vh.hpp"
#include <memory>
#include "envelope.hpp"
#include "sink_module.hpp"
using St = BaseModule::State;

VSCENARIO(timer, 3000, 60000) {
    ChainTimer t;
    int64_t samp = 0, npf = NANO / 44100; int ch = 1;
    VCHECK(t.get_npf() == npf && t.get_channels() == 1 && t.get_sample() == 0, "timer-default", "fresh timer");
    int n = c.r.i(1, 60);
    for (int k = 0; k < n; ++k) {
        switch (c.r.i(0, 8)) {
            case 0: { int r = c.r.i(1, 400000); t.set_samplerate(r); npf = NANO / r; c.d("rate%d ", r);
                      VCHECK(std::abs(t.get_samplerate() - r) <= 1 + r * 1e-9 * r, "timer-rate", "rate %d reads %d", r, t.get_samplerate()); break; }
            case 1: npf = c.r.range(1, 1000000000); t.set_npf(npf); break;
            case 2: ch = c.r.chn(1, 12); t.set_channels(ch); break;
            case 3: samp = c.r.range(0, 1ll << c.r.i(1, 33)); t.set_sample(samp); break;
            case 4: case 5: { int64_t a = c.r.range(0, 1ll << c.r.i(1, 31)); t.add_sample(a); samp += a; break; }
            case 6: case 7: { int m = c.r.i(1, 40); for (int i = 0; i < m; ++i) t.inc_sample(); samp += m; break; }
            default: if (c.r.chance(.1)) { t.reset(); samp = 0; ch = 1; npf = 0; VCHECK(t.get_samplerate() == 0, "timer-reset", "rate after reset"); }
        }
        if (samp > (1ll << 33)) { samp %= 1000; t.set_sample(samp); }
        if (npf != 0 && samp / ch > INT64_MAX / 2 / npf) { npf = 22675; t.set_npf(npf); }
        VCHECK(t.get_sample() == samp && t.get_channels() == ch && t.get_npf() == npf, "timer-state", "sample %ld/%ld", (long)t.get_sample(), (long)samp);
        VCHECK(t.get_time() == samp / ch * npf, "timer-time", "time %ld after %ld samples of %d channels at npf %ld", (long)t.get_time(), (long)samp, ch, (long)npf);
        int s = c.r.i(0, 2000000000), d = c.r.i(1, 8);
        if (npf < 4000000) {
            VCHECK(t.get_time(s) == s * npf, "timer-time1", "time of %d frames", s);
            VCHECK(t.get_time(s, d) == s / d * npf, "timer-time2", "time of %d samples, %d channels", s, d);
        }
        c.ev("timer_ops");
    }
    c.fold((uint64_t)samp);
    c.nontrivial = n > 3;
}

struct Spec { int kind; int64_t t0, t1; double v0, v1; };   // constant, set value, linear, exponential
static const char* kn[] = {"const", "set", "linear", "exp"};
static std::unique_ptr<BaseEnvelope> mk(const Spec& s) {
    std::unique_ptr<BaseEnvelope> e;
    switch (s.kind) {
        case 0: e = std::make_unique<ConstantEnvelope>(); break;
        case 1: e = std::make_unique<SetValue>(); break;
        case 2: e = std::make_unique<LinearRamp>(); break;
        default: e = std::make_unique<ExponentialRamp>();
    }
    e->set_start_time(s.t0); e->set_stop_time(s.t1); e->set_start_value(s.v0); e->set_stop_value(s.v1);
    return e;
}
// values the envelope may have at time t (a frame lasts npf)
static bool ok(const Spec& s, int64_t t, int64_t npf, double got, double* want) {
    switch (s.kind) {
        case 0: *want = s.v0; return got == s.v0;
        case 1:
            if (t + npf <= s.t1) { *want = s.v0; return got == s.v0; }
            if (t >= s.t1) { *want = s.v1; return got == s.v1; }
            *want = s.v1;
            return got == s.v0 || got == s.v1;
        case 2: {
            long double x = (long double)(t - s.t0) / (s.t1 - s.t0);
            *want = (double)(s.v0 + ((long double)s.v1 - s.v0) * x);
            return vh::close(got, *want, 1e-9 * (1 + std::fabs(*want) + std::fabs(s.v0) + std::fabs(s.v1)));
        }
        default: {
            long double x = (long double)(t - s.t0) / (s.t1 - s.t0);
            long double b = s.v0 != 0 ? s.v0 : SMALL;
            *want = (double)(b * std::pow((long double)s.v1 / b, x));
            return vh::close(got, *want, 1e-9 * (1 + std::fabs(*want)));
        }
    }
}
static Spec rnd(vh::Case& c, int kind, int64_t t0, int64_t len) {
    Spec s{kind, t0, t0 + len, c.r.real(-2, 2), c.r.real(-2, 2)};
    if (kind == 3) { bool neg = c.r.chance(.3); s.v0 = c.r.chance(.2) ? 0 : c.r.real(.01, 2); s.v1 = c.r.real(.01, 2); if (neg) { s.v0 = -s.v0; if (s.v0 != 0) s.v1 = -s.v1; } }
    return s;
}

VSCENARIO(leaf, 4000, 80000) {
    int rate = c.r.of({100, 1000, 8000, 44100, 48000}), ch = c.r.chn(1, 4);
    int64_t npf = NANO / rate;
    int lenf = c.r.i(1, 400);
    int64_t t0 = c.r.chance(.5) ? 0 : c.r.range(0, 300 * npf);
    Spec s = rnd(c, c.r.i(0, 3), t0, lenf * npf + (c.r.chance(.5) ? 0 : c.r.range(0, npf - 1)));
    auto e = mk(s);
    e->get_timer()->set_samplerate(rate); e->get_timer()->set_channels(ch);
    bool bounded = s.kind >= 2;
    int64_t frame = s.kind >= 2 ? (s.t0 + npf - 1) / npf : c.r.i(0, 200);
    e->get_timer()->set_sample(frame * ch);
    int64_t last = s.t1 / npf;                    // the ramp is defined up to its stop time
    int64_t end = bounded ? last + 1 : std::max(frame, last) + c.r.i(1, 200);
    c.d("%s rate%d ch%d [%ld,%ld] %g->%g", kn[s.kind], rate, ch, (long)s.t0, (long)s.t1, s.v0, s.v1);
    {
        ConstantEnvelope a; SetValue b; LinearRamp l; ExponentialRamp x; ChainEnvelope ch0; ADSREnvelope ad; DurationEnvelope du;
        for (BaseEnvelope* q : std::initializer_list<BaseEnvelope*>{&a, &b, &l, &x, &ch0, &ad, &du})
            VCHECK(q->get_start_time() == 0 && q->get_stop_time() == 0 && q->get_start_value() == 0 && q->get_stop_value() == 0, "defaults", "a fresh envelope has times or values");
        VCHECK(du.get_duration() == 0 && du.get_envelope() == nullptr, "defaults", "duration");
        VCHECK(ad.get_attack() == 0 && ad.get_decay() == 0 && ad.get_sustain() == 0 && ad.get_release() == 0, "defaults", "adsr");
        VCHECK(e->get_start_time() == s.t0 && e->get_stop_time() == s.t1 && e->get_start_value() == s.v0 && e->get_stop_value() == s.v1, "setters", "what was set does not read back");
    }
    bool flips = false; double prev = s.v0;
    while (frame < end) {
        int n = (int)std::min<int64_t>(end - frame, c.r.i(1, 100));
        auto* info = e->get_info();
        info->out_buffer = n; info->channels = ch; info->sample_rate = rate;
        e->meta_process();
        auto b = e->get_buffer();
        VCHECK(b.size() == (std::size_t)n * ch && b.channels() == ch, "leaf-shape", "%zu samples for %d frames of %d channels", b.size(), n, ch);
        for (int f = 0; f < n; ++f, ++frame)
            for (int k = 0; k < ch; ++k) {
                double got = b.at(f * ch + k), want;
                VCHECK(ok(s, frame * npf, npf, got, &want), "leaf-value", "%s frame %ld (time %ld) channel %d: %.12g instead of %.12g", kn[s.kind], (long)frame, (long)(frame * npf), k, got, want);
                if (s.kind == 1) {
                    VCHECK(!(flips && got != s.v1) || s.v0 == s.v1, "leaf-flip", "set value went back");
                    if (got == s.v1 && s.v0 != s.v1) flips = true;
                }
                prev = got;
                c.ev("envelope_samples");
            }
        VCHECK(e->get_timer()->get_sample() == frame * ch, "leaf-timer", "timer at %ld after frame %ld", (long)e->get_timer()->get_sample(), (long)frame);
    }
    c.fold(prev);
    c.nontrivial = lenf > 1;
}

// sequential model of the chain of envelopes
struct Model {
    std::vector<Spec> env; double start = 0; size_t added = 0;
    std::vector<Spec> tl; size_t idx = 0;
    void add(const Spec& s) {
        bool had = !tl.empty();
        if (had) tl.pop_back();           // the end
        if (tl.empty() ? s.t0 > 0 : tl.back().t1 < s.t0) tl.push_back({0, tl.empty() ? 0 : tl.back().t1, s.t0, tl.empty() ? start : tl.back().v1, 0});
        tl.push_back(s);
        end();
    }
    void end() { tl.push_back({0, tl.empty() ? 0 : tl.back().t1, -1, tl.empty() ? start : tl.back().v1, 0}); }
    const Spec& at(int64_t t) {
        while (tl[idx].t1 >= 0 && t >= tl[idx].t1 && idx + 1 < tl.size()) ++idx;
        return tl[idx];
    }
};
VSCENARIO(chain, 5000, 100000) {
    int rate = c.r.of({100, 1000, 8000, 44100}), ch = c.r.chn(1, 3);
    int64_t npf = NANO / rate;
    ChainEnvelope ce; Model m;
    std::vector<std::unique_ptr<BaseEnvelope>> own;
    m.start = c.r.real(-1, 1);
    ce.set_start_value(m.start);
    ce.get_timer()->set_samplerate(rate); ce.get_timer()->set_channels(ch);
    auto* info = ce.get_info();
    info->channels = ch; info->sample_rate = rate;
    int64_t cur = 0, frame = 0;
    int count = 0, forever = 0;
    auto add = [&] {
        int64_t gap = c.r.chance(.4) ? 0 : c.r.range(0, 120 * npf);
        bool overlap = c.r.chance(.15) && count;
        int64_t t0 = overlap ? std::max<int64_t>(0, cur - c.r.range(0, 40 * npf)) : cur + gap;
        int64_t len = c.r.chance(.1) ? 0 : c.r.chance(.2) ? c.r.range(1, 2 * npf) : c.r.range(1, 150 * npf);
        int kind = c.r.i(0, 3);
        if (len == 0 && kind >= 2) kind = 0;
        Spec s = rnd(c, kind, t0, len);
        cur = std::max(cur, s.t1);
        own.push_back(mk(s));
        if (c.r.chance(.3)) own.back()->get_info()->channels = c.r.i(1, 5);      // what it was last used with is no concern of the chain
        ce.add_envelope(own.back().get());
        m.add(s);
        ++count;
        c.d("%s[%ld,%ld]%.3g>%.3g ", kn[s.kind], (long)s.t0, (long)s.t1, s.v0, s.v1);
    };
    int n = c.r.i(0, 5);
    for (int i = 0; i < n; ++i) add();
    if (!count) m.end();
    ce.start();
    int64_t total = cur / npf + c.r.i(1, 60);
    bool late = c.r.chance(.5);
    while (frame < total) {
        if (late && c.r.chance(.15) && count < 9) {       // envelopes added while playing
            cur = std::max(cur, frame * npf);
            add();
            total = std::min<int64_t>(cur / npf + 20, 2500);
            c.ev("added_while_playing");
        }
        if (c.r.chance(.03)) { ce.start(); m.idx = 0; c.ev("restarts"); }
        if (c.r.chance(.04)) {                            // everything forgotten, other envelopes from now on
            ce.clear();
            if (c.r.chance(.5)) ce.set_start_value(m.start = c.r.real(-1, 1));
            const double start = m.start;
            m = Model(); m.start = start;
            cur = frame * npf; count = 0;
            c.d("clear@%ld ", (long)frame);
            for (int i = c.r.i(0, 4); i > 0; --i) add();
            if (!count) m.end();
            ce.start(); m.idx = 0;
            total = std::min<int64_t>(cur / npf + 20, 2500);
            c.ev("cleared");
            if (frame >= total) break;
        }
        int b = (int)std::min<int64_t>(total - frame, c.r.chance(.3) ? c.r.i(1, 4) : c.r.i(1, 250));
        if (b <= 0) break;
        info->out_buffer = b;
        ce.meta_process();
        auto buf = ce.get_buffer();
        VCHECK(buf.size() == (std::size_t)b * ch && buf.channels() == ch, "chain-shape", "%zu samples for %d frames of %d channels", buf.size(), b, ch);
        for (int f = 0; f < b; ++f, ++frame) {
            const Spec& s = m.at(frame * npf);
            for (int k = 0; k < ch; ++k) {
                double want;
                VCHECK(ok(s, frame * npf, npf, buf.at(f * ch + k), &want), "chain-value", "frame %ld (time %ld) channel %d in %s[%ld,%ld]: %.12g instead of %.12g", (long)frame,
                       (long)(frame * npf), k, kn[s.kind], (long)s.t0, (long)s.t1, buf.at(f * ch + k), want);
                c.ev("chain_samples");
            }
        }
        VCHECK(ce.get_timer()->get_sample() == frame * ch && ce.get_time() == frame * npf, "chain-timer", "timer at sample %ld after frame %ld", (long)ce.get_timer()->get_sample(), (long)frame);
    }
    (void)forever;
    c.fold((uint64_t)frame);
    c.nontrivial = count > 1;
}

// hours and days: times and sample counts beyond what 32 bits hold
VSCENARIO(far, 1500, 30000) {
    const int rate = c.r.of({1000, 8000, 44100, 192000}), ch = c.r.chn(1, 3);
    const int64_t npf = NANO / rate;
    const int64_t frame0 = c.r.chance(.4) ? 0 : c.r.of<int64_t>({(1ll << 31) / ch - 40, (1ll << 31) - 40, (1ll << 32) - 40, (1ll << 32) / ch - 40, c.r.range(0, 1ll << 34)});
    const int64_t len = c.r.of<int64_t>({1ll << 31, 1ll << 32, (1ll << 32) + 5, (1ll << 31) / ch, c.r.range(1ll << 20, 1ll << 33), c.r.range(1, 200)}) * npf;
    Spec s = rnd(c, c.r.i(0, 3), frame0 * npf, len);
    c.d("%s rate%d ch%d from frame %ld for %ld ", kn[s.kind], rate, ch, (long)frame0, (long)len);
    c.nontrivial = true;
    auto e = mk(s);
    ChainEnvelope ce;
    const bool chain = c.r.chance(.5);
    BaseEnvelope* x = e.get();
    if (chain) { x = &ce; ce.set_start_value(.5); ce.add_envelope(e.get()); }
    x->get_timer()->set_samplerate(rate); x->get_timer()->set_channels(ch);
    auto run = [&](int64_t frame, int frames) {
        x->get_timer()->set_sample(frame * ch);
        VCHECK(x->get_time() == frame * npf, "far-time", "time %ld of frame %ld", (long)x->get_time(), (long)frame);
        if (chain) ce.start();
        while (frames > 0) {
            const int n = std::min(frames, c.r.i(1, 60));
            x->get_info()->out_buffer = n; x->get_info()->channels = ch; x->get_info()->sample_rate = rate;
            x->meta_process();
            auto b = x->get_buffer();
            VCHECK(b.size() == (std::size_t)n * ch, "far-shape", "%zu samples", b.size());
            for (int f = 0; f < n; ++f, ++frame, --frames)
                for (int k = 0; k < ch; ++k) {
                    const int64_t t = frame * npf;
                    double want = s.v1, got = b.at(f * ch + k);
                    const bool past = t >= s.t1 && (chain || s.kind >= 2);
                    VCHECK(past ? !chain || got == s.v1 : ok(s, t, npf, got, &want), "far-value", "%s frame %ld (time %ld of [%ld,%ld]): %.12g instead of %.12g", kn[s.kind], (long)frame, (long)t, (long)s.t0, (long)s.t1, got, want);
                    c.ev("far_samples");
                }
            VCHECK(x->get_time() == frame * npf && x->get_timer()->get_sample() == frame * ch, "far-timer", "time %ld of frame %ld", (long)x->get_time(), (long)frame);
        }
    };
    run(frame0, c.r.i(1, 120));
    if (c.r.chance(.5)) run(frame0 + c.r.range(0, len / npf - 1), c.r.i(1, 120));
    if (c.r.chance(.5)) run(std::max(frame0, frame0 + len / npf - c.r.i(0, 50)), c.r.i(1, 120));
}

// envelopes without an end hold until the next one is asked for
VSCENARIO(forever, 1000, 20000) {
    int rate = 1000; int64_t npf = NANO / rate;
    ChainEnvelope ce;
    ce.get_timer()->set_samplerate(rate);
    int n = c.r.i(1, 6);
    std::vector<ConstantEnvelope> e(n);
    for (int i = 0; i < n; ++i) {
        e[i].set_start_value(i + 1); e[i].set_stop_value(i + 1); e[i].set_stop_time(-1); e[i].set_start_time(0);
        if (i) { e[i].set_start_time(-1); }      // follows directly
        ce.add_envelope(&e[i]);
    }
    ce.start();
    for (int i = 0; i < n + 3; ++i) {
        int blocks = c.r.i(1, 5);
        for (int b = 0; b < blocks; ++b) {
            ce.get_info()->out_buffer = c.r.i(1, 90);
            ce.meta_process();
            auto buf = ce.get_buffer();
            for (auto v : buf) { VCHECK(v == std::min(i + 1, n), "forever-value", "value %g of envelope %d of %d", v, i, n); c.ev("chain_samples"); }
        }
        ce.next_envelope();
    }
    (void)npf;
    c.d("%d envelopes", n);
    c.nontrivial = n > 1;
}

VSCENARIO(duration, 1000, 20000) {
    int rate = c.r.of({100, 1000, 44100}); int64_t npf = NANO / rate;
    Spec s = rnd(c, c.r.i(0, 3), 0, 0);
    auto e = mk(s);
    DurationEnvelope d;
    d.set_envelope(e.get());
    e->get_timer()->set_samplerate(rate);
    d.get_timer()->set_samplerate(rate);
    int64_t at = c.r.i(0, 500);
    int64_t dur = c.r.range(npf, 200 * npf);
    d.set_duration(dur);
    VCHECK(d.get_duration() == dur && d.get_envelope() == e.get(), "duration-get", "getters");
    d.get_timer()->set_sample(at); e->get_timer()->set_sample(at);
    d.start();
    s.t0 = at * npf; s.t1 = s.t0 + dur;
    VCHECK(e->get_start_time() == s.t0 && e->get_stop_time() == s.t1, "duration-times", "[%ld,%ld] instead of [%ld,%ld]", (long)e->get_start_time(), (long)e->get_stop_time(), (long)s.t0, (long)s.t1);
    // the times come from the timer of the outer envelope, also when it is started again and whatever the inner one believes
    {
        auto q = mk(s);
        DurationEnvelope o;
        o.set_envelope(q.get());
        const int ch = c.r.chn(1, 3);
        o.get_timer()->set_samplerate(rate); o.get_timer()->set_channels(ch);
        q->get_timer()->set_samplerate(c.r.of({rate, 100, 8000}));
        for (int k = 0; k < 3; ++k) {
            const int64_t f = c.r.i(0, 500), g = c.r.i(0, 500), len = c.r.chance(.2) ? c.r.of({int64_t(0), int64_t(1), npf, npf - 1}) : c.r.range(0, 200 * npf);
            o.get_timer()->set_sample(f * ch); q->get_timer()->set_sample(g);
            o.set_duration(len);
            o.start();
            VCHECK(q->get_start_time() == f * npf && q->get_stop_time() == f * npf + len, "duration-times", "[%ld,%ld] instead of [%ld,%ld] (start %d)", (long)q->get_start_time(), (long)q->get_stop_time(),
                   (long)(f * npf), (long)(f * npf + len), k);
            VCHECK(q->get_start_value() == s.v0 && q->get_stop_value() == s.v1, "duration-times", "starting changed the values");
            c.ev("durations_started");
        }
    }
    int64_t frame = at, end = s.t1 / npf + 1;
    while (frame < end) {
        int n = (int)std::min<int64_t>(end - frame, c.r.i(1, 80));
        e->get_info()->out_buffer = n; e->get_info()->channels = 1;
        d.meta_process();
        auto b = d.get_buffer();
        VCHECK(b.size() == (std::size_t)n, "duration-shape", "%zu of %d", b.size(), n);
        for (int f = 0; f < n; ++f, ++frame) {
            double want;
            VCHECK(ok(s, frame * npf, npf, b.at(f), &want), "duration-value", "%s frame %ld: %.12g instead of %.12g", kn[s.kind], (long)frame, b.at(f), want);
            c.ev("envelope_samples");
        }
    }
    c.d("%s dur%ld at%ld", kn[s.kind], (long)dur, (long)at);
    c.nontrivial = at > 0;
}

struct Snk : SinkModule<> { std::vector<double> got; int ch = 0; void process() override { got.assign(buff.ibegin(), buff.iend()); ch = buff.channels(); } };
VSCENARIO(adsr, 3000, 60000) {
    int rate = c.r.of({100, 1000, 8000}), ch = c.r.chn(1, 2);
    int64_t npf = NANO / rate;
    auto len = [&] { return c.r.chance(.15) ? int64_t(0) : c.r.range(1, 150 * npf); };
    ADSREnvelope e;
    Snk s; s.link(&e);
    auto* ci = s.get_chain_info();
    ci->channels = ch; ci->sample_rate = rate; ci->buffer_size = 50;
    s.meta_info_sync();
    e.get_timer()->set_samplerate(rate); e.get_timer()->set_channels(ch);
    int64_t frame = c.r.chance(.5) ? 0 : c.r.i(0, 400);
    e.get_timer()->set_sample(frame * ch);
    int notes = c.r.i(1, 3);
    for (int note = 0; note < notes; ++note) {
        int64_t a = len(), d = len(), r = len(); double sus = c.r.real(0, 1);
        if (note == 0 && c.r.chance(.5)) { e = ADSREnvelope(a, d, sus, r); s.link(&e); s.meta_info_sync(); e.get_timer()->set_samplerate(rate); e.get_timer()->set_channels(ch); e.get_timer()->set_sample(frame * ch); }
        else { e.set_attack(a); e.set_decay(d); e.set_sustain(sus); e.set_release(r); }
        VCHECK(e.get_attack() == a && e.get_decay() == d && e.get_sustain() == sus && e.get_release() == r, "adsr-get", "getters");
        c.d("a%ld d%ld s%.3g r%ld ", (long)a, (long)d, sus, (long)r);
        s.meta_start();
        int64_t press = frame * npf, rel = -1; double vrel = 0;
        int64_t hold = c.r.i(0, 400);
        auto held = [&](int64_t t) -> double {
            t -= press;
            if (t < a) return (double)t / a;
            if (t < a + d) return 1 + (sus - 1) * ((double)(t - a) / d);
            return sus;
        };
        int64_t f0 = frame; double prev = 0; bool first = true;
        auto play = [&](int64_t frames) {
            while (frames > 0) {
                int n = (int)std::min<int64_t>(frames, c.r.i(1, 90));
                e.get_info()->out_buffer = n;
                s.meta_process();
                VCHECK(s.got.size() == (std::size_t)n * ch && s.ch == ch, "adsr-shape", "%zu samples", s.got.size());
                for (int f = 0; f < n; ++f, ++frame)
                    for (int k = 0; k < ch; ++k) {
                        int64_t t = frame * npf;
                        double want = rel < 0 ? held(t) : t >= rel + r ? 0 : vrel * (1 - (double)(t - rel) / r);
                        double got = s.got[f * ch + k];
                        VCHECK(vh::close(got, want, 1e-9), "adsr-value", "frame %ld after the press at %ld (released %ld, level %g): %.10g instead of %.10g", (long)(frame - f0), (long)press, (long)rel, vrel, got, want);
                        VCHECK(got >= -1e-12 && got <= 1 + 1e-12, "adsr-range", "%g", got);
                        prev = got; first = false;
                        c.ev("adsr_samples");
                    }
                frames -= n;
                if (rel < 0) VCHECK(e.get_state() == St::Started, "adsr-state", "done while held");
                else {
                    bool over = frame * npf >= rel + r;
                    VCHECK((e.get_state() == St::Finished) == over, "adsr-done", "done %d at %ld, release [%ld,+%ld]", e.get_state() == St::Finished, (long)(frame * npf), (long)rel, (long)r);
                }
            }
        };
        int before = ci->module_finish;
        // the note keeps its shape when the next one is set up while it is played
        auto turn = [&] {
            if (c.r.chance(.3)) e.set_attack(len());
            if (c.r.chance(.3)) e.set_decay(len());
            if (c.r.chance(.3)) e.set_sustain(c.r.real(0, 1));
            c.ev("notes_set_up_early");
        };
        if (c.r.chance(.15)) turn();
        play(hold);
        if (c.r.chance(.1)) turn();
        if (c.r.chance(.85)) {
            rel = frame * npf; vrel = held(rel);
            s.meta_finish();
            int asked = 1;
            const bool twice = c.r.chance(.2);
            play(c.r.i(0, 30) + (!twice && c.r.chance(.7) ? r / npf + 2 : 0));
            if (twice && e.get_state() != St::Finished) {       // released again while it rings out: down from where it is
                vrel = frame * npf >= rel + r ? 0 : vrel * (1 - (double)(frame * npf - rel) / r);
                rel = frame * npf;
                if (c.r.chance(.5)) e.set_release(r = len());
                s.meta_finish();
                ++asked;
                play(c.r.i(0, 30) + (c.r.chance(.7) ? r / npf + 2 : 0));
                c.ev("released_twice");
            }
            VCHECK(ci->module_finish == before + asked + (e.get_state() == St::Finished), "adsr-done-count", "%d modules reported done", ci->module_finish - before);
            c.ev("releases");
        }
        (void)prev; (void)first;
        c.ev("notes");
    }
    c.nontrivial = true;
}
int main(int a, char** v) { return vh::main_impl(a, v); }
