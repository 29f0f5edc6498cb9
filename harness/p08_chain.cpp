// P08: a chain processes its modules back to front, each once per round, passing one buffer along; lifecycle calls reach every
// module in order with the documented states; info reaches every module; static chains equal dynamic ones.
#include "vh.hpp"
#include <memory>
#include <type_traits>
#include "amp_module.hpp"
#include "base_module.hpp"
#include "fund_oscillator.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
using St = BaseModule::State;
static const char* kind[] = {"process", "start", "stop", "finish"};

struct Ev { int id; int what; St state; const double* data; std::size_t size; int ch = 0; double rate = 0; };
struct Log { std::vector<Ev> e; };

// a source that emits a known counter and reports which storage it handed out
struct Src : SourceModule {
    Log* log = nullptr; int id = 0; double next = 0; int emit = -1; bool defer = false;
    void process() override {
        reserve();
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = next++;
        log->e.push_back({id, 0, get_state(), buff.size() ? &buff.at(0) : nullptr, buff.size(), (int)buff.channels(), buff.get_samplerate()});
    }
    void start() override { log->e.push_back({id, 1, get_state(), nullptr, 0}); }
    void stop() override { log->e.push_back({id, 2, get_state(), nullptr, 0}); }
    void finish() override { log->e.push_back({id, 3, get_state(), nullptr, 0}); if (!defer) done(); }
};
struct Mid : AudioModule<> {
    Log* log = nullptr; int id = 0; double mul = 1, add = 0; bool defer = false;
    void process() override {
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = buff.at(i) * mul + add;
        log->e.push_back({id, 0, get_state(), buff.size() ? &buff.at(0) : nullptr, buff.size(), (int)buff.channels(), buff.get_samplerate()});
    }
    void start() override { log->e.push_back({id, 1, get_state(), nullptr, 0}); }
    void stop() override { log->e.push_back({id, 2, get_state(), nullptr, 0}); }
    void finish() override { log->e.push_back({id, 3, get_state(), nullptr, 0}); if (!defer) done(); }
};
template <class Base> struct Snk : Base {
    Log* log = nullptr; int id = 0; std::vector<double> got; bool defer = false;
    void process() override {
        log->e.push_back({id, 0, this->get_state(), this->buff.size() ? &this->buff.at(0) : nullptr, this->buff.size(), (int)this->buff.channels(), this->buff.get_samplerate()});
        got.insert(got.end(), this->buff.ibegin(), this->buff.iend());
    }
    void start() override { log->e.push_back({id, 1, this->get_state(), nullptr, 0}); }
    void stop() override { log->e.push_back({id, 2, this->get_state(), nullptr, 0}); }
    void finish() override { log->e.push_back({id, 3, this->get_state(), nullptr, 0}); if (!defer) this->done(); }
};

template <class Base> static void linear(vh::Case& c, int periods) {
    Log log;
    int n = c.r.i(0, 8), bs = c.r.sz(0, 30), ch = c.r.chn(1, 5);
    double rate = c.r.of({44100., 8000., 96000., 1.5});
    c.d("mids=%d buffer=%d channels=%d rate=%g periods=%d", n, bs, ch, rate, periods);
    c.nontrivial = n > 1 && bs > 1;
    Snk<Base> snk; snk.log = &log; snk.id = n + 1;
    if constexpr (std::is_same_v<Base, PeriodSink>) snk.set_period(periods);
    Src src; src.log = &log; src.id = 0;
    std::vector<Mid> mids(n);
    BaseModule* at = &snk;
    std::vector<BaseModule*> order(n + 2);
    order[n + 1] = &snk;
    for (int i = n - 1; i >= 0; --i) {
        mids[i].log = &log; mids[i].id = i + 1; mids[i].mul = c.r.chance(.5) ? 2 : -1; mids[i].add = c.r.i(-3, 3);
        BaseModule* r = at->link(&mids[i]);
        VCHECK(r == &mids[i], "link-result", "link did not return the linked module");
        VCHECK(mids[i].forward() == at, "link-forward", "forward of the linked module is wrong");
        at = r;
        order[i + 1] = at;
    }
    at->link(&src);
    order[0] = &src;
    for (auto* m : order) VCHECK(m->get_state() == St::Created, "state-created", "fresh module in state %d", (int)m->get_state());
    auto* ci = snk.get_chain_info();
    ci->buffer_size = bs; ci->channels = ch; ci->sample_rate = rate;
    int syncs = c.r.i(1, 3);
    for (int k = 0; k < syncs; ++k) snk.meta_info_sync();
    c.ev("syncs", syncs);
    auto info_ok = [&](const char* when) {
        for (int i = 0; i < n + 2; ++i) {
            auto* f = order[i]->get_info();
            VCHECK(f->out_buffer == bs && f->in_buffer == bs && f->channels == ch && f->sample_rate == rate, "info", "%s: module %d has %d/%d %d %g", when, i,
                   f->in_buffer, f->out_buffer, f->channels, f->sample_rate);
            VCHECK(order[i]->get_chain_info() == ci, "chain-pointer", "%s: module %d has another chain info", when, i);
        }
        VCHECK(ci->module_num == n + 2, "module-num", "%s: %d modules counted, %d in the chain", when, ci->module_num, n + 2);
    };
    info_ok("first");
    bool defer = c.r.chance(.3);
    int undone = defer ? c.r.i(0, n + 1) : -1;
    if (undone == 0) src.defer = true; else if (undone == n + 1) snk.defer = true; else if (undone > 0) mids[undone - 1].defer = true;
    auto lifecycle = [&](int what, St in_hook, St after) {
        log.e.clear();
        int fin = ci->module_finish;
        if (what == 1) snk.meta_start(); else if (what == 2) snk.meta_stop(); else snk.meta_finish();
        VCHECK(log.e.size() == static_cast<std::size_t>(n + 2), std::string(kind[what]) + "-count", "%zu %s calls for %d modules", log.e.size(), kind[what], n + 2);
        for (int i = 0; i < n + 2; ++i) {
            VCHECK(log.e[i].id == i && log.e[i].what == what, std::string(kind[what]) + "-order", "call %d reached module %d (%s)", i, log.e[i].id, kind[log.e[i].what]);
            VCHECK(log.e[i].state == in_hook, std::string(kind[what]) + "-hook-state", "module %d ran its hook in state %d", i, (int)log.e[i].state);
            St want = what == 3 && i == undone ? St::Finishing : after;
            VCHECK(order[i]->get_state() == want, std::string(kind[what]) + "-state", "module %d ended in state %d expected %d", i, (int)order[i]->get_state(), (int)want);
        }
        VCHECK(ci->module_finish - fin == (what == 3 ? n + 2 - (undone >= 0) : 0), "finish-count", "%d modules reported, %d asked", ci->module_finish - fin, n + 2);
        c.ev("lifecycle_calls", n + 2);
    };
    int cycles = c.r.i(1, 2);
    double value = 0;
    auto play = [&](int rounds) {
    for (int k = 0; k < rounds; ++k) {
        // the chain may be re-configured between rounds
        if (c.r.chance(.2)) { ci->buffer_size = bs = c.r.sz(0, 30); ci->channels = ch = c.r.chn(1, 4); snk.meta_info_sync(); info_ok("re-sync"); }
        log.e.clear();
        snk.got.clear();
        snk.meta_process();
        VCHECK(log.e.size() == static_cast<std::size_t>((n + 2) * periods), "process-count", "%zu process calls, expected %d", log.e.size(), (n + 2) * periods);
        std::size_t len = static_cast<std::size_t>(bs) * ch;
        for (std::size_t i = 0; i < log.e.size(); ++i) {
            auto& e = log.e[i];
            VCHECK(e.id == static_cast<int>(i) % (n + 2) && e.what == 0, "process-order", "call %zu reached module %d", i, e.id);
            VCHECK(e.size == len, "buffer-size", "module %d got %zu samples expected %zu", e.id, e.size, len);
            VCHECK(e.ch == ch && e.rate == rate, "buffer-format", "module %d got a buffer of %d channels at %g, the chain has %d at %g", e.id, e.ch, e.rate, ch, rate);
            if (e.data == log.e[i - i % (n + 2)].data) c.ev("same_storage");   // moved, not copied: observed, not required
        }
        c.ev("process_calls", log.e.size());
        VCHECK(snk.got.size() == len * periods, "sink-length", "%zu", snk.got.size());
        for (double g : snk.got) {
            double x = value++;
            for (auto& m : mids) x = x * m.mul + m.add;
            VCHECK(g == x, "sink-value", "value %g expected %g", g, x);
        }
    }
    };
    if (c.r.chance(.2)) play(1);         // whatever state the modules are in
    for (int cy = 0; cy < cycles; ++cy) {
        lifecycle(1, St::Started, St::Started);
        play(c.r.i(1, 6));
        if (c.r.chance(.3)) {
            // lifecycle calls in any order and number; single modules may have been started, stopped or done on their own before
            int calls = c.r.i(1, 5);
            for (int k = 0; k < calls; ++k) {
                for (int alone = c.r.i(0, 2); alone > 0; --alone) {
                    auto* m = order[c.r.i(0, n + 1)];
                    int how = c.r.i(0, 3);
                    if (how == 0) m->BaseModule::start(); else if (how == 1) m->BaseModule::stop(); else if (how == 2) m->BaseModule::finish(); else m->BaseModule::done();
                    c.ev("single_module_calls");
                }
                int what = c.r.i(1, 3);
                c.d("call %d", what);
                if (what == 1) lifecycle(1, St::Started, St::Started);
                else if (what == 2) lifecycle(2, St::Stopped, St::Stopped);
                else lifecycle(3, St::Finishing, St::Finished);
            }
        }
        if (c.r.chance(.7)) { lifecycle(3, St::Finishing, St::Finished); if (c.r.chance(.5)) play(c.r.i(1, 2)); }
        lifecycle(2, St::Stopped, St::Stopped);
        if (c.r.chance(.2)) play(1);
    }
}
VSCENARIO(linear_chain, 1500, 40000) { linear<SinkModule<>>(c, 1); }
VSCENARIO(period_chain, 700, 20000) { linear<PeriodSink>(c, c.r.chance(.9) ? c.r.i(0, 6) : c.r.i(7, 70)); }

// relinking replaces the module behind
VSCENARIO(relink, 400, 8000) {
    Log log;
    Snk<SinkModule<>> snk; snk.log = &log; snk.id = 9;
    std::vector<Src> s(3);
    Mid m; m.log = &log; m.id = 5;
    for (int i = 0; i < 3; ++i) { s[i].log = &log; s[i].id = i; s[i].next = 1000 * i; }
    c.nontrivial = true;
    snk.get_chain_info()->buffer_size = 4;
    double next[3] = {0, 1000, 2000};
    bool direct = c.r.chance(.5);
    if (!direct) snk.link(&m);
    for (int k = 0; k < 6; ++k) {
        int i = c.r.i(0, 2);
        (direct ? static_cast<BaseModule&>(snk) : m).link(&s[i]);
        snk.meta_info_sync();
        c.d("%d", i);
        log.e.clear(); snk.got.clear();
        snk.meta_process();
        for (auto& e : log.e) VCHECK(e.id == i || e.id >= 5, "stale", "module %d ran, %d is linked", e.id, i);
        for (double g : snk.got) { VCHECK(g == next[i], "value", "%g expected %g", g, next[i]); next[i]++; }
        c.ev("relinks");
    }
}

// modules that leave a chain for another one are modules of the other one, with its info and its bookkeeping
VSCENARIO(other_sink, 300, 6000) {
    Log log;
    Snk<SinkModule<>> snk[2];
    Src src; src.log = &log; src.id = 0;
    int n = c.r.i(0, 5);
    std::vector<Mid> mids(n);
    for (int i = 0; i < n; ++i) { mids[i].log = &log; mids[i].id = i + 1; }
    for (auto& s : snk) {
        s.log = &log; s.id = n + 1;
        auto* ci = s.get_chain_info();
        ci->buffer_size = c.r.sz(0, 30); ci->channels = c.r.chn(1, 5); ci->sample_rate = c.r.real(1, 1e5);
    }
    c.d("mids=%d", n);
    c.nontrivial = n > 0;
    BaseModule* at = nullptr;
    for (int i = n - 1; i >= 0; --i) { if (at) at->link(&mids[i]); at = &mids[i]; }
    if (at) at->link(&src);
    BaseModule* head = n ? static_cast<BaseModule*>(&mids[n - 1]) : &src;
    double next = 0;
    for (int k = 0; k < 5; ++k) {
        auto& s = snk[c.r.i(0, 1)];
        auto* ci = s.get_chain_info();
        if (c.r.chance(.3)) { ci->buffer_size = c.r.sz(0, 30); ci->channels = c.r.chn(1, 5); }
        s.link(head);
        s.meta_info_sync();
        c.d("to %d ", (int)(&s - snk));
        VCHECK(ci->module_num == n + 2, "other-count", "%d modules counted of %d", ci->module_num, n + 2);
        for (BaseModule* m : {static_cast<BaseModule*>(&s), head, static_cast<BaseModule*>(&src)})
            VCHECK(m->get_chain_info() == ci && m->get_info()->out_buffer == ci->buffer_size && m->get_info()->channels == ci->channels && m->get_info()->sample_rate == ci->sample_rate,
                   "other-info", "a module has the info of the chain it was in: %d x %d at %g", m->get_info()->out_buffer, m->get_info()->channels, m->get_info()->sample_rate);
        s.meta_start();
        log.e.clear(); s.got.clear();
        s.meta_process();
        VCHECK(log.e.size() == static_cast<std::size_t>(n + 2), "other-round", "%zu calls", log.e.size());
        VCHECK(s.got.size() == static_cast<std::size_t>(ci->buffer_size) * ci->channels, "other-size", "%zu samples", s.got.size());
        for (double g : s.got) { VCHECK(g == next, "other-value", "%g expected %g", g, next); ++next; }
        if (c.r.chance(.5)) {
            int before = ci->module_finish;
            s.meta_finish();
            VCHECK(ci->module_finish == before + n + 2, "other-finish", "%d of %d modules reported to their chain", ci->module_finish - before, n + 2);
            s.meta_stop();
        }
        c.ev("relinks");
    }
}

// copies and moves of a sink are sinks of their own
VSCENARIO(sink_copies, 400, 8000) {
    auto* a = new SinkModule<>;
    ConstModule k(3), k2(4);
    a->link(&k);
    a->get_chain_info()->buffer_size = c.r.sz(1, 9); a->get_chain_info()->channels = c.r.i(1, 3);
    int bs = a->get_chain_info()->buffer_size, ch = a->get_chain_info()->channels;
    int how = c.r.i(0, 3);
    bool synced = c.r.chance(.6);
    if (synced) a->meta_info_sync();
    if (c.r.chance(.5)) a->meta_start();
    if (synced && c.r.chance(.5)) k.finish();
    const int counted = a->get_chain_info()->module_num, ended = a->get_chain_info()->module_finish;
    St was = a->get_state();
    c.d("how=%d bs=%d ch=%d synced=%d state=%d", how, bs, ch, synced, (int)was);
    c.nontrivial = true;
    std::unique_ptr<SinkModule<>> b;
    if (how == 0) b = std::make_unique<SinkModule<>>(*a);
    else if (how == 1) b = std::make_unique<SinkModule<>>(std::move(*a));
    else { b = std::make_unique<SinkModule<>>(); if (how == 2) *b = *a; else *b = std::move(*a); }
    VCHECK(b->get_chain_info() != a->get_chain_info(), "shared", "the copy points into the original");
    VCHECK(b->get_state() == was, "copied-state", "state %d of the copy, %d of the original", (int)b->get_state(), (int)was);
    VCHECK(b->get_chain_info()->module_num == counted && b->get_chain_info()->module_finish == ended, "copied-counts", "%d modules, %d finished in the copy; %d, %d in the original", b->get_chain_info()->module_num,
           b->get_chain_info()->module_finish, counted, ended);
    a->get_chain_info()->buffer_size = 77;
    delete a;
    if (c.r.chance(.6)) {      // what was linked to the original is linked to the copy
        VCHECK(&b->backward() == &k, "copied-link", "the copy is not linked to the module of the original");
        b->meta_process();
        auto o = b->get_buffer();
        VCHECK(o.size() == (synced ? static_cast<std::size_t>(bs * ch) : 440u), "copied-size", "%zu", o.size());
        for (double v : o) VCHECK(v == 3, "copied-value", "%g", v);
        c.ev("copies_played");
    }
    VCHECK(b->get_chain_info()->buffer_size == bs && b->get_chain_info()->channels == ch, "values", "%d %d", b->get_chain_info()->buffer_size, b->get_chain_info()->channels);
    b->link(&k2);
    b->meta_info_sync();
    b->meta_start();
    b->meta_process();
    auto out = b->get_buffer();
    VCHECK(out.size() == static_cast<std::size_t>(bs * ch), "size", "%zu", out.size());
    for (double v : out) VCHECK(v == 4, "value", "%g", v);
    VCHECK(k2.get_chain_info() == b->get_chain_info(), "pointer", "source shares another chain info");
    c.ev("sink_copies");
}

// a chain nobody configured plays one channel of 440 frames at 44100 Hz, a period sink one period
VSCENARIO(unconfigured, 100, 2000) {
    Log log;
    Src src; src.log = &log;
    Mid m; m.log = &log; m.id = 1;
    Snk<SinkModule<>> a; Snk<PeriodSink> b;
    a.log = b.log = &log; a.id = b.id = 2;
    bool period = c.r.chance(.5), sync = c.r.chance(.7);
    c.d("period=%d sync=%d", period, sync);
    c.nontrivial = true;
    BaseModule& snk = period ? static_cast<BaseModule&>(b) : a;
    VCHECK(b.get_period() == 1, "default-period", "%d", b.get_period());
    auto* ci = snk.get_chain_info();
    VCHECK(ci && ci->buffer_size == 440 && ci->channels == 1 && ci->sample_rate == 44100, "default-chain", "%d %d %g", ci->buffer_size, ci->channels, ci->sample_rate);
    snk.link(&m)->link(&src);
    if (sync) {
        snk.meta_info_sync();
        VCHECK(ci->module_num == 3 && ci->module_finish == 0, "default-count", "%d %d", ci->module_num, ci->module_finish);
    }
    int n = c.r.i(1, 3);
    snk.meta_start();
    for (int k = 0; k < n; ++k) snk.meta_process();
    VCHECK(log.e.size() == static_cast<std::size_t>(3 * n + 3), "default-rounds", "%zu calls in %d rounds", log.e.size(), n);
    for (std::size_t i = 3; i < log.e.size(); ++i)
        VCHECK(log.e[i].size == 440 && log.e[i].ch == 1 && log.e[i].rate == 44100 && log.e[i].id == (int)(i % 3), "default-buffer", "%zu samples of %d channels at %g", log.e[i].size, log.e[i].ch, log.e[i].rate);
    auto& got = period ? b.got : a.got;
    for (std::size_t i = 0; i < got.size(); ++i) VCHECK(got[i] == (double)i, "default-value", "sample %zu is %g", i, got[i]);
    ModuleInfo fresh;
    VCHECK(fresh.sample_rate == 44100 && fresh.in_buffer == 440 && fresh.out_buffer == 440 && fresh.channels == 1, "default-info", "%d", fresh.out_buffer);
    ChainInfo x; x.sample_rate = c.r.real(1, 1e5); x.buffer_size = c.r.sz(0, 999); x.channels = c.r.i(1, 9);
    ModuleInfo y(x);
    VCHECK(y.sample_rate == x.sample_rate && y.in_buffer == x.buffer_size && y.out_buffer == x.buffer_size && y.channels == x.channels, "info-of-chain", "%d", y.out_buffer);
    c.ev("default_rounds", n);
}

// a module may take the size and channels of its buffer from its info or choose its own
struct Own : SourceModule {
    int how = 0, fr = 0, ch = 0;
    void process() override { if (how) reserve(fr, ch); else reserve(); for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = (double)i; }
};
VSCENARIO(reserve, 300, 6000) {
    Own o; SinkModule<> s;
    s.link(&o);
    auto* ci = s.get_chain_info();
    c.nontrivial = true;
    for (int k = 0; k < 5; ++k) {
        ci->buffer_size = c.r.sz(0, 40); ci->channels = c.r.i(1, 5); ci->sample_rate = c.r.real(1, 1e5);
        o.how = c.r.i(0, 1); o.fr = c.r.sz(0, 40); o.ch = c.r.chn(1, 5);
        s.meta_info_sync();
        s.meta_process();
        int fr = o.how ? o.fr : ci->buffer_size, ch = o.how ? o.ch : ci->channels;
        c.d("%d:%dx%d ", o.how, fr, ch);
        auto b = s.get_buffer();
        VCHECK((int)b.size() == fr * ch && (int)b.channels() == ch, "reserve-shape", "%zu samples of %zu channels, reserved %d of %d", b.size(), b.channels(), fr * ch, ch);
        if (!o.how) VCHECK(b.get_samplerate() == ci->sample_rate, "reserve-rate", "%g", b.get_samplerate());
        for (int i = 0; i < fr * ch; ++i) VCHECK(b.at(i) == i, "reserve-value", "sample %d is %g", i, b.at(i));
        if (c.r.chance(.5)) o.set_buffer(std::move(b));      // and the buffer may come back
        c.ev("buffers_reserved");
    }
}

// modules outside of any chain
VSCENARIO(alone, 100, 1000) {
    c.nontrivial = true;
    c.d("alone %ld", c.idx);
    ConstModule k(c.r.real(-1, 1));
    AmplitudeScale<> s(2);
    s.link(&k);
    s.meta_start();
    VCHECK(s.get_state() == St::Started && k.get_state() == St::Started, "started", "states %d %d", (int)s.get_state(), (int)k.get_state());
    s.meta_process();
    auto b = s.get_buffer();
    VCHECK(b.size() == 440, "size", "%zu", b.size());
    for (double v : b) VCHECK(v == 2 * k.get_value(), "value", "%g", v);
    s.meta_finish();
    VCHECK(s.get_state() == St::Finished && k.get_state() == St::Finished, "finished", "states %d %d", (int)s.get_state(), (int)k.get_state());
    s.meta_stop();
    VCHECK(s.get_state() == St::Stopped && k.get_state() == St::Stopped, "stopped", "states %d %d", (int)s.get_state(), (int)k.get_state());
}

template <class M> static std::vector<double> rounds(vh::Case& c, M& snk, int bs, int ch, double rate, int n, std::vector<BaseModule*> all) {
    auto* ci = snk.get_chain_info();
    ci->buffer_size = bs; ci->channels = ch; ci->sample_rate = rate;
    int syncs = c.r.i(1, 2);
    for (int i = 0; i < syncs; ++i) snk.meta_info_sync();
    VCHECK(ci->module_num == static_cast<int>(all.size()), "module-num", "%d counted of %zu", ci->module_num, all.size());
    for (auto* m : all) {
        auto* f = m->get_info();
        VCHECK(f->out_buffer == bs && f->channels == ch && f->sample_rate == rate && m->get_chain_info() == ci, "static-info", "info did not reach a module");
    }
    for (std::size_t i = 1; i < all.size(); ++i) VCHECK(all[i]->forward() == all[i - 1], "static-forward", "module %zu does not know its forward module", i);
    snk.meta_start();
    for (auto* m : all) VCHECK(m->get_state() == St::Started, "static-started", "state %d", (int)m->get_state());
    std::vector<double> out;
    for (int i = 0; i < n; ++i) {
        snk.meta_process();
        auto b = snk.get_buffer();
        VCHECK(b.size() == static_cast<std::size_t>(bs * ch) && b.channels() == ch, "static-shape", "%zu samples of %d channels", b.size(), (int)b.channels());
        out.insert(out.end(), b.ibegin(), b.iend());
    }
    snk.meta_finish();
    for (auto* m : all) VCHECK(m->get_state() == St::Finished, "static-finished", "state %d", (int)m->get_state());
    snk.meta_stop();
    for (auto* m : all) VCHECK(m->get_state() == St::Stopped, "static-stopped", "state %d", (int)m->get_state());
    c.ev("static_rounds", n);
    return out;
}
// a chain composed at compile time is the chain linked at run time
template <class S> static void compare_static(vh::Case& c, S src) {
    double a = c.r.real(-2, 2), b = c.r.real(-2, 2), d = c.r.real(-1, 1);
    int bs = c.r.sz(1, 40), ch = c.r.chn(1, 4), n = c.r.i(1, 5);
    double rate = c.r.of({44100., 8000., 48000.});
    c.d(" a=%g b=%g d=%g bs=%d ch=%d n=%d", a, b, d, bs, ch, n);
    c.nontrivial = true;
    S s1 = src;
    SinkModule<> k1; AmplitudeScale<> x1(a); AmplitudeAdd<> y1(b); AmplitudeScale<> z1(d);
    k1.link(&x1)->link(&y1)->link(&z1)->link(&s1);
    auto dyn = rounds(c, k1, bs, ch, rate, n, {&k1, &x1, &y1, &z1, &s1});
    // fully static
    using Z = AmplitudeScale<S>; using Y = AmplitudeAdd<Z>; using X = AmplitudeScale<Y>;
    SinkModule<X> k2;
    k2.link_static(X(a))->link_static(Y(b))->link_static(Z(d))->link_static(S(src));
    VCHECK(k2.backward().get_value() == a && k2.backward().backward().get_value() == b && k2.backward().backward().backward().get_value() == d, "static-link", "a linked value was lost");
    VCHECK(k2.backward().forward() == &k2 && k2.backward().backward().forward() == &k2.backward(), "static-forward", "a module linked at compile time does not know its forward module");
    auto st = rounds(c, k2, bs, ch, rate, n, {&k2, &k2.backward(), &k2.backward().backward(), &k2.backward().backward().backward(), &k2.backward().backward().backward().backward()});
    VCHECK(dyn == st, "static-differs", "static chain output differs from the dynamic one");
    // a whole static chain can be copied and moved
    S s5 = src;
    SinkModule<X> k5, k6;
    k5.link_static(X(a))->link_static(Y(b))->link_static(Z(d))->link_static(std::move(s5));
    int way = c.r.i(0, 2);
    SinkModule<X> k7 = way == 0 ? k5 : std::move(k5);
    if (way == 2) { k6 = std::move(k7); }
    SinkModule<X>& k8 = way == 2 ? k6 : k7;
    auto cp = rounds(c, k8, bs, ch, rate, n, {&k8, &k8.backward(), &k8.backward().backward(), &k8.backward().backward().backward(), &k8.backward().backward().backward().backward()});
    VCHECK(dyn == cp, "static-copy-differs", "a copied static chain differs from the dynamic one");
    // static head, dynamic tail
    S s3 = src;
    AmplitudeScale<> z3(d);
    using Y3 = AmplitudeAdd<>; using X3 = AmplitudeScale<Y3>;
    SinkModule<X3> k3;
    k3.link_static(X3(a))->link_static(Y3(b))->link(&z3)->link(&s3);
    auto mix = rounds(c, k3, bs, ch, rate, n, {&k3, &k3.backward(), &k3.backward().backward(), &z3, &s3});
    VCHECK(dyn == mix, "static-dynamic-differs", "static head with dynamic tail differs");
    // dynamic head, static tail
    SinkModule<> k4; AmplitudeScale<> x4(a);
    Y y4(b);
    k4.link(&x4)->link(&y4);
    y4.link_static(Z(d))->link_static(S(src));
    auto mix2 = rounds(c, k4, bs, ch, rate, n, {&k4, &x4, &y4, &y4.backward(), &y4.backward().backward()});
    VCHECK(dyn == mix2, "dynamic-static-differs", "dynamic head with static tail differs");
    c.ev("static_compared", dyn.size());
}
VSCENARIO(static_const, 500, 10000) { c.d("const"); compare_static(c, ConstModule(c.r.real(-1, 1))); }
VSCENARIO(static_sine, 500, 10000) { c.d("sine"); compare_static(c, SineOscillator(c.r.real(20, 3000), c.r.unit())); }

// amplitude modules act on every sample of every channel
VSCENARIO(amplitude, 600, 15000) {
    int fr = c.r.sz(0, 60), ch = c.r.chn(1, 5);
    double v = c.r.of({0., 1., -1., 1e300, c.r.real(-3, 3)});
    c.d("frames=%d ch=%d v=%g", fr, ch, v);
    c.nontrivial = fr * ch > 1;
    AudioBuffer b(fr, ch);
    std::vector<double> in;
    for (std::size_t i = 0; i < b.size(); ++i) in.push_back(b.at(i) = c.r.real(-2, 2));
    bool scale = c.r.chance(.5);
    AmplitudeScale<> s; AmplitudeAdd<> a;
    VCHECK(s.get_value() == 1 && a.get_value() == 1, "default", "%g", s.get_value());
    BaseModule& m = scale ? static_cast<BaseModule&>(s) : a;
    s.set_value(v); a.set_value(v);
    m.set_buffer(std::move(b));
    m.process();
    auto o = m.get_buffer();
    VCHECK(o.size() == in.size() && o.channels() == ch, "shape", "%zu", o.size());
    for (std::size_t i = 0; i < in.size(); ++i) VCHECK(o.at(i) == (scale ? in[i] * v : in[i] + v), "value", "sample %zu is %g", i, o.at(i));
    c.ev("amplitude_samples", in.size());
}
int main(int a, char** v) { return vh::main_impl(a, v); }
