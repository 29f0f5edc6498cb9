// P13: the parallel module hands over every buffer once and in order, reads ahead no further than its limit, and never processes the
// modules behind it while they change state; no schedule hangs, races or leaks a thread. Delays are injected at the
// synchronisation calls by interposing them.
#include "vh.hpp"
#include <atomic>
#include <condition_variable>
#include <dlfcn.h>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "parallel.hpp"
#include "sink_module.hpp"
using namespace std::chrono_literals;
constexpr auto R = std::memory_order_relaxed;      // monitors must not add synchronisation

using St = BaseModule::State;
// ---- delay injection
static std::atomic<uint64_t> g_seed{1}; static std::atomic<int> g_level{0}; static std::atomic<uint64_t> g_delays{0};
static thread_local uint64_t t_state = 0; static std::atomic<uint64_t> g_thread{0};
static void jitter(int weight) {
    int lv = g_level.load(R);
    if (!lv) return;
    if (!t_state) t_state = vh::mix(g_seed.load(R) ^ (g_thread.fetch_add(1, R) + 1) * 0x9E37u);
    t_state = vh::mix(t_state);
    int x = static_cast<int>(t_state % 1000);
    if (x < 30 * lv * weight) { g_delays.fetch_add(1, R); timespec ts{0, static_cast<long>(1000 + (t_state >> 20) % (60000 * lv))}; nanosleep(&ts, nullptr); }
    else if (x < 150 * lv * weight) { g_delays.fetch_add(1, R); for (int i = 0; i < static_cast<int>((t_state >> 20) % 4) + 1; ++i) sched_yield(); }
}
template <class F> static F next(F& f, const char* n) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); return f; }
static int (*n_lock)(pthread_mutex_t*); static int (*n_unlock)(pthread_mutex_t*); static int (*n_wait)(pthread_cond_t*, pthread_mutex_t*); static int (*n_bcast)(pthread_cond_t*);
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { jitter(1); return next(n_lock, "pthread_mutex_lock")(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { int r = next(n_unlock, "pthread_mutex_unlock")(m); jitter(1); return r; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { jitter(3); int r = next(n_wait, "pthread_cond_wait")(c, m); jitter(1); return r; }
int pthread_cond_broadcast(pthread_cond_t* c) { jitter(2); return next(n_bcast, "pthread_cond_broadcast")(c); }
}
static void* dlwarm = [] { return (void*)(next(n_lock, "pthread_mutex_lock"), next(n_unlock, "pthread_mutex_unlock"), next(n_wait, "pthread_cond_wait"), next(n_bcast, "pthread_cond_broadcast")); }();

struct Setup {       // per case: watchdog and delays
    explicit Setup(vh::Case& c) { alarm(c.thorough ? 60 : 40); g_seed = c.r.next(); g_thread = 0; t_state = 0; g_level = c.r.i(0, 3); before = g_delays.load(); cs = &c; c.d("delay%d ", g_level.load()); }
    ~Setup() { g_level = 0; alarm(0); cs->ev("delays_injected", g_delays.load() - before); }
    uint64_t before; vh::Case* cs;
};
// ---- event log (order of the atomic index; relaxed)
struct Ev { char what; long val; };
struct Log {
    std::vector<Ev> e; std::atomic<size_t> n{0};
    Log() : e(20000) {}
    void add(char w, long v) { size_t i = n.fetch_add(1, R); if (i < e.size()) e[i] = {w, v}; }
    uint64_t hash() { uint64_t h = 1; for (size_t i = 0; i < std::min(n.load(), e.size()); ++i) h = vh::mix(h ^ (uint64_t)e[i].what ^ ((uint64_t)e[i].val << 8)); return h; }
};
struct Src : SourceModule {
    ParallelModule* halt = nullptr; std::atomic<long> halt_after{-1};          // stops the parallel module from its own worker
    Log* log = nullptr; long n = 0; long first = 0; int cfg = 0, starts = 0, stops = 0, fins = 0, syncs = 0; bool defer = false; long done_at = -1;
    std::atomic<int> inside{0}, overlap{0}; std::atomic<long> produced{0}, same{0}; std::thread::id owner; vh::Rng r; int slow = 0; double mul = 1; uint64_t vary = 0;
    static std::size_t frames(uint64_t vary, long n, std::size_t all) { return vary ? vh::mix(vary + (uint64_t)n) % (all + 1) : all; }
    static double rate(uint64_t vary, long n) { return vary ? 1000 + (double)n : 8000; }
    Src() : owner(std::this_thread::get_id()) {}
    void process() override {
        if (inside.exchange(1, R)) overlap.fetch_add(1, R);
        if (log) log->add('p', n);
        if (std::this_thread::get_id() == owner) same.fetch_add(1, R);
        reserve();
        if (vary) {         // buffers of any size, also empty ones, named by their rate
            buff.resize(static_cast<int>(frames(vary, n, buff.channel_capacity()) * buff.channels()));
            buff.set_samplerate(rate(vary, n));
        }
        for (std::size_t i = 0; i < buff.size(); ++i) buff.at(i) = (double)n * mul;
        if (slow) { timespec ts{0, (long)(r.next() % (slow * 1000))}; nanosleep(&ts, nullptr); }
        ++n; cfg += get_info()->channels;
        produced.fetch_add(1, R);
        if (halt && n == first + halt_after.load(R)) halt->stop();
        if (defer && get_state() == State::Finishing && n >= done_at) done();
        inside.store(0, R);
    }
    void hook(int& k) { if (inside.load(R)) overlap.fetch_add(1, R); ++k; ++cfg; jitter(5); if (inside.load(R)) overlap.fetch_add(1, R); }
    void start() override { hook(starts); first = n; reserve(); }   // nothing is processed now, so that it may prepare its buffer
    void stop() override { hook(stops); }
    void finish() override { hook(fins); if (!defer) done(); }
    void info_sync() override { hook(syncs); SourceModule::info_sync(); reserve(); }
};
struct Gain : AudioModule<> { double g = 1; long n = 0; void process() override { for (auto& v : buff) v *= g; ++n; } };
struct Snk : SinkModule<> {
    std::vector<double> got; double rate = 0; int ch = 0;
    void process() override { got.assign(buff.ibegin(), buff.iend()); rate = buff.get_samplerate(); ch = static_cast<int>(buff.channels()); }
};
static void conf(ChainInfo* ci, int bs, int ch) { ci->buffer_size = bs; ci->channels = ch; ci->sample_rate = 8000; }
// waits for a condition that must become true
template <class F> static bool eventually(F f) { auto t = std::chrono::steady_clock::now() + 20s; while (!f()) { if (std::chrono::steady_clock::now() > t) return false; timespec ts{0, 50000}; nanosleep(&ts, nullptr); } return true; }

VSCENARIO(fifo, 1000, 12000) {
    Setup st(c);
    Log log; Src src; src.log = &log; src.r.s = c.r.next(); src.slow = c.r.chance(.5) ? 0 : c.r.i(1, 150);
    ParallelModule par;
    Snk s; s.link(&par)->link(&src);
    int bs = c.r.chance(.05) ? c.r.of({64, 440, 441, 1024}) : c.r.i(1, 20), ch = c.r.chn(1, 3); conf(s.get_chain_info(), bs, ch);
    s.meta_info_sync();
    std::size_t q = c.r.chance(.05) ? c.r.i(6, 40) : c.r.i(1, 6);
    par.max_size(q);
    int sessions = c.r.i(1, 3), csleep = c.r.chance(.5) ? 0 : c.r.i(1, 150); long taken_all = 0, first = 0;
    if (c.r.chance(.3)) src.vary = c.r.next() | 1;
    c.d("q%zu sessions%d slow%d/%d vary%d ", q, sessions, src.slow, csleep, src.vary != 0);
    for (int ses = 0; ses < sessions; ++ses) {
        s.meta_start();
        first = src.first;
        std::size_t qmax = q;
        std::atomic<bool> quit{false}; std::atomic<std::size_t> seen{0};
        std::jthread watcher; struct Q { std::atomic<bool>& q; ~Q() { q.store(true, R); } } q_{quit};
        if (c.r.chance(.4)) watcher = std::jthread([&] { while (!quit.load(R)) { auto z = par.size(); if (z > seen.load(R)) seen.store(z, R); sched_yield(); } });
        int take = c.r.chance(.03) ? c.r.i(25, 200) : c.r.i(0, 25); long got = 0;
        for (int k = 0; k < take; ++k) {
            if (c.r.chance(.08)) { std::size_t nq = c.r.i(1, 8); par.max_size(nq); q = nq; qmax = std::max(qmax, nq); VCHECK(par.max_size() == nq, "max-size", "reads %zu", par.max_size()); }
            s.meta_process();
            VCHECK(s.got.size() == Src::frames(src.vary, first + got, bs) * ch, "shape", "%zu samples instead of %zu", s.got.size(), Src::frames(src.vary, first + got, bs) * ch);
            VCHECK(s.ch == ch && s.rate == Src::rate(src.vary, first + got), "format", "buffer %ld has %d channels at %g instead of %d at %g", first + got, s.ch, s.rate, ch, Src::rate(src.vary, first + got));
            for (double v : s.got) VCHECK(v == (double)(first + got), "order", "buffer %g taken as number %ld of session %d (first %ld)", v, got, ses, first);
            log.add('c', first + got);
            ++got;
            if (csleep) { timespec ts{0, (long)(c.r.next() % (csleep * 1000))}; nanosleep(&ts, nullptr); }
        }
        if (c.r.chance(.2)) { VCHECK(eventually([&] { return par.size() >= q; }), "fills", "queue holds %zu, limit %zu", par.size(), q); c.ev("queue_filled"); }
        quit.store(true, R);
        if (watcher.joinable()) watcher.join();
        VCHECK(seen.load() <= qmax, "limit", "%zu buffers queued, limit %zu", seen.load(), qmax);
        if (c.r.chance(.2) && ses + 1 < sessions) {                       // started again without a stop
            c.ev("started_twice");
            taken_all += got;
            continue;
        }
        s.meta_stop();
        log.add('s', ses);
        long prod = src.produced.load();
        VCHECK(prod - first == got + (long)par.size(), "conservation", "%ld buffers produced, %ld taken, %zu queued", prod - first, got, par.size());
        VCHECK(par.size() <= qmax, "limit-stop", "%zu buffers queued, limit %zu", par.size(), qmax);
        // what is queued can still be taken
        if (c.r.chance(.5)) {
            while (par.size()) {
                s.meta_process();
                VCHECK(s.got.size() == Src::frames(src.vary, first + got, bs) * ch && s.rate == Src::rate(src.vary, first + got), "shape-drain", "%zu samples at %g", s.got.size(), s.rate);
                for (double v : s.got) VCHECK(v == (double)(first + got), "order-drain", "buffer %g taken as number %ld after the stop", v, got);
                ++got; c.ev("drained");
            }
            par.meta_process();                      // a stopped, empty module does not wait
        }
        if (c.r.chance(.3)) { timespec ts{0, 200000}; nanosleep(&ts, nullptr); }
        VCHECK(src.produced.load() == prod, "stopped", "still produces after the stop");
        taken_all += got;
    }
    par.stop();
    VCHECK(src.overlap.load() == 0, "exclusive", "modules behind were changed while processed");
    VCHECK(src.same.load() == 0, "parallel", "%ld buffers were produced on the caller's thread", src.same.load());
    c.ev("buffers_produced", (uint64_t)src.produced.load()); c.ev("buffers_taken", (uint64_t)taken_all);
    c.fold(log.hash());
    c.nontrivial = taken_all > 2;
}

// the worker reads ahead to its limit, never further
VSCENARIO(read_ahead, 300, 4000) {
    Setup st(c);
    Log log; Src src; src.log = &log; src.r.s = c.r.next(); src.slow = c.r.i(0, 50);
    ParallelModule par; Snk s; s.link(&par)->link(&src);
    conf(s.get_chain_info(), 4, 1);
    s.meta_info_sync();
    std::size_t q = c.r.chance(.03) ? c.r.i(60, 300) : c.r.i(1, 8);
    par.max_size(q);
    c.d("q%zu ", q);
    s.meta_start();
    long taken = 0;
    for (int k = 0; k < c.r.i(1, 10); ++k) {
        VCHECK(eventually([&] { return src.produced.load(R) >= taken + (long)q; }), "liveness", "%ld produced, %ld taken, limit %zu", src.produced.load(), taken, q);
        timespec ts{0, c.r.i(0, 300) * 1000}; nanosleep(&ts, nullptr);
        VCHECK(src.produced.load(R) == taken + (long)q, "bound", "%ld produced with %ld taken and a limit of %zu", src.produced.load(), taken, q);
        c.ev("limit_reached");
        if (c.r.chance(.4)) { std::size_t add = c.r.i(1, 3); q += add; par.max_size(q); c.ev("limit_raised"); }
        else { s.meta_process(); ++taken; }
    }
    if (c.r.chance(.7)) s.meta_stop(); else par.stop();
    VCHECK(src.overlap.load() == 0, "exclusive", "overlap");
    c.fold(log.hash());
    c.nontrivial = q > 1;
}

// stop releases a thread waiting for audio
VSCENARIO(stop_waiting, 500, 6000) {
    Setup st(c);
    Log log; Src src; src.log = &log; src.r.s = c.r.next(); src.slow = c.r.i(0, 1500);
    ParallelModule par; par.link(&src);
    par.max_size(c.r.i(1, 3));
    src.get_info()->out_buffer = 3;
    par.meta_start();
    std::atomic<long> taken{0}; std::atomic<bool> out{false}; std::atomic<long> bad{0};
    std::atomic<bool> quit{false};
    std::jthread consumer([&] {
        long want = 0;
        while (!quit.load(R)) { par.meta_process(); AudioBuffer b(par.get_buffer()); if (b.size() && b.at(0) != (double)want) bad.fetch_add(1, R); if (b.size()) { ++want; taken.fetch_add(1, R); log.add('c', want); } if (quit.load(R)) break; }
        out.store(true, R);
    });
    int us = c.r.i(0, 800);
    timespec ts{0, us * 1000}; nanosleep(&ts, nullptr);
    quit.store(true, R);
    c.r.chance(.5) ? par.stop() : par.meta_stop();
    VCHECK(eventually([&] { return out.load(); }), "released", "a thread still waits for audio after the stop");
    consumer.join();
    VCHECK(bad.load() == 0, "order", "%ld buffers out of order", bad.load());
    VCHECK(src.produced.load() == taken.load() + (long)par.size(), "conservation", "%ld produced, %ld taken, %zu queued", src.produced.load(), taken.load(), par.size());
    VCHECK(src.overlap.load() == 0, "exclusive", "overlap");
    c.d("us%d ", us);
    c.ev("stops_while_waiting"); c.ev("buffers_taken", (uint64_t)taken.load());
    c.fold(log.hash());
    c.nontrivial = true;
}

// the audio may end on the worker: a module behind stops the parallel module it runs under
VSCENARIO(self_stop, 400, 5000) {
    Setup st(c);
    Log log; auto src = std::make_unique<Src>(); src->log = &log; src->r.s = c.r.next(); src->slow = c.r.chance(.5) ? 0 : c.r.i(1, 60);
    auto par = std::make_unique<ParallelModule>(); Snk s; s.link(par.get())->link(src.get());
    conf(s.get_chain_info(), c.r.i(1, 10), c.r.i(1, 2));
    std::size_t q = c.r.i(1, 4);
    par->max_size(q);
    src->halt = par.get();
    s.meta_info_sync();
    int sessions = c.r.i(1, 3); long total = 0;
    for (int ses = 0; ses < sessions; ++ses) {
        long len = c.r.i(1, 9), got = 0;
        src->halt_after.store(len, R);
        s.meta_start();
        long first = src->first, end = first + len;
        c.d("len%ld ", len);
        int take = c.r.i(0, static_cast<int>(len) - 1);           // all these arrive: they are made before the stop
        for (int k = 0; k < take; ++k) {
            s.meta_process();
            for (double v : s.got) VCHECK(v == (double)(first + got), "order", "buffer %g taken as number %ld of session %d", v, got, ses);
            ++got;
        }
        int how = c.r.i(0, 3);
        if (how == 0 && ses + 1 == sessions) { c.d("drop "); break; }                     // destroyed with the worker at any point
        if (how == 1 && ses + 1 < sessions) { c.d("restart "); total += got; continue; } // started again with the worker at any point
        if (how == 2) { VCHECK(eventually([&] { return src->produced.load(R) >= std::min(end, first + got + (long)q); }), "liveness", "%ld produced", src->produced.load()); }
        par->stop();
        long prod = src->produced.load();
        VCHECK(prod <= end, "ends", "%ld buffers produced, the source stopped its module at %ld", prod, end);
        VCHECK(prod - first == got + (long)par->size(), "conservation", "%ld buffers produced, %ld taken, %zu queued", prod - first, got, par->size());
        while (par->size()) {
            s.meta_process();
            for (double v : s.got) VCHECK(v == (double)(first + got), "order-drain", "buffer %g taken as number %ld after the stop", v, got);
            ++got;
        }
        VCHECK(src->produced.load() == prod, "stopped", "still produces after the stop");
        total += got;
        c.ev("self_stops");
    }
    par.reset();
    long at = src->produced.load();
    if (c.r.chance(.3)) { timespec ts{0, 200000}; nanosleep(&ts, nullptr); }
    VCHECK(src->produced.load() == at, "destroyed", "still produces after destruction");
    VCHECK(src->overlap.load() == 0, "exclusive", "two workers process the modules behind");
    c.fold(log.hash());
    c.nontrivial = total > 1 || sessions > 1;
}

// state requests while the worker runs
VSCENARIO(control, 600, 8000) {
    Setup st(c);
    Log log; auto src = std::make_unique<Src>(); src->log = &log; src->r.s = c.r.next(); src->slow = c.r.chance(.5) ? 0 : c.r.i(1, 60);
    src->defer = c.r.chance(.5); src->done_at = 0;
    auto par = std::make_unique<ParallelModule>(); Snk s; s.link(par.get())->link(src.get());
    conf(s.get_chain_info(), c.r.i(1, 10), c.r.i(1, 2));
    par->max_size(c.r.i(1, 4));
    int starts = 0, stops = 0, fins = 0, syncs = 0, n = c.r.i(1, 12); bool run = false, began = false; const St fresh = par->get_state();
    VCHECK(ParallelModule().max_size() == 1, "default", "limit %zu", ParallelModule().max_size());
    s.meta_info_sync(); ++syncs;
    for (int k = 0; k < n; ++k) {
        switch (c.r.i(0, 7)) {
            case 0: s.meta_start(); ++starts; run = began = true; c.d("start "); break;
            case 1: s.meta_stop(); ++stops; run = false; began = true; c.d("stop "); break;
            case 2: if (run) { s.meta_finish(); ++fins; c.d("finish "); } break;
            case 3: s.meta_info_sync(); ++syncs; c.d("sync ");
                    VCHECK(s.get_chain_info()->module_num == 3, "module-num", "%d", s.get_chain_info()->module_num); break;
            case 4: par->max_size(c.r.i(1, 5)); break;
            case 5: par->stop(); run = false; began = true; c.d("pstop "); break;
            case 6: if (run) { par->start(); c.d("pstart "); } break;      // a worker of its own may still be running
            default: if (run) { s.meta_process(); c.d("p "); }
        }
        if (par->get_state() != St::Finished && par->get_state() != St::Finishing) VCHECK(par->get_state() == (run ? St::Started : began ? St::Stopped : fresh), "state", "state %d, running %d", (int)par->get_state(), run);
        c.ev("control_calls");
    }
    bool drop = c.r.chance(.4);
    if (run && !drop) { s.meta_stop(); ++stops; run = false; }
    if (!run) {
        VCHECK(src->starts == starts && src->stops == stops && src->fins == fins && src->syncs == syncs, "calls", "start %d/%d stop %d/%d finish %d/%d sync %d/%d", src->starts, starts, src->stops, stops, src->fins, fins, src->syncs, syncs);
    } else c.ev("destroyed_running");
    par.reset();
    long at = src->produced.load();
    if (c.r.chance(.2)) { timespec ts{0, 200000}; nanosleep(&ts, nullptr); }
    VCHECK(src->produced.load() == at, "destroyed", "still produces after destruction");
    VCHECK(src->overlap.load() == 0, "exclusive", "the modules behind changed state while being processed");
    c.fold(log.hash());
    c.nontrivial = n > 2;
}

// sources that finish on several workers at once are all counted
VSCENARIO(done_count, 400, 5000) {
    Setup st(c);
    int n = c.r.i(2, 5);
    ModuleMixDown mix; Snk s; s.link(&mix);
    std::vector<std::unique_ptr<Src>> src; std::vector<std::unique_ptr<ParallelModule>> par;
    for (int i = 0; i < n; ++i) {
        src.push_back(std::make_unique<Src>()); par.push_back(std::make_unique<ParallelModule>());
        src[i]->defer = true; src[i]->done_at = c.r.i(0, 12);
        par[i]->max_size(c.r.i(1, 4));
        mix.link(par[i].get()); par[i]->link(src[i].get());
    }
    conf(s.get_chain_info(), 2, 1);
    s.meta_info_sync();
    s.meta_start();
    int pre = c.r.i(0, 4);
    for (int k = 0; k < pre; ++k) s.meta_process();
    s.meta_finish();
    for (int k = 0; k < 16; ++k) {
        s.meta_process();
        for (double v : s.got) VCHECK(v == (double)n * (pre + k), "sum", "mixed %g in round %d of %d inputs", v, pre + k, n);
    }
    s.meta_stop();
    int fin = 0;
    for (auto& x : src) { VCHECK(x->overlap.load() == 0, "exclusive", "overlap"); ++fin; }
    int total = n + n + 2;         // sources, parallel modules, mixer, sink
    VCHECK(s.get_chain_info()->module_finish == total, "done-count", "%d modules counted as done instead of %d", s.get_chain_info()->module_finish, total);
    c.d("n%d pre%d", n, pre);
    c.ev("parallel_dones", (uint64_t)fin);
    c.nontrivial = true;
    c.fold((uint64_t)g_delays.load());
}

// a graph with parallel parts produces the audio of the sequential one
VSCENARIO(graph, 500, 7000) {
    Setup st(c);
    int n = c.r.i(1, 4), rounds = c.r.i(1, 15);
    ModuleMixDown mix; Snk s; s.link(&mix);
    std::vector<std::unique_ptr<Src>> src; std::vector<std::unique_ptr<ParallelModule>> par; std::vector<std::unique_ptr<Gain>> gain;
    std::vector<double> factor(n, 1.0);
    for (int i = 0; i < n; ++i) {
        src.push_back(std::make_unique<Src>());
        src[i]->mul = i + 1; src[i]->slow = c.r.chance(.5) ? 0 : c.r.i(1, 50); src[i]->r.s = c.r.next();
        BaseModule* m = nullptr; int depth = c.r.i(0, 3);
        auto attach = [&](auto* x) { if (m == nullptr) mix.link(x); else m->forward(), static_cast<AudioModule<>*>(m)->link(x); m = x; };
        for (int d = 0; d < depth; ++d) {
            if (c.r.chance(.6)) { par.push_back(std::make_unique<ParallelModule>()); par.back()->max_size(c.r.i(1, 3)); attach(par.back().get()); c.d("P"); }
            if (c.r.chance(.5)) { gain.push_back(std::make_unique<Gain>()); gain.back()->g = c.r.i(1, 3); factor[i] *= gain.back()->g; attach(gain.back().get()); c.d("g"); }
        }
        attach(src[i].get());
        c.d("s ");
    }
    int bs = c.r.i(1, 16), ch = c.r.i(1, 2);
    conf(s.get_chain_info(), bs, ch);
    s.meta_info_sync();
    s.meta_start();
    for (int k = 0; k < rounds; ++k) {
        s.meta_process();
        double want = 0;
        for (int i = 0; i < n; ++i) want += (double)k * (i + 1) * factor[i];
        VCHECK(s.got.size() == (std::size_t)bs * ch, "shape", "%zu", s.got.size());
        for (double v : s.got) VCHECK(vh::close(v, want, 1e-9), "value", "round %d: %g instead of %g", k, v, want);
        c.ev("graph_rounds");
    }
    s.meta_stop();
    for (auto& x : src) VCHECK(x->overlap.load() == 0 && x->starts == 1 && x->stops == 1, "exclusive", "overlap %d start %d stop %d", x->overlap.load(), x->starts, x->stops);
    c.ev("parallel_modules", par.size());
    c.nontrivial = !par.empty();
    c.fold((uint64_t)rounds);
}
int main(int a, char** v) { (void)dlwarm; return vh::main_impl(a, v); }
