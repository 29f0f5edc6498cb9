// P21: objects that share nothing are used by several threads at once, each playing what it plays alone; what is shared is only read.
#include "vh.hpp"
#include <atomic>
#include <barrier>
#include <thread>
#include "parts.hpp"

struct Job { int kind; uint64_t seed; int sessions, rounds; uint64_t sum = 0; };
static uint64_t play(const Job& j) {
    vh::Rng r{j.seed};
    auto p = parts::make(j.kind, r);
    for (int i = 0; i < j.sessions; ++i) p->session(j.rounds);
    return p->s.h;
}
// several parts, of one kind or of any, each made, played and destroyed in its own thread
VSCENARIO(together, 250, 6000) {
    const int n = c.r.i(2, 6);
    const bool same = c.r.chance(.5);
    const int first = static_cast<int>((c.idx + c.r.i(0, 1)) % parts::KINDS);
    std::vector<Job> jobs;
    const uint64_t twin = c.r.next();
    for (int i = 0; i < n; ++i) jobs.push_back({same || i == 0 ? first : c.r.i(0, parts::KINDS - 1), same && c.r.chance(.4) ? twin : c.r.next(), c.r.i(1, 3), c.r.i(1, 12)});
    for (auto& j : jobs) c.d("%d:%dx%d ", j.kind, j.sessions, j.rounds);
    c.nontrivial = true;
    const bool alone_first = c.r.chance(.5);       // a table made at first use must not be there already every time
    std::vector<uint64_t> alone(n);
    if (alone_first) for (int i = 0; i < n; ++i) alone[i] = play(jobs[i]);
    std::barrier gate(n);
    std::vector<std::thread> th;
    std::vector<std::string> trouble(n);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
        gate.arrive_and_wait();
        try { jobs[i].sum = play(jobs[i]); }
        catch (std::exception& e) { trouble[i] = e.what(); }
    });
    for (auto& t : th) t.join();
    if (!alone_first) for (int i = 0; i < n; ++i) alone[i] = play(jobs[i]);
    for (int i = 0; i < n; ++i) {
        VCHECK(trouble[i].empty(), "exception", "part %d: %s", jobs[i].kind, trouble[i].c_str());
        VCHECK(jobs[i].sum == alone[i], "differs", "part of kind %d plays something else while %d other threads play (%016lx, alone %016lx)", jobs[i].kind, n - 1, (long)jobs[i].sum, (long)alone[i]);
        c.ev("parts_played");
        c.ev("rounds_compared", jobs[i].sessions * jobs[i].rounds);
        c.fold(alone[i]);
    }
    c.ev("thread_groups");
}

// what is constant may be read by everybody at once
VSCENARIO(readers, 150, 4000) {
    const int n = c.r.i(2, 5), fr = c.r.i(1, 60), ch = c.r.i(1, 4);
    AudioBuffer b(fr, ch, 48000.);
    for (auto& v : b) v = c.r.real(-1, 1);
    std::vector<double> kern(c.r.i(1, 20));
    for (auto& v : kern) v = c.r.real(-1, 1);
    dsp::buff::Buffer<double> other(c.r.i(1, 5), fr);
    for (auto& v : other) v = c.r.real(-1, 1);
    dsp::iir::IIRFilter<double> f(3, 2);
    for (int i = 0; i < 3; ++i) f.set_a(i, c.r.real(-1, 1));
    for (int i = 0; i < 2; ++i) f.set_b(i, c.r.real(-.4, .4));
    ChainTimer t; t.set_samplerate(48000); t.set_channels(ch); t.add_sample(c.r.i(0, 99999));
    Collection<double> col;
    for (int i = 0; i < 3; ++i) { auto p = std::make_unique<double>(c.r.unit()); col.add_object(p); }
    c.d("threads=%d fr=%d ch=%d", n, fr, ch);
    c.nontrivial = fr * ch > 1;
    auto read = [&](const AudioBuffer& cb, const std::vector<double>& ck, const dsp::buff::Buffer<double>& co, const dsp::iir::IIRFilter<double>& cf, const ChainTimer& ct, const Collection<double>& cc) {
        parts::Sum s;
        for (auto i = cb.scbegin(); i < cb.scend(); ++i) { s(*i); s((uint64_t)i.get_channel()); s((uint64_t)i.get_sample()); }
        for (auto i = cb.icbegin(); i != cb.icend(); i++) s(*i);
        for (int j = 0; j < ch; ++j) for (int k = 0; k < fr; ++k) s(cb.at(j, k));
        s((uint64_t)cb.channel_capacity()); s((uint64_t)cb.channels()); s(cb.get_samplerate());
        AudioBuffer mine(cb);
        s.all(mine);
        std::vector<double> out(fr * ch + ck.size() - 1);
        dsp::conv::input_conv(cb.icbegin(), fr * ch, ck.begin(), ck.size(), out.begin());
        dsp::conv::output_conv(cb.scbegin(), fr * ch, ck.begin(), ck.size(), out.begin());
        for (double v : out) s(v);
        dsp::buff::Buffer<double> prod;
        dsp::mat::matrix_mult(cb, co, prod);
        s.all(prod);
        dsp::iir::IIRFilter<double> g(cf);           // each has its own history
        for (int i = 0; i < fr * ch; ++i) { double v = cb.at(i); g.process(&v, 1); s(v); }
        for (int i = 0; i < 3; ++i) s(cf.get_a(i));
        s((uint64_t)ct.get_time()); s((uint64_t)ct.get_samplerate());
        for (int i = 0; i < cc.num_objects(); ++i) s(*cc.get_object(i));
        return s.h;
    };
    std::barrier gate(n);
    std::vector<uint64_t> got(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { gate.arrive_and_wait(); for (int k = 0; k < 3; ++k) got[i] = read(b, kern, other, f, t, col); });
    for (auto& x : th) x.join();
    const uint64_t want = read(b, kern, other, f, t, col);
    for (int i = 0; i < n; ++i) VCHECK(got[i] == want, "readers-differ", "reader %d of %d saw something else", i, n);
    c.ev("shared_reads", 3 * n);
}
int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
