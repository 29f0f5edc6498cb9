// P09: mixing down sums all inputs sample by sample, each sampled once per round in order; mixing up hands out equal copies.
#include "vh.hpp"
#include <memory>
#include "amp_module.hpp"
#include "module_mixer.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
using St = BaseModule::State;
static std::vector<int> g_order;   // ids in the order things happened

struct Leaf : SourceModule {
    int id = 0; double base = 0, step = 1; int delta = 0;   // delta: emits that many frames more than asked
    long n = 0;
    double at(long k) const { return base + step * static_cast<double>(k % 1000); }
    void process() override {
        reserve();
        long want = std::max<long>(0, static_cast<long>(buff.size()) + delta * buff.channels());
        buff.resize(want);
        for (long i = 0; i < want; ++i) buff.at(i) = at(n++);
        g_order.push_back(id);
    }
    void start() override { g_order.push_back(1000 + id); }
    void stop() override { g_order.push_back(2000 + id); }
    void finish() override { g_order.push_back(3000 + id); done(); }
};
struct Node {
    int type;                // 0 leaf 1 gain 2 mixdown 3 multimix 4 mixup
    double gain = 1;
    std::unique_ptr<BaseModule> mod;
    Leaf* leaf = nullptr;
    std::vector<std::unique_ptr<Node>> kids;
    long n = 0;
    std::vector<double> last;
};
static int g_id;
static std::unique_ptr<Node> make(vh::Case& c, int depth) {
    auto x = std::make_unique<Node>();
    x->type = depth <= 0 ? 0 : c.r.of({0, 1, 2, 2, 2, 3, 4});
    int kids = x->type == 0 ? 0 : x->type == 1 || x->type == 4 ? 1 : c.r.chance(.08) ? 0 : depth == 1 && c.r.chance(.02) ? c.r.i(5, 40) : c.r.i(1, 4);
    if (x->type == 0) {
        auto l = std::make_unique<Leaf>();
        l->id = g_id++; l->base = c.r.real(-10, 10); l->step = c.r.real(-1, 1);
        if (c.r.chance(.2)) l->delta = c.r.i(-12, 12);
        x->leaf = l.get();
        c.d("L%d%s", l->id, l->delta ? "!" : "");
        x->mod = std::move(l);
        return x;
    }
    if (x->type == 1) { x->gain = c.r.real(-2, 2); x->mod = std::make_unique<AmplitudeScale<>>(x->gain); c.d("G("); }
    if (x->type == 2) { x->mod = std::make_unique<ModuleMixDown>(); c.d("D("); }
    if (x->type == 3) { x->mod = std::make_unique<MultiMix>(); c.d("M("); }
    if (x->type == 4) { x->mod = std::make_unique<ModuleMixUp>(); c.d("U("); }
    for (int i = 0; i < kids; ++i) {
        x->kids.push_back(make(c, depth - 1));
        BaseModule* r = x->mod->link(x->kids.back()->mod.get());
        VCHECK(r == x->kids.back()->mod.get(), "link-result", "link did not return the linked module");
    }
    if (auto* d = dynamic_cast<ModuleMixDown*>(x->mod.get())) VCHECK(d->num_inputs() == kids, "num-inputs", "%d of %d", d->num_inputs(), kids);
    c.d(")");
    return x;
}
static std::vector<double> model(Node& x, int bs, int ch, std::vector<int>& order) {
    std::vector<double> o;
    std::size_t len = static_cast<std::size_t>(bs) * ch;
    if (x.type == 0) {
        long want = std::max<long>(0, static_cast<long>(len) + x.leaf->delta * ch);
        for (long i = 0; i < want; ++i) o.push_back(x.leaf->at(x.n++));
        order.push_back(x.leaf->id);
        return o;
    }
    if (x.type == 1 || x.type == 4) { o = model(*x.kids[0], bs, ch, order); for (auto& v : o) v *= x.gain; return o; }
    o.assign(len, 0.);
    for (auto& k : x.kids) {
        auto v = model(*k, bs, ch, order);
        for (std::size_t i = 0; i < std::min(v.size(), len); ++i) o[i] += v[i];
    }
    return o;
}
static void walk(Node& x, const std::function<void(Node&)>& f) { for (auto& k : x.kids) walk(*k, f); f(x); }

struct Snk : SinkModule<> {
    std::vector<double> got; int ch = 0; double rate = 0;
    void process() override { got.assign(buff.ibegin(), buff.iend()); ch = buff.channels(); rate = buff.get_samplerate(); }
};
// mixers run their own hooks like any module: after their inputs, in the documented state, once
template <class M> struct Hooked : M {
    std::vector<std::pair<int, St>> seen; bool defer = false;
    void start() override { g_order.push_back(1999); seen.push_back({1, this->get_state()}); }
    void stop() override { g_order.push_back(2999); seen.push_back({2, this->get_state()}); }
    void finish() override { g_order.push_back(3999); seen.push_back({3, this->get_state()}); if (!defer) this->done(); }
};
template <class M> static void hooks(vh::Case& c) {
    Hooked<M> m;
    int n = std::is_same_v<M, ModuleMixUp> ? 1 : c.r.chance(.03) ? c.r.i(5, 40) : c.r.i(1, 4);
    std::vector<Leaf> l(n);
    Snk s;
    if (c.r.chance(.5)) s.link(&m);
    for (int i = 0; i < n; ++i) { l[i].id = i; m.link(&l[i]); VCHECK(l[i].forward() == &m, "link-forward", "input %d does not know its mixer", i); }
    s.link(&m);
    s.meta_info_sync();
    m.defer = c.r.chance(.3);
    c.d("inputs=%d defer=%d ", n, m.defer);
    c.nontrivial = n > 1;
    auto* ci = s.get_chain_info();
    for (int k = c.r.i(1, 6); k > 0; --k) {
        int what = c.r.i(1, 3), fin = ci->module_finish;
        for (int alone = c.r.i(0, 1); alone > 0; --alone) {
            BaseModule& x = c.r.chance(.5) ? static_cast<BaseModule&>(m) : l[c.r.i(0, n - 1)];
            int how = c.r.i(0, 2);
            if (how == 0) x.BaseModule::start(); else if (how == 1) x.BaseModule::stop(); else x.BaseModule::finish();
        }
        g_order.clear(); m.seen.clear();
        if (what == 1) s.meta_start(); else if (what == 2) s.meta_stop(); else s.meta_finish();
        c.d("%d", what);
        std::vector<int> e;
        for (int i = 0; i < n; ++i) e.push_back(1000 * what + i);
        e.push_back(1000 * what + 999);
        VCHECK(g_order == e, "hook-order", "call %d: %zu hooks ran of %zu, or in another order", what, g_order.size(), e.size());
        St in = what == 1 ? St::Started : what == 2 ? St::Stopped : St::Finishing;
        VCHECK(m.seen.size() == 1 && m.seen[0].second == in, "hook-state", "the hook ran in state %d", (int)m.seen[0].second);
        VCHECK(m.get_state() == (what == 3 ? m.defer ? St::Finishing : St::Finished : in), "after-state", "state %d", (int)m.get_state());
        VCHECK(ci->module_finish - fin == (what == 3 ? n + 2 - m.defer : 0), "hook-finish-count", "%d reported", ci->module_finish - fin);
        c.ev("mixer_hooks");
    }
}
VSCENARIO(mixer_hooks, 600, 12000) {
    switch (c.r.i(0, 2)) {
        case 0: c.d("down "); hooks<ModuleMixDown>(c); break;
        case 1: c.d("up "); hooks<ModuleMixUp>(c); break;
        default: c.d("multi "); hooks<MultiMix>(c); break;
    }
}
VSCENARIO(mix_tree, 2000, 60000) {
    g_order.clear(); g_id = 0;
    int depth = c.r.i(1, 4);
    auto t = std::make_unique<Node>();
    // the root is always a mixer
    do { t = make(c, depth); } while (t->type < 2 || t->type == 4);
    int bs = c.r.sz(0, 20), ch = c.r.chn(1, 4);
    double rate = c.r.of({44100., 8000., 96000.});
    c.d(" bs=%d ch=%d", bs, ch);
    g_order.clear();
    Snk s;
    auto* ci = s.get_chain_info();
    ci->buffer_size = bs; ci->channels = ch; ci->sample_rate = rate;
    s.link(t->mod.get());
    for (int k = c.r.i(1, 2); k > 0; --k) s.meta_info_sync();
    int nodes = 1, leaves = 0;
    walk(*t, [&](Node& x) {
        ++nodes;
        leaves += x.type == 0;
        auto* f = x.mod->get_info();
        VCHECK(f->out_buffer == bs && f->channels == ch && f->sample_rate == rate && x.mod->get_chain_info() == ci, "info", "node of type %d has %d %d %g", x.type, f->out_buffer, f->channels, f->sample_rate);
    });
    VCHECK(ci->module_num == nodes, "module-num", "%d counted of %d", ci->module_num, nodes);
    c.nontrivial = leaves > 1 && bs > 0;
    std::vector<int> leaf_ids;
    walk(*t, [&](Node& x) { if (x.leaf) leaf_ids.push_back(x.leaf->id); });
    auto life = [&](int base, St want, auto call, const char* key) {
        g_order.clear();
        call();
        std::vector<int> e;
        for (int i : leaf_ids) e.push_back(base + i);
        VCHECK(g_order == e, std::string(key) + "-order", "%zu calls for %zu leaves, or in another order", g_order.size(), e.size());
        walk(*t, [&](Node& x) { VCHECK(x.mod->get_state() == want, std::string(key) + "-state", "node of type %d in state %d", x.type, (int)x.mod->get_state()); });
        c.ev("lifecycle_calls", e.size());
    };
    auto play = [&](int rounds) {
    for (int k = 0; k < rounds; ++k) {
        if (c.r.chance(.15)) { ci->buffer_size = bs = c.r.sz(0, 20); ci->channels = ch = c.r.chn(1, 4); if (c.r.chance(.5)) ci->sample_rate = rate = c.r.of({44100., 8000., 96000., 11025.}); s.meta_info_sync(); }
        g_order.clear();
        s.meta_process();
        std::vector<int> order;
        auto e = model(*t, bs, ch, order);
        VCHECK(g_order == order, "process-order", "leaves processed %zu times, expected %zu, or in another order", g_order.size(), order.size());
        VCHECK(s.got.size() == e.size() && s.ch == ch && s.rate == rate, "shape", "%zu samples %d channels %g", s.got.size(), s.ch, s.rate);
        for (std::size_t i = 0; i < e.size(); ++i) VCHECK(vh::close(s.got[i], e[i], 1e-9), "sum", "round %d sample %zu is %.17g expected %.17g", k, i, s.got[i], e[i]);
        c.ev("mixed_samples", e.size());
        c.ev("leaf_calls", order.size());
    }
    };
    // some sessions in a row, a finished graph still plays until it is stopped
    for (int session = c.r.i(1, 3); session > 0; --session) {
        life(1000, St::Started, [&] { s.meta_start(); }, "start");
        play(c.r.i(0, 4));
        if (c.r.chance(.8)) {
            int fin = ci->module_finish;
            life(3000, St::Finished, [&] { s.meta_finish(); }, "finish");
            VCHECK(ci->module_finish - fin == nodes, "finish-count", "%d of %d reported", ci->module_finish - fin, nodes);
            play(c.r.i(0, 2));
        }
        life(2000, St::Stopped, [&] { s.meta_stop(); }, "stop");
        c.ev("sessions");
    }
}
// every forward module of a mix-up gets its own copy of what the round produced
template <class M> static void copies(vh::Case& c) {
    g_order.clear();
    M up;
    Leaf l; l.base = c.r.real(-1, 1); l.id = 0;
    if (c.r.chance(.2)) l.delta = c.r.i(-9, 9);
    up.link(&l);
    int outs = c.r.chance(.03) ? c.r.i(6, 40) : c.r.i(1, 5), bs = c.r.sz(1, 20), ch = c.r.chn(1, 4);
    std::vector<AmplitudeScale<>> f(outs);
    Snk s;
    s.get_chain_info()->buffer_size = bs; s.get_chain_info()->channels = ch; s.get_chain_info()->sample_rate = 8000;
    for (auto& m : f) { m.link(&up); VCHECK(&m.backward() == &up, "backward", "backward is not the mixer"); }
    VCHECK(up.num_outputs() == outs, "num-outputs", "%d of %d", up.num_outputs(), outs);
    s.link(&f.back());
    s.meta_info_sync();
    VCHECK(up.get_info()->channels == ch && up.get_info()->out_buffer == bs && up.get_chain_info() == s.get_chain_info(), "info", "info did not reach the mixer");
    c.d("outs=%d bs=%d ch=%d delta=%d multi=%d", outs, bs, ch, l.delta, (int)std::is_same_v<M, MultiMix>);
    c.nontrivial = outs > 1;
    std::size_t len = std::max(0, bs * ch + (std::is_same_v<M, MultiMix> ? 0 : l.delta * ch));
    long n = 0;
    for (int k = 0; k < 4; ++k) {
        if (k && c.r.chance(.4)) {
            if (c.r.chance(.5) && s.get_chain_info()->buffer_size == bs) bs = c.r.sz(1, 20); else ch = c.r.chn(1, 4);
            s.get_chain_info()->buffer_size = bs; s.get_chain_info()->channels = ch;
            s.meta_info_sync();
            len = std::max(0, bs * ch + (std::is_same_v<M, MultiMix> ? 0 : l.delta * ch));
            c.ev("copies_resized");
        }
        up.meta_process();
        VCHECK(g_order.size() == static_cast<std::size_t>(k + 1), "once", "input processed %zu times", g_order.size());
        auto look = [&] {       // looking at a copy does not use it up
            auto&& seen = up.get_buffer();
            VCHECK(seen.size() == len && seen.channels() == static_cast<std::size_t>(ch), "copy-shape", "%zu samples of %d channels, expected %zu of %d", seen.size(), (int)seen.channels(), len, ch);
            for (std::size_t j = 0; j < len; ++j) seen.at(j) = -1e9;
        };
        if (c.r.chance(.4)) look();
        std::vector<AudioBuffer> held;
        for (int i = 0; i < outs; ++i) {
            held.push_back(up.get_buffer());
            auto& b = held.back();
            VCHECK(b.size() == len && b.channels() == ch && b.get_samplerate() == 8000, "copy-shape", "copy %d: %zu samples of %d channels", i, b.size(), (int)b.channels());
            for (std::size_t j = 0; j < len; ++j) {
                double e = j < static_cast<std::size_t>(std::max(0, bs * ch + l.delta * ch)) ? l.at(n + j) : 0;
                VCHECK(vh::close(b.at(j), e, 1e-12), "copy-value", "copy %d sample %zu is %g expected %g", i, j, b.at(j), e);
                b.at(j) = 1e9;   // a consumer may overwrite its copy
            }
            c.ev("copies_checked");
        }
        if (c.r.chance(.4)) look();
        n += std::max(0, bs * ch + l.delta * ch);
    }
}
VSCENARIO(mix_up, 800, 15000) { copies<ModuleMixUp>(c); }
VSCENARIO(multi_mix, 500, 10000) { copies<MultiMix>(c); }
int main(int a, char** v) { return vh::main_impl(a, v); }
