// P19: matrix products and dot products are the defining sums; a collection owns its objects, hands them out in order and frees each once;
// amplitude modules change every sample by exactly their value.
#include "vh.hpp"
#include <complex>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include "dsp/matrix.hpp"
#include "dsp/filt.hpp"
#include "dsp/filt.hpp"
#include "utils.hpp"
#include "meta.hpp"
#include "amp_module.hpp"
#include "source_module.hpp"
#include "sink_module.hpp"
using vh::Case;
typedef std::complex<double> C;
template <class T> static T val(Case& c) {
    if constexpr (std::is_integral_v<T>) return static_cast<T>(c.r.i(-50, 50));
    else if constexpr (std::is_same_v<T, C>) return C(c.r.real(-3, 3), c.r.real(-3, 3));
    else return static_cast<T>(c.r.chance(.2) ? c.r.i(-5, 5) : c.r.real(-3, 3));
}
typedef std::complex<long double> CL;
template <class T> static CL wide(T v) { return CL(static_cast<long double>(v)); }
static CL wide(C v) { return CL(v.real(), v.imag()); }

template <class T, class U> static void dots(Case& c, const char* name) {
    int n = c.r.chance(.1) ? c.r.i(0, 1) : c.r.chance(.03) ? c.r.i(61, 3000) : c.r.i(1, 60);
    std::vector<T> a(n + 3);
    std::deque<U> b(n + 3);
    for (auto& v : a) v = val<T>(c);
    for (auto& v : b) v = val<U>(c);
    CL want = 0;
    long double mag = 1;
    for (int i = 0; i < n; ++i) { want += wide(a[i]) * wide(b[i]); mag += std::abs(wide(a[i])) * std::abs(wide(b[i])); }
    c.d("%s n=%d ", name, n);
    c.fold((uint64_t)n); if (n) c.fold((uint64_t)(long long)std::real(wide(a[0]) * 1000.L));
    long double tol = std::is_same_v<T, float> || std::is_same_v<U, float> ? 1e-6L * n : 1e-15L * (n + 1);
    if (std::is_integral_v<T> && std::is_integral_v<U>) tol = 0;
    const std::vector<T>& ca = a;
    const std::deque<U>& cb = b;
    int how = c.r.i(0, 3);
    CL got = how == 0 ? wide(dsp::mat::dot_product(a.begin(), b.begin(), n))
           : how == 1 ? wide(dsp::mat::dot_product(ca.begin(), cb.begin(), n))
           : how == 2 ? wide(dsp::mat::dot_product(a.data(), b.cbegin(), n))
           : wide(dsp::mat::dot_product(ca.data(), b.begin(), n));
    VCHECK(std::abs(got - want) <= tol * mag, "dot", "%s n=%d how=%d: %.17Lg%+.17Lgi expected %.17Lg%+.17Lgi", name, n, how, got.real(), got.imag(), want.real(), want.imag());
    c.nontrivial = n > 1;
    c.ev("dot_products");
}
VSCENARIO(dot, 2500, 80000) {
    switch (c.r.i(0, 5)) {
        case 0: dots<double, double>(c, "double*double"); break;
        case 1: dots<float, float>(c, "float*float"); break;
        case 2: dots<int, int>(c, "int*int"); break;
        case 3: dots<C, C>(c, "complex*complex"); break;
        case 4: dots<double, int>(c, "double*int"); break;
        default: dots<long long, int>(c, "long*int");
    }
}

// every row and column of a buffer, through each kind of iterator
VSCENARIO(dot_buffer, 800, 20000) {
    int rows = c.r.chn(1, 7), cols = c.r.chance(.02) ? c.r.i(13, 600) : c.r.i(1, 12);
    dsp::buff::Buffer<double> a(cols, rows);
    std::vector<std::vector<double>> m(rows, std::vector<double>(cols));
    for (int r = 0; r < rows; ++r) for (int k = 0; k < cols; ++k) { m[r][k] = val<double>(c); a.at(r, k) = m[r][k]; c.fold(m[r][k]); }
    c.d("%dx%d ", rows, cols);
    c.nontrivial = rows > 1 && cols > 1;
    int r1 = c.r.i(0, rows - 1), r2 = c.r.i(0, rows - 1), k1 = c.r.i(0, cols - 1), k2 = c.r.i(0, cols - 1);
    auto x = a.scbegin(); x.set_channel(r1);
    auto y = a.scbegin(); y.set_channel(r2);
    long double w = 0;
    for (int k = 0; k < cols; ++k) w += (long double)m[r1][k] * m[r2][k];
    VCHECK(vh::close(dsp::mat::dot_product(x, y, cols), (double)w, 1e-10), "row-dot", "rows %d and %d", r1, r2);
    auto p = a.icbegin(); p.set_sample(k1);
    auto q = a.icbegin(); q.set_sample(k2);
    w = 0;
    for (int r = 0; r < rows; ++r) w += (long double)m[r][k1] * m[r][k2];
    VCHECK(vh::close(dsp::mat::dot_product(p, q, rows), (double)w, 1e-12), "column-dot", "columns %d and %d", k1, k2);
    c.ev("dot_products", 2);
}

template <class T, class U, class V> static void mult(Case& c, const char* name) {
    int n = c.r.i(1, 8), k = c.r.chance(.3) ? n : c.r.i(1, 8), m = c.r.chance(.3) ? n : c.r.i(1, 8);
    if (c.r.chance(.04)) { n = c.r.i(9, 40); k = c.r.chance(.5) ? n : c.r.i(1, 40); m = c.r.chance(.6) ? n : c.r.i(9, 40); }
    if (c.r.chance(.01)) (c.r.chance(.5) ? k : c.r.chance(.5) ? n : m) = c.r.i(60, 400);
    dsp::buff::Buffer<T> a(k, n);
    dsp::buff::Buffer<U> b(m, k);
    for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) a.at(i, j) = val<T>(c);
    for (int i = 0; i < k; ++i) for (int j = 0; j < m; ++j) b.at(i, j) = val<U>(c);
    dsp::buff::Buffer<T> a0 = a;
    dsp::buff::Buffer<U> b0 = b;
    // the result may be new or have been used for something of any shape
    int oc = c.r.i(1, 9), ol = c.r.i(0, 12);
    dsp::buff::Buffer<V> out(ol, oc);
    for (int i = 0; i < oc * ol; ++i) out.at(i) = V(777);
    if (c.r.chance(.3)) out = dsp::buff::Buffer<V>();
    c.d("%s %dx%d * %dx%d into %dx%d ", name, n, k, k, m, oc, ol);
    c.fold((uint64_t)(n * 10000 + k * 100 + m));
    c.fold((uint64_t)(long long)std::real(wide(a.at(0)) * 1e6L));
    c.nontrivial = n > 1 && m > 1 && k > 1;
    int rounds = c.r.i(1, 2);
    for (int rd = 0; rd < rounds; ++rd) {
        dsp::mat::matrix_mult(a, b, out);
        VCHECK((int)out.channels() == n && (int)out.size() == n * m && (int)out.channel_capacity() == m, "shape", "%s: result is %d x %d, expected %d x %d", name,
               (int)out.channels(), (int)out.channel_capacity(), n, m);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < m; ++j) {
                CL w = 0;
                for (int l = 0; l < k; ++l) w += wide(a0.at(i, l)) * wide(b0.at(l, j));
                CL g = wide(out.at(i, j));
                VCHECK(std::abs(g - w) <= 1e-12L * 100 + (std::is_same_v<V, float> ? 1e-5L * (10 + k) : 0), "product", "%s (%d,%d): %.17Lg expected %.17Lg", name, i, j, g.real(), w.real());
                c.ev("entries");
            }
    }
    for (int i = 0; i < n * k; ++i) VCHECK(a.at(i) == a0.at(i), "inputs", "A changed");
    for (int i = 0; i < k * m; ++i) VCHECK(b.at(i) == b0.at(i), "inputs", "B changed");
}
VSCENARIO(matrix, 2500, 80000) {
    switch (c.r.i(0, 3)) {
        case 0: mult<double, double, double>(c, "double"); break;
        case 1: mult<int, int, int>(c, "int"); break;
        case 2: mult<C, C, C>(c, "complex"); break;
        default: mult<float, float, float>(c, "float");
    }
}
// (AB)C = A(BC) and A * identity = A
VSCENARIO(matrix_laws, 500, 15000) {
    int n = c.r.i(1, 6), k = c.r.i(1, 6), m = c.r.i(1, 6), p = c.r.i(1, 6);
    typedef dsp::buff::Buffer<long long> B;
    auto rnd = [&](int r, int q) { B b(q, r); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) b.at(i, j) = c.r.i(-20, 20); return b; };
    B x = rnd(n, k), y = rnd(k, m), z = rnd(m, p), xy, yz, l, r, id(k, k), xi;
    c.d("%d %d %d %d ", n, k, m, p);
    c.fold((uint64_t)x.at(0)); c.fold((uint64_t)y.at(0)); c.fold((uint64_t)z.at(0));
    c.nontrivial = n + k + m + p > 6;
    dsp::mat::matrix_mult(x, y, xy); dsp::mat::matrix_mult(xy, z, l);
    dsp::mat::matrix_mult(y, z, yz); dsp::mat::matrix_mult(x, yz, r);
    VCHECK(l.size() == r.size() && l.channels() == r.channels(), "associative-shape", "%zu %zu", l.size(), r.size());
    for (std::size_t i = 0; i < l.size(); ++i) VCHECK(l.at(i) == r.at(i), "associative", "entry %zu: %lld and %lld", i, l.at(i), r.at(i));
    for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) id.at(i, j) = i == j;
    dsp::mat::matrix_mult(x, id, xi);
    VCHECK(xi.size() == x.size() && xi.channels() == x.channels(), "identity-shape", "%zu", xi.size());
    for (std::size_t i = 0; i < x.size(); ++i) VCHECK(xi.at(i) == x.at(i), "identity", "entry %zu", i);
    c.ev("laws", 2);
}

static std::map<int, int> g_freed;
struct Base { virtual ~Base() = default; virtual int id() const = 0; };
struct Obj : Base {
    int n; std::vector<int> load;
    explicit Obj(int k) : n(k), load(k % 7 + 1, k) {}
    ~Obj() override { ++g_freed[n]; VCHECK((int)load.size() == n % 7 + 1 && load[0] == n, "object-intact", "object %d", n); }
    int id() const override { return n; }
};
VSCENARIO(collection, 2500, 80000) {
    g_freed.clear();
    std::vector<int> model;                        // -1: released
    std::map<int, std::unique_ptr<Base>> mine;     // released objects, ours now
    std::set<int> dead;
    int next = 0;
    {
        auto col = std::make_unique<Collection<Base>>();
        int n = c.r.i(1, 60);
        auto check = [&] {
            VCHECK(col->num_objects() == (int)model.size(), "count", "%d of %zu", col->num_objects(), model.size());
            for (int i = 0; i < (int)model.size(); ++i) {
                Base* o = col->get_object(i);
                if (model[i] < 0) VCHECK(o == nullptr, "released-slot", "slot %d still holds an object", i);
                else VCHECK(o && o->id() == model[i], "order", "slot %d holds %d expected %d", i, o ? o->id() : -1, model[i]);
            }
            for (auto& kv : g_freed) VCHECK(kv.second == 1, "freed-twice", "object %d freed %d times", kv.first, kv.second);
            for (int k = 0; k < next; ++k) VCHECK(g_freed.count(k) == dead.count(k), "freed", "object %d: freed %d, expected %d", k, (int)g_freed.count(k), (int)dead.count(k));
            for (int bad : {-1, (int)model.size()}) {
                bool threw = false;
                try { col->get_object(bad); } catch (const std::out_of_range&) { threw = true; }
                VCHECK(threw, "range", "get_object(%d) of %zu did not throw", bad, model.size());
            }
        };
        for (int k = 0; k < n; ++k) {
            int op = c.r.i(0, 9);
            c.fold((uint64_t)op);
            if (op <= 4 || model.empty()) {
                std::unique_ptr<Base> p = std::make_unique<Obj>(next);
                Base* raw = p.get();
                col->add_object(p);
                VCHECK(!p, "ownership", "the pointer was not taken");
                model.push_back(next++);
                VCHECK(col->get_object((int)model.size() - 1) == raw, "added", "the added object is not last");
            } else if (op <= 6) {
                int i = c.r.i(0, (int)model.size() - 1);
                Base* o = col->release_object(i);
                if (model[i] < 0) VCHECK(o == nullptr, "released-again", "slot %d", i);
                else { VCHECK(o && o->id() == model[i], "released", "slot %d", i); mine[model[i]].reset(o); model[i] = -1; }
                c.ev("released");
            } else if (op <= 8) {
                int i = c.r.i(0, (int)model.size() - 1);
                if (model[i] >= 0) dead.insert(model[i]);
                col->free_object(i);
                model.erase(model.begin() + i);
                c.ev("freed");
            } else if (c.r.chance(.3)) {
                for (int id : model) if (id >= 0) dead.insert(id);
                col->clear();
                model.clear();
                c.ev("cleared");
            } else {
                // a collection may be moved, with what it owns
                auto other = std::make_unique<Collection<Base>>(std::move(*col));
                col = std::move(other);
                c.ev("moved");
            }
            check();
            c.ev("collection_ops");
        }
        for (int id : model) if (id >= 0) dead.insert(id);
        c.nontrivial = next > 2;
        c.d("objects=%d ops=%d ", next, n);
    }
    for (int k = 0; k < next; ++k) VCHECK(g_freed.count(k) == dead.count(k), "freed-at-end", "object %d: freed %d, expected %d", k, (int)g_freed.count(k), (int)dead.count(k));
    mine.clear();
    for (int k = 0; k < next; ++k) VCHECK(g_freed[k] == 1, "freed-once", "object %d freed %d times", k, g_freed[k]);
}

// gain and offset of every sample, in the order of the modules, in the format that came in
struct Src : SourceModule {
    std::vector<double> sent; vh::Rng* r = nullptr; int shift = 0;
    void process() override {
        reserve();
        if (shift) buff.resize(std::max<long>(0, (long)buff.size() + shift * (long)buff.channels()));
        sent.clear();
        for (std::size_t i = 0; i < buff.size(); ++i) { double v = r->chance(.1) ? r->of({0., 1., -1., 1e300, -1e-300}) : r->real(-2, 2); buff.at(i) = v; sent.push_back(v); }
    }
};
struct Snk : SinkModule<> {
    std::vector<double> got; int ch = 0; double rate = 0; const AudioBuffer* id = nullptr;
    void process() override { got.assign(buff.ibegin(), buff.iend()); ch = (int)buff.channels(); rate = buff.get_samplerate(); }
};
VSCENARIO(amplitude, 1500, 40000) {
    int bs = c.r.sz(0, 50), ch = c.r.chn(1, 5), n = c.r.i(1, 5);
    double rate = c.r.of({44100., 8000., 12345.});
    Src src; src.r = &c.r; src.shift = c.r.chance(.3) ? c.r.i(-3, 20) : 0;
    Snk snk;
    snk.get_chain_info()->buffer_size = bs; snk.get_chain_info()->channels = ch; snk.get_chain_info()->sample_rate = rate;
    std::vector<std::unique_ptr<BaseModule>> mods;
    std::vector<std::pair<int, double>> ops;
    BaseModule* last = &snk;
    for (int i = 0; i < n; ++i) {
        int kind = c.r.i(0, 1);
        double v = c.r.chance(.2) ? c.r.of({0., 1., -1., .5}) : c.r.real(-2, 2);
        bool later = c.r.chance(.3);
        if (kind) { auto m = later ? std::make_unique<AmplitudeAdd<>>() : std::make_unique<AmplitudeAdd<>>(v);
                    VCHECK(m->get_value() == (later ? 1 : v), "value", "%g", m->get_value()); m->set_value(v); mods.push_back(std::move(m)); }
        else { auto m = later ? std::make_unique<AmplitudeScale<>>() : std::make_unique<AmplitudeScale<>>(v);
               VCHECK(m->get_value() == (later ? 1 : v), "value", "%g", m->get_value()); m->set_value(v); mods.push_back(std::move(m)); }
        ops.push_back({kind, v});
        last = last->link(mods.back().get());
        c.d("%s%g ", kind ? "+" : "*", v); c.fold(v);
    }
    last->link(&src);
    snk.meta_info_sync(); snk.meta_start();
    c.d("bs=%d ch=%d ", bs, ch);
    c.nontrivial = n > 1 && bs > 0;
    for (int rd = c.r.i(1, 4); rd > 0; --rd) {
        if (c.r.chance(.3)) {
            int i = c.r.i(0, n - 1); double v = c.r.real(-3, 3); ops[i].second = v;
            if (auto* a = dynamic_cast<AmplitudeAdd<>*>(mods[i].get())) a->set_value(v); else dynamic_cast<AmplitudeScale<>*>(mods[i].get())->set_value(v);
        }
        snk.meta_process();
        VCHECK(snk.got.size() == src.sent.size() && snk.ch == ch && snk.rate == rate, "format", "%zu of %zu samples, %d channels", snk.got.size(), src.sent.size(), snk.ch);
        for (std::size_t i = 0; i < snk.got.size(); ++i) {
            double w = src.sent[i];
            for (int k = n - 1; k >= 0; --k) w = ops[k].first ? w + ops[k].second : w * ops[k].second;
            VCHECK(snk.got[i] == w, "amplitude", "sample %zu is %.17g expected %.17g", i, snk.got[i], w);
        }
        c.ev("amplified", snk.got.size());
    }
}

// invoke_method calls exactly the method, on the object itself, with the arguments as they are
struct Callee {
    int calls = 0; std::vector<int> seen; std::unique_ptr<int> kept;
    int sum(int a, int b) { ++calls; return a + b; }
    int twice(int a) const { return 2 * a; }
    void keep(std::unique_ptr<int> p) { kept = std::move(p); }
    void inc(int& a) { ++calls; ++a; seen.push_back(a); }
    virtual int who() { return 1; }
    virtual ~Callee() = default;
};
struct Callee2 : Callee { int who() override { return 2; } };
VSCENARIO(invoke, 200, 4000) {
    Callee x; Callee2 y;
    int a = c.r.i(-1000, 1000), b = c.r.i(-1000, 1000), d = a;
    VCHECK(invoke_method(x, &Callee::sum, a, b) == a + b && x.calls == 1, "invoke", "sum");
    VCHECK(invoke_method(x, &Callee::twice, a) == 2 * a, "invoke-const", "twice");
    invoke_method(x, &Callee::inc, d);
    VCHECK(d == a + 1 && x.calls == 2 && x.seen.back() == d, "invoke-reference", "%d", d);
    auto p = std::make_unique<int>(b); int* raw = p.get();
    invoke_method(x, &Callee::keep, std::move(p));
    VCHECK(x.kept.get() == raw && *raw == b && !p, "invoke-move", "moved argument");
    Callee& r = y;
    VCHECK(invoke_method(x, &Callee::who) == 1 && invoke_method(r, &Callee::who) == 2, "invoke-virtual", "who");
    VCHECK((is_numerical<int> && is_numerical<double> && is_numerical<char> && !is_numerical<C> && !is_numerical<int*> && !is_numerical<std::vector<int>>), "is-numerical", "concept");
    VCHECK((std::is_same_v<remove_qualifiers<const int&>, int> && std::is_same_v<remove_qualifiers<double*>, double>), "remove-qualifiers", "type");
    VCHECK((has_invocable_member_function<Callee, decltype(&Callee::sum), int, int> && !has_invocable_member_function<Callee, decltype(&Callee::sum), int>), "invocable", "concept");
    dsp::filt::FilterParams f;
    VCHECK(f.type == dsp::consts::FilterType::LowPass && f.start_freq == 0 && f.stop_freq == 0 && f.sra == dsp::consts::SAMPLE_RATE, "filter-params", "defaults");
    c.fold((uint64_t)a); c.fold((uint64_t)b); c.d("%d %d ", a, b);
    c.nontrivial = true;
    c.ev("invocations", 6);
}
int main(int a, char** v) { return vh::main_impl(a, v); }
