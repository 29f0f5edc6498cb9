// P18: the ALSA sink plays every sample of its chain once, in order, on the device it opened, and releases what it takes.
// libasound is replaced by the recording stand-in below; nothing touches a real device.
#include "vh.hpp"
#include <map>
#include <memory>
#include <set>
#define ALSA_F 1
#include "io/alsa_module.hpp"
#include "source_module.hpp"
#ifdef __SANITIZE_ADDRESS__
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t heap() { return 0; }
#endif
using vh::Case;

// ---------------------------------------------------------------- the stand-in
struct Dev {
    bool has_name = true, has_desc = true;
    int io = 0;                 // 0 none 1 output 2 input 3 something else
    std::string name;
    bool exclusive = false;     // one handle at a time, as hardware has it
    int open_error = 0;
    unsigned cmin = 1, cmax = 2, rmin = 8000, rmax = 96000;
    unsigned long psmin = 16, psmax = 8192;
    unsigned pmin = 1, pmax = 8;
    unsigned cdef = 1, rdef = 44100, pdef = 4;
    unsigned long psdef = 64;
};
struct _snd_pcm_hw_params { int access, format, committed; unsigned channels, rate, periods; unsigned long psize; const Dev* dev; };
struct _snd_pcm {
    const Dev* dev;
    _snd_pcm_hw_params cfg;
    bool setup, xrun;
    std::vector<int16_t> played;
    int prepared;
    bool fresh;
};
struct Hint { const Dev* dev; };

struct World {
    std::vector<Dev> devs;
    bool hints_fail = false;
    double p_plug = 0, p_nohints = 0;        // devices come and go, and the list cannot always be had
    size_t there = ~size_t(0);               // how many of them are there
    std::set<_snd_pcm*> live;
    std::set<void**> hints;
    std::string wrong;
    long opens = 0, closes = 0, writes = 0, underruns = 0, shorts = 0, errors = 0;
    vh::Rng* r = nullptr;
    double p_xrun = 0, p_short = 0, p_err = 0;
    bool xrun_again = false;
    bool lost = false;                       // audio was lost on purpose
    struct Session { const Dev* dev; _snd_pcm_hw_params cfg; std::vector<int16_t> played; bool drained; };
    std::vector<Session> done;
    std::map<_snd_pcm*, bool> drained;
    std::set<_snd_pcm*> dropped;             // before it was drained
    _snd_pcm* last = nullptr;
};
static World* W;
static void wrong(const std::string& s) { if (W->wrong.empty()) W->wrong = s; }
static bool alive(_snd_pcm* p, const char* fn) {
    if (p && W->live.count(p)) return true;
    wrong(std::string(fn) + (p ? " on a handle that was closed" : " on a null handle"));
    return false;
}
extern "C" {
int snd_device_name_hint(int, const char* iface, void*** hints) {
    if (std::string(iface) != "pcm") wrong("hints of another interface");
    if (W->hints_fail || W->r->chance(W->p_nohints)) return -12;
    if (W->r->chance(W->p_plug)) W->there = W->r->i(0, static_cast<int>(W->devs.size()));
    const size_t num = std::min(W->there, W->devs.size());
    void** h = static_cast<void**>(malloc((num + 1) * sizeof(void*)));
    for (size_t i = 0; i < num; ++i) { Hint* x = static_cast<Hint*>(malloc(sizeof(Hint))); x->dev = &W->devs[i]; h[i] = x; }
    h[num] = nullptr;
    W->hints.insert(h);
    *hints = h;
    return 0;
}
int snd_device_name_free_hint(void** hints) {
    if (!W->hints.erase(hints)) { wrong("hints freed that are not there"); return -1; }
    for (void** n = hints; *n; ++n) free(*n);
    free(hints);
    return 0;
}
char* snd_device_name_get_hint(const void* hint, const char* id) {
    const Dev* d = static_cast<const Hint*>(hint)->dev;
    const std::string k(id);
    if (k == "NAME") return d->has_name ? strdup(d->name.c_str()) : nullptr;
    if (k == "DESC") return d->has_desc ? strdup(("about " + d->name).c_str()) : nullptr;
    if (k == "IOID") return d->io == 0 ? nullptr : strdup(d->io == 1 ? "Output" : d->io == 2 ? "Input" : "Duplex");
    return nullptr;
}
int snd_pcm_open(snd_pcm_t** pcm, const char* name, snd_pcm_stream_t stream, int mode) {
    if (stream != SND_PCM_STREAM_PLAYBACK || mode != 0) wrong("opened for something else than playback");
    const Dev* d = nullptr;
    for (auto& x : W->devs) if (x.has_name && x.name == name) { d = &x; break; }
    if (!d) return -2;
    if (d->open_error) return d->open_error;
    if (d->exclusive) for (auto* l : W->live) if (l->dev == d) return -16;
    _snd_pcm* p = new _snd_pcm{d, {}, false, false, {}, 0, true};
    W->live.insert(p);
    W->last = p;
    ++W->opens;
    *pcm = p;
    return 0;
}
int snd_pcm_close(snd_pcm_t* p) {
    if (!alive(p, "snd_pcm_close")) return -77;
    W->live.erase(p);
    ++W->closes;
    if (p->setup && !p->played.empty()) W->done.push_back({p->dev, p->cfg, p->played, W->drained[p]});
    if (W->last == p) W->last = nullptr;
    W->dropped.erase(p); W->drained.erase(p);   // the address may come again
    delete p;
    return 0;
}
int snd_pcm_hw_free(snd_pcm_t* p) {
    if (!alive(p, "snd_pcm_hw_free")) return -77;
    if (!p->setup) return 0;
    return 0;
}
int snd_pcm_drain(snd_pcm_t* p) {
    if (!alive(p, "snd_pcm_drain")) return -77;
    if (!W->dropped.count(p)) W->drained[p] = true;
    return 0;
}
int snd_pcm_drop(snd_pcm_t* p) {
    if (!alive(p, "snd_pcm_drop")) return -77;
    W->dropped.insert(p);        // what waits in the device is never heard
    return 0;
}
int snd_pcm_prepare(snd_pcm_t* p) {
    if (!alive(p, "snd_pcm_prepare")) return -77;
    p->xrun = W->xrun_again && W->r->chance(.5);
    if (p->xrun) W->lost = true;
    ++p->prepared;
    p->fresh = !p->xrun;
    return 0;
}
int snd_pcm_recover(snd_pcm_t* p, int err, int) { return err == -EPIPE ? snd_pcm_prepare(p) : err; }
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t* p, const void* buf, snd_pcm_uframes_t frames) {
    if (!alive(p, "snd_pcm_writei")) return -77;
    ++W->writes;
    if (!p->setup) { W->lost = true; return -77; }
    if (p->xrun) { ++W->underruns; return -EPIPE; }
    if (W->r->chance(W->p_err)) { ++W->errors; W->lost = true; return -19; }
    const bool fresh = p->fresh;            // nothing can run dry before it got something
    p->fresh = false;
    if (!fresh && W->r->chance(W->p_xrun)) { p->xrun = true; ++W->underruns; return -EPIPE; }
    if (frames > 1 && W->r->chance(W->p_short)) { frames = static_cast<unsigned long>(W->r->range(1, static_cast<long>(frames) - 1)); ++W->shorts; }
    const int16_t* s = static_cast<const int16_t*>(buf);
    p->played.insert(p->played.end(), s, s + frames * p->cfg.channels);       // reads all it was promised
    return static_cast<snd_pcm_sframes_t>(frames);
}
size_t snd_pcm_hw_params_sizeof(void) { return sizeof(_snd_pcm_hw_params); }
int snd_pcm_hw_params_any(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
    if (!alive(p, "snd_pcm_hw_params_any")) return -77;
    *h = {-1, -1, 0, 0, 0, 0, 0, p->dev};
    return 0;
}
int snd_pcm_hw_params_set_rate_resample(snd_pcm_t* p, snd_pcm_hw_params_t*, unsigned) { return alive(p, "set_rate_resample") ? 0 : -77; }
int snd_pcm_hw_params_set_access(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_access_t a) { if (!alive(p, "set_access")) return -77; h->access = a; return 0; }
int snd_pcm_hw_params_set_format(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_format_t f) { if (!alive(p, "set_format")) return -77; h->format = f; return 0; }
#define SETTER(fn, field, type, lo, hi)                                                                          \
    int fn(snd_pcm_t* p, snd_pcm_hw_params_t* h, type v, int) {                                                  \
        if (!alive(p, #fn)) return -77;                                                                          \
        if (v < h->dev->lo || v > h->dev->hi) return -22;                                                        \
        h->field = v;                                                                                            \
        return 0;                                                                                                \
    }
SETTER(snd_pcm_hw_params_set_rate, rate, unsigned, rmin, rmax)
SETTER(snd_pcm_hw_params_set_periods, periods, unsigned, pmin, pmax)
SETTER(snd_pcm_hw_params_set_period_size, psize, snd_pcm_uframes_t, psmin, psmax)
int snd_pcm_hw_params_set_channels(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned v) {
    if (!alive(p, "set_channels")) return -77;
    if (v < h->dev->cmin || v > h->dev->cmax) return -22;
    h->channels = v;
    return 0;
}
int snd_pcm_hw_params(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
    if (!alive(p, "snd_pcm_hw_params")) return -77;
    const Dev* d = h->dev;
    if (!h->channels) h->channels = d->cdef;
    if (!h->rate) h->rate = d->rdef;
    if (!h->periods) h->periods = d->pdef;
    if (!h->psize) h->psize = d->psdef;
    h->committed = 1;
    p->cfg = *h;
    p->setup = true;
    return 0;
}
#define GETTER(fn, type, expr)                                                  \
    int fn(const snd_pcm_hw_params_t* h, type* v, int* dir) { if (dir) *dir = 0; *v = static_cast<type>(expr); return 0; }
GETTER(snd_pcm_hw_params_get_periods_max, unsigned, h->dev->pmax)
GETTER(snd_pcm_hw_params_get_periods_min, unsigned, h->dev->pmin)
GETTER(snd_pcm_hw_params_get_period_size_max, snd_pcm_uframes_t, h->dev->psmax)
GETTER(snd_pcm_hw_params_get_period_size_min, snd_pcm_uframes_t, h->dev->psmin)
GETTER(snd_pcm_hw_params_get_period_time_min, unsigned, h->dev->psmin * 1000000 / h->dev->rmax)
GETTER(snd_pcm_hw_params_get_period_time_max, unsigned, h->dev->psmax * 1000000 / h->dev->rmin)
GETTER(snd_pcm_hw_params_get_periods, unsigned, h->periods)
GETTER(snd_pcm_hw_params_get_period_size, snd_pcm_uframes_t, h->psize)
GETTER(snd_pcm_hw_params_get_period_time, unsigned, h->psize * 1000000 / h->rate)
GETTER(snd_pcm_hw_params_get_rate, unsigned, h->rate)
GETTER(snd_pcm_hw_params_get_rate_max, unsigned, h->dev->rmax)
GETTER(snd_pcm_hw_params_get_rate_min, unsigned, h->dev->rmin)
#define GETTER2(fn, type, expr) \
    int fn(const snd_pcm_hw_params_t* h, type* v) { *v = static_cast<type>(expr); return 0; }
GETTER2(snd_pcm_hw_params_get_channels, unsigned, h->channels)
GETTER2(snd_pcm_hw_params_get_channels_max, unsigned, h->dev->cmax)
GETTER2(snd_pcm_hw_params_get_channels_min, unsigned, h->dev->cmin)
GETTER2(snd_pcm_hw_params_get_buffer_size, snd_pcm_uframes_t, h->psize * h->periods)
GETTER2(snd_pcm_hw_params_get_buffer_size_max, snd_pcm_uframes_t, h->dev->psmax * h->dev->pmax)
GETTER2(snd_pcm_hw_params_get_buffer_size_min, snd_pcm_uframes_t, h->dev->psmin * h->dev->pmin)
int snd_pcm_hw_params_get_sbits(const snd_pcm_hw_params_t*) { return 16; }
// not used today; here so that other ways to say the same are judged by what they play
int snd_pcm_wait(snd_pcm_t* p, int) { return alive(p, "snd_pcm_wait") ? 1 : -77; }
int snd_pcm_start(snd_pcm_t* p) { return alive(p, "snd_pcm_start") ? 0 : -77; }
int snd_pcm_resume(snd_pcm_t* p) { return alive(p, "snd_pcm_resume") ? 0 : -77; }
int snd_pcm_pause(snd_pcm_t* p, int) { return alive(p, "snd_pcm_pause") ? 0 : -77; }
int snd_pcm_nonblock(snd_pcm_t* p, int) { return alive(p, "snd_pcm_nonblock") ? 0 : -77; }
int snd_pcm_reset(snd_pcm_t* p) { return alive(p, "snd_pcm_reset") ? 0 : -77; }
snd_pcm_sframes_t snd_pcm_avail(snd_pcm_t* p) { return !alive(p, "snd_pcm_avail") ? -77 : p->xrun ? -EPIPE : 1 << 20; }
snd_pcm_sframes_t snd_pcm_avail_update(snd_pcm_t* p) { return snd_pcm_avail(p); }
snd_pcm_state_t snd_pcm_state(snd_pcm_t* p) { return !alive(p, "snd_pcm_state") || !p->setup ? SND_PCM_STATE_OPEN : p->xrun ? SND_PCM_STATE_XRUN : p->fresh ? SND_PCM_STATE_PREPARED : SND_PCM_STATE_RUNNING; }
const char* snd_pcm_name(snd_pcm_t* p) { return alive(p, "snd_pcm_name") ? p->dev->name.c_str() : ""; }
const char* snd_strerror(int) { return "error"; }
#define NEAR(fn, field, type, lo, hi)                                                                     \
    int fn(snd_pcm_t* p, snd_pcm_hw_params_t* h, type* v, int*) {                                              \
        if (!alive(p, #fn)) return -77;                                                                        \
        *v = std::clamp<type>(*v, h->dev->lo, h->dev->hi);                                                     \
        h->field = *v;                                                                                         \
        return 0;                                                                                              \
    }
NEAR(snd_pcm_hw_params_set_rate_near, rate, unsigned, rmin, rmax)
NEAR(snd_pcm_hw_params_set_periods_near, periods, unsigned, pmin, pmax)
NEAR(snd_pcm_hw_params_set_period_size_near, psize, snd_pcm_uframes_t, psmin, psmax)
int snd_pcm_hw_params_set_channels_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned* v) {
    if (!alive(p, "set_channels_near")) return -77;
    *v = std::clamp(*v, h->dev->cmin, h->dev->cmax);
    h->channels = *v;
    return 0;
}
int snd_pcm_hw_params_malloc(snd_pcm_hw_params_t** h) { *h = static_cast<snd_pcm_hw_params_t*>(calloc(1, sizeof(snd_pcm_hw_params_t))); return 0; }
void snd_pcm_hw_params_free(snd_pcm_hw_params_t* h) { free(h); }
void snd_pcm_hw_params_copy(snd_pcm_hw_params_t* d, const snd_pcm_hw_params_t* s) { *d = *s; }
int snd_pcm_hw_params_current(snd_pcm_t* p, snd_pcm_hw_params_t* h) { if (!alive(p, "hw_params_current")) return -77; *h = p->cfg; h->dev = p->dev; return 0; }
int snd_pcm_hw_params_test_channels(snd_pcm_t*, snd_pcm_hw_params_t* h, unsigned v) { return v < h->dev->cmin || v > h->dev->cmax ? -22 : 0; }
int snd_pcm_hw_params_test_rate(snd_pcm_t*, snd_pcm_hw_params_t* h, unsigned v, int) { return v < h->dev->rmin || v > h->dev->rmax ? -22 : 0; }
int snd_pcm_hw_params_test_format(snd_pcm_t*, snd_pcm_hw_params_t*, snd_pcm_format_t f) { return f == SND_PCM_FORMAT_S16 ? 0 : -22; }
int snd_pcm_hw_params_test_access(snd_pcm_t*, snd_pcm_hw_params_t*, snd_pcm_access_t a) { return a == SND_PCM_ACCESS_RW_INTERLEAVED ? 0 : -22; }
}

// ---------------------------------------------------------------- the chain
struct Src : SourceModule {
    long n = 0;
    int calls = 0, frames = 0, ch = 0;
    std::vector<int> codes;                 // what was handed out, interleaved
    void process() override {
        ++calls;
        reserve();
        frames = get_info()->out_buffer;
        ch = get_info()->channels;
        buff = AudioBuffer(frames, ch, get_info()->sample_rate);
        for (int f = 0; f < frames; ++f)
            for (int k = 0; k < ch; ++k) {
                const int code = static_cast<int>((n * 37 + 11) % 60001) - 30000;
                ++n;
                codes.push_back(code);
                buff.at(k, f) = code < 0 ? (code - 0.5) / 32768.0 : (code + 0.5) / 32767.0;
            }
    }
};
// what is played is what was handed out (within one step of the format)
static void same(Case& c, const std::vector<int16_t>& played, const std::vector<int>& codes, bool lost, const char* key) {
    if (!lost) VCHECK(played.size() == codes.size(), key, "%zu samples played of %zu", played.size(), codes.size());
    size_t j = 0;
    for (size_t i = 0; i < played.size(); ++i) {
        if (lost) while (j < codes.size() && std::abs(played[i] - codes[j]) > 1) ++j;
        VCHECK(j < codes.size() && std::abs(played[i] - codes[j]) <= 1, key, "played sample %zu is %d, expected %d", i, played[i], j < codes.size() ? codes[j] : -99999);
        ++j;
    }
    c.ev("samples_played", played.size());
}
static Dev device(Case& c, int i) {
    Dev d;
    d.name = i == 0 && c.r.chance(.8) ? "default" : "hw:" + std::to_string(i);
    d.has_name = i == 0 || !c.r.chance(.1);
    d.has_desc = !c.r.chance(.2);
    d.io = c.r.i(0, 3);
    d.exclusive = c.r.chance(.5);
    d.open_error = c.r.chance(.15) ? c.r.of({-2, -16, -13}) : 0;
    d.cmin = c.r.i(1, 3);
    d.cmax = d.cmin + c.r.chn(0, 3);
    d.cdef = c.r.i(d.cmin, d.cmax);
    if (c.r.chance(.2)) { d.rmin = 48000; d.rdef = 48000; }
    d.psdef = c.r.chance(.05) ? c.r.of({441, 512, 1024, 4096}) : c.r.i(16, 200);
    d.pdef = c.r.i(1, 5);
    return d;
}
static void world(Case& c, World& w) {
    w.r = &c.r;
    W = &w;
    const int n = c.r.chance(.05) ? 0 : c.r.chance(.06) ? c.r.i(5, 40) : c.r.i(1, 4);
    for (int i = 0; i < n; ++i) w.devs.push_back(device(c, i));
    if (n > 1 && c.r.chance(.1))               // devices of one card have long names that differ at the end
        for (int i = c.r.i(0, 1); i < n; ++i) w.devs[i].name = std::string(c.r.of({"surround51:CARD=Generic_1,DEV=", "hdmi:CARD=A-rather-long-name-of-a-card-that-somebody-chose,DEV="})) + static_cast<char>('0' + i % 10) + static_cast<char>('0' + i / 10);
    w.hints_fail = c.r.chance(.03);
}
static void settled(const World& w, const char* when) {
    VCHECK(w.wrong.empty(), "misuse", "%s (%s)", w.wrong.c_str(), when);
    VCHECK(w.hints.empty(), "hints_leak", "%zu lists of hints not freed (%s)", w.hints.size(), when);
}
static void check_info(const DeviceInfo& d, const Dev* x, bool exact) {
    if (x->open_error) { VCHECK(d.load_fail, "load_fail", "device %s cannot be opened, load_fail is not set", x->name.c_str()); return; }
    VCHECK(!d.load_fail, "load_fail", "device %s can be opened, load_fail is set", x->name.c_str());
    VCHECK(d.channels_min == x->cmin && d.channels_max == x->cmax && d.period_min == x->pmin && d.period_max == x->pmax && d.period_size_min == x->psmin &&
               d.period_size_max == x->psmax && d.sample_rate_min == x->rmin && d.sample_rate_max == x->rmax, "limits", "wrong limits of device %s", x->name.c_str());
    VCHECK(d.buffer_size == d.period * d.period_size && d.buffer_size_min == x->psmin * x->pmin && d.buffer_size_max == x->psmax * x->pmax, "limits", "wrong buffer size of device %s", x->name.c_str());
    if (!exact) return;
    VCHECK(d.channels == (1 < x->cmin || 1 > x->cmax ? x->cdef : 1), "settings", "%u channels", d.channels);
    VCHECK(d.sample_rate == (44100 < x->rmin || 44100 > x->rmax ? x->rdef : 44100), "settings", "rate %u", d.sample_rate);
    VCHECK(d.period == x->pdef && d.period_size == x->psdef, "settings", "%u periods of %lu", d.period, d.period_size);
}

VSCENARIO(devices, 3000, 30000) {
    World w;
    world(c, w);
    const size_t h0 = heap();
    {
        ALSABase b;
        const int n = w.hints_fail ? 0 : static_cast<int>(w.devs.size());
        VCHECK(b.get_device_count() == n, "count", "%d devices of %d", b.get_device_count(), n);
        for (int k = 0; k < 4; ++k) {
            const int i = c.r.i(-1, n);
            DeviceInfo d = b.get_device_by_id(i);
            if (i >= 0 && i < n) {
                const Dev& x = w.devs[i];
                VCHECK(d.id == i && d.name == (x.has_name ? x.name : ""), "by_id", "device %d is %d '%s'", i, d.id, d.name.c_str());
                VCHECK(d.description == (x.has_desc ? "about " + x.name : ""), "by_id", "description '%s'", d.description.c_str());
                VCHECK(d.output == (x.io < 2) && d.input == (x.io == 0 || x.io == 2), "direction", "io %d: input %d output %d", x.io, d.input, d.output);
                if (x.has_name) check_info(d, &x, true);
            } else VCHECK(d.load_fail, "no_device", "device %d of %d does not exist, load_fail is not set", i, n);
            std::string name = c.r.chance(.2) || !n ? "nothing" : w.devs[c.r.i(0, n - 1)].name;
            DeviceInfo e = b.get_device_by_name(name);
            const Dev* x = nullptr;
            int xi = 0;
            for (auto& q : w.devs) { if (n && q.has_name && q.name == name) { x = &q; break; } ++xi; }
            if (x) {
                VCHECK(e.name == name && e.id == xi, "by_name", "asked for %s, got %d '%s'", name.c_str(), e.id, e.name.c_str());
                check_info(e, x, true);
                if (!x->open_error) {       // ask for something else
                    e.channels = c.r.i(0, 7);
                    e.sample_rate = c.r.of<unsigned>({0, 8000, 22050, 48000, 192000});
                    e.period = c.r.i(0, 9);
                    e.period_size = c.r.of<unsigned long>({0, 16, 100, 1024, 5000});
                    const DeviceInfo q = e;
                    e.update();
                    check_info(e, x, false);
                    VCHECK(e.channels == (q.channels >= x->cmin && q.channels <= x->cmax ? q.channels : x->cdef), "update", "%u channels asked, %u set, device has %u..%u", q.channels, e.channels, x->cmin, x->cmax);
                    VCHECK(e.sample_rate == (q.sample_rate >= x->rmin && q.sample_rate <= x->rmax ? q.sample_rate : x->rdef), "update", "rate %u asked, %u set", q.sample_rate, e.sample_rate);
                    VCHECK(e.period == (q.period >= x->pmin && q.period <= x->pmax ? q.period : x->pdef), "update", "%u periods asked, %u set", q.period, e.period);
                    VCHECK(e.period_size == (q.period_size >= x->psmin && q.period_size <= x->psmax ? q.period_size : x->psdef), "update", "period size %lu asked, %lu set", q.period_size, e.period_size);
                    c.ev("updates");
                }
            } else VCHECK(e.name.empty(), "by_name", "there is no %s, got '%s'", name.c_str(), e.name.c_str());
            c.ev("device_queries", 2);
        }
        settled(w, "devices");
        VCHECK(w.live.empty(), "handle_leak", "%zu handles left open by asking for devices (%ld opened)", w.live.size(), w.opens);
        c.d("devices %d opens %ld ", n, w.opens);
        c.nontrivial = n > 1;
    }
    const size_t h1 = heap();
    VCHECK(h1 <= h0 + 512, "leak", "%zu bytes of the heap are not given back", h1 - h0);
}

// devices are plugged in and out between any two questions
VSCENARIO(hotplug, 1500, 15000) {
    World w;
    world(c, w);
    w.hints_fail = false;
    const size_t h0 = heap();
    {
        ALSABase b;
        w.p_plug = c.r.real(0, 1);
        w.p_nohints = c.r.chance(.5) ? c.r.real(0, .5) : 0;
        const int n = static_cast<int>(w.devs.size());
        int found = 0;
        for (int k = c.r.i(1, 12); k > 0; --k) {
            const int count = b.get_device_count();
            VCHECK(count == 0 || count == static_cast<int>(std::min(w.there, w.devs.size())), "count", "%d devices counted of %d", count, n);
            const int i = c.r.i(-2, n + 1);
            const DeviceInfo d = b.get_device_by_id(i);
            if (i < 0 || i >= n) VCHECK(d.load_fail, "no_device", "device %d of at most %d", i, n);
            else if (d.id == i && d.name == (w.devs[i].has_name ? w.devs[i].name : "")) {
                if (w.devs[i].has_name) { ++found; if (!d.load_fail) check_info(d, &w.devs[i], true); }
            } else VCHECK(d.load_fail, "by_id", "device %d is %d '%s'", i, d.id, d.name.c_str());
            if (w.p_nohints == 0 && i >= 0 && i < static_cast<int>(std::min(w.there, w.devs.size())) && w.p_plug == 0)
                VCHECK(d.id == i, "by_id", "device %d not found", i);
            const std::string name = n ? w.devs[c.r.i(0, n - 1)].name : "nothing";
            const DeviceInfo e = b.get_device_by_name(name);
            VCHECK(e.name.empty() || e.name == name, "by_name", "asked for %s, got %s", name.c_str(), e.name.c_str());
            settled(w, "hotplug");
            VCHECK(w.live.empty(), "handle_leak", "%zu handles left open", w.live.size());
            c.ev("device_queries", 3);
        }
        c.ev("hotplug_found", found);
        c.d("hotplug %d devices %d found there %zu plug %.2g ", n, found, w.there, w.p_plug);
        c.nontrivial = n > 1;
    }
    const size_t h1 = heap();
    VCHECK(h1 <= h0 + 512, "leak", "%zu bytes of the heap are not given back", h1 - h0);
}

VSCENARIO(playback, 4000, 40000) {
    World w;
    world(c, w);
    if (!w.devs.empty() && c.r.chance(.8)) { w.devs[0].open_error = 0; w.devs[0].name = "default"; w.hints_fail = false; }
    {
        ALSASink s;
        Src src;
        const int n = static_cast<int>(w.devs.size());
        int which = 0;
        if (n > 1 && c.r.chance(.4)) {
            which = c.r.i(0, n - 1);
            if (c.r.chance(.5)) s.set_device(which);
            else s.set_device(w.devs[which].name);
        }
        bool stale = false;
        if (c.r.chance(.5)) {
            DeviceInfo d = s.get_device();
            if (c.r.chance(.6)) d.channels = c.r.chn(0, 6);
            if (c.r.chance(.4)) d.sample_rate = c.r.of<unsigned>({0, 8000, 22050, 48000});
            if (c.r.chance(.4)) d.period = c.r.i(1, 4);
            if (c.r.chance(.4)) d.period_size = c.r.i(16, 120);
            if (c.r.chance(.8)) d.update();
            else stale = true;              // the user did not follow the advice
            s.set_device(d);
        }
        s.link(&src);
        if (c.r.chance(.4)) {           // the chain was set up for something else before
            s.get_chain_info()->channels = c.r.i(1, 6);
            s.get_chain_info()->sample_rate = c.r.of<double>({8000, 11025, 96000});
            s.get_chain_info()->buffer_size = c.r.i(1, 999);
        }
        const int syncs = c.r.i(1, 2);
        for (int i = 0; i < syncs; ++i) s.meta_info_sync();
        const DeviceInfo di = s.get_device();
        c.d("playback dev %d ch %u rate %u periods %u size %lu stale %d ", which, di.channels, di.sample_rate, di.period, di.period_size, stale);
        if (!di.load_fail && !di.name.empty() && !stale) {
            const ChainInfo& ci = *s.get_chain_info();
            VCHECK(ci.channels == static_cast<int>(di.channels) && ci.sample_rate == di.sample_rate, "chain_format", "chain of %d channels at %g, the device has %u at %u", ci.channels, ci.sample_rate,
                   di.channels, di.sample_rate);
            VCHECK(src.get_info()->channels == ci.channels && src.get_info()->sample_rate == ci.sample_rate && src.get_info()->out_buffer == s.get_info()->out_buffer, "chain_sync",
                   "the source has %d channels at %g in buffers of %d", src.get_info()->channels, src.get_info()->sample_rate, src.get_info()->out_buffer);
            VCHECK(ci.module_num == 2, "module_num", "%d modules counted after %d syncs", ci.module_num, syncs);
            VCHECK(s.get_period() == static_cast<int>(di.period), "periods", "%d periods, the device has %u", s.get_period(), di.period);
        }
        const int sessions = c.r.i(1, 3);
        for (int k = 0; k < sessions; ++k) {
            const int mode = c.r.i(0, 3);   // 0 no faults 1 short writes 2 underruns 3 all of it
            w.p_short = mode == 1 || mode == 3 ? .4 : 0;
            w.p_xrun = mode >= 2 ? .3 : 0;
            w.p_err = mode == 3 ? .05 : 0;
            w.xrun_again = mode == 3;
            w.lost = false;
            if (c.r.chance(.1) && k) s.alsa_start();        // started again without stopping
            w.done.clear();
            src.codes.clear();
            s.meta_start();
            const bool open = !w.live.empty();
            VCHECK(w.live.size() <= 1, "handles", "%zu handles open after starting", w.live.size());
            _snd_pcm_hw_params cfg{};
            if (open) {
                cfg = (*w.live.begin())->cfg;
                VCHECK(cfg.access == SND_PCM_ACCESS_RW_INTERLEAVED && cfg.format == SND_PCM_FORMAT_S16, "config", "opened with access %d format %d", cfg.access, cfg.format);
                if (!stale) VCHECK(cfg.channels == di.channels && cfg.rate == di.sample_rate && cfg.psize == di.period_size && cfg.periods == di.period, "config",
                       "started with %u channels at %u, %u periods of %lu", cfg.channels, cfg.rate, cfg.periods, cfg.psize);
            }
            const int rounds = c.r.chance(.03) ? c.r.i(7, 40) : c.r.i(0, 6);
            const int calls0 = src.calls;
            for (int r = 0; r < rounds; ++r) s.meta_process();
            VCHECK(src.calls - calls0 == rounds * s.get_period(), "rounds", "%d buffers for %d rounds of %d periods", src.calls - calls0, rounds, s.get_period());
            std::vector<int16_t> played;
            if (open) {
                played = (*w.live.begin())->played;
                if (!stale) same(c, played, src.codes, w.lost, "played");
                else VCHECK(played.size() <= src.codes.size(), "played", "%zu samples played of %zu", played.size(), src.codes.size());
            }
            settled(w, "playing");
            s.meta_stop();
            VCHECK(w.live.empty(), "handle_leak", "%zu handles open after stopping", w.live.size());
            if (!played.empty()) VCHECK(w.done.size() == 1 && w.done[0].drained, "drain", "the device was not drained before closing");
            if (c.r.chance(.2)) s.meta_stop();
            settled(w, "stopped");
            VCHECK(w.opens == w.closes, "handle_leak", "%ld handles opened, %ld closed", w.opens, w.closes);
            c.ev("sessions");
            if (open) c.ev("sessions_open");
            c.nontrivial |= open && rounds > 1;
            c.fold(static_cast<uint64_t>(played.size()));
        }
        if (c.r.chance(.2)) s.meta_process();        // after stopping: plays nothing, breaks nothing
        settled(w, "after stopping");
    }
    c.ev("underruns", w.underruns);
    c.ev("short_writes", w.shorts);
    c.ev("device_errors", w.errors);
}
int main(int a, char** v) { return vh::main_impl(a, v); }
