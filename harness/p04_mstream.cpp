// P04: byte streams over memory and over files behave like one model: a byte array and a position.
#include "vh.hpp"
#include <algorithm>
#include <csignal>
#include <fstream>
#include <memory>
#include <sys/resource.h>
#include <sys/stat.h>
#include <vector>
#include "io/mstream.hpp"

static bool good(BaseMIStream& s) { return s.good(); }
static bool good(BaseMOStream& s) { return s.good(); }
static bool bad(BaseMIStream& s) { return s.bad(); }
static bool bad(BaseMOStream& s) { return s.bad(); }
using Bytes = std::vector<unsigned char>;

static std::string scratch(const char* tag) {
    static int n = 0;
    const char* d = getenv("VERIF_SCRATCH");
    return std::string(d ? d : ".") + "/f" + std::to_string(getpid()) + "_" + std::to_string(n++) + tag;
}
static Bytes slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return Bytes(std::istreambuf_iterator<char>(f), {});
}
static void spit(const std::string& p, const Bytes& b) {
    std::ofstream f(p, std::ios::binary);
    f.write(reinterpret_cast<const char*>(b.data()), b.size());
}
static Bytes rnd(vh::Rng& r, int n) {
    Bytes b(n);
    for (auto& x : b) x = static_cast<unsigned char>(r.next());
    return b;
}

struct OutModel {
    Bytes a;
    std::size_t pos = 0;
    void write(const Bytes& b) {
        if (b.empty()) return;
        if (a.size() < pos + b.size()) a.resize(pos + b.size());
        std::copy(b.begin(), b.end(), a.begin() + pos);
        pos += b.size();
    }
};

// one random history applied to both kinds of output stream
VSCENARIO(output_history, 1500, 30000) {
    int init = c.r.chance(.4) ? c.r.i(1, 40) : 0;
    CharOStream mem = init ? CharOStream(init) : CharOStream();
    Bytes start = rnd(c.r, init);
    std::copy(start.begin(), start.end(), mem.get_array().begin());
    FOStream file;
    std::string path = scratch(".o");
    if (c.r.chance(.5)) spit(path, rnd(c.r, c.r.i(1, 50)));  // stale content is replaced
    file.set_path(path);
    VCHECK(file.get_path() == path, "path", "%s", file.get_path().c_str());
    VCHECK(good(mem) && good(file) && mem.get_state() == CharOStream::init, "fresh-state", "not good before start");
    mem.start(); file.start();
    VCHECK(good(mem) && good(file) && !bad(mem) && mem.get_state() == CharOStream::started && file.get_state() == FOStream::started, "start-state", "start");
    OutModel mm, fm;
    mm.a = start;
    c.d("init=%d ", init);
    int ops = c.r.i(1, 25), over = 0;
    for (int o = 0; o < ops; ++o) {
        if (c.r.chance(.6)) {
            int n = c.r.chance(.1) ? c.r.chance(.1) ? c.r.i(9000, 140000) : c.r.i(0, 9000) : c.r.i(0, 30);
            Bytes b = rnd(c.r, n);
            Bytes keep = b;
            mem.write(reinterpret_cast<char*>(b.data()), n);
            file.write(reinterpret_cast<char*>(b.data()), n);
            VCHECK(b == keep, "write-const", "write changed its input");
            if (mm.pos < mm.a.size()) ++over;
            mm.write(b); fm.write(b);
            c.d("w%d@%zu ", n, fm.pos);
            c.ev("bytes_written", 2 * n);
        } else {
            int to = c.r.i(0, static_cast<int>(std::max(mm.a.size(), fm.a.size())) + (c.r.chance(.2) ? 20 : 0));
            mem.seek(to); file.seek(to);
            mm.pos = fm.pos = to;
            c.d("s%d ", to);
            c.ev("seeks", 2);
        }
        c.ev("stream_ops", 2);
        VCHECK(mem.get_array() == mm.a, "mem-content", "memory content differs from the model after op %d (%zu bytes, model %zu)", o,
               mem.get_array().size(), mm.a.size());
        VCHECK(good(mem) && good(file), "good", "stream bad after op %d", o);
    }
    mem.stop(); file.stop();
    VCHECK(bad(mem) && bad(file) && !good(mem) && mem.get_state() == CharOStream::stopped && file.get_state() == FOStream::stopped, "stop-state", "stop");
    Bytes got = slurp(path);
    unlink(path.c_str());
    VCHECK(got == fm.a, "file-content", "file has %zu bytes, model %zu, or they differ", got.size(), fm.a.size());
    c.nontrivial = over > 0;
    c.ev("overwrites", over);
}

VSCENARIO(input_history, 1500, 30000) {
    Bytes data = rnd(c.r, c.r.chance(.1) ? c.r.i(0, 3) : c.r.chance(.03) ? c.r.i(300, 70000) : c.r.i(0, 300));
    CharIStream mem(static_cast<int>(data.size()));
    mem.get_array() = data;
    std::string path = scratch(".i");
    spit(path, data);
    FIStream file;
    file.set_path(path);
    mem.start(); file.start();
    VCHECK(good(mem) && good(file) && mem.get_state() == CharIStream::started && file.get_state() == FIStream::started, "in-start", "start");
    std::size_t pos = 0;
    c.d("len=%zu ", data.size());
    int ops = c.r.i(1, 30);
    bool ended = false;
    for (int o = 0; o < ops && !ended; ++o) {
        c.ev("stream_ops", 2);
        if (c.r.chance(.25)) {
            pos = c.r.i(0, data.size());
            mem.seek(pos); file.seek(pos);
            c.d("s%zu ", pos);
            c.ev("seeks", 2);
        } else {
            int n = c.r.sz(0, 40);
            std::vector<char> a(n + 8, 'C'), b(n + 8, 'C');
            mem.read(a.data() + 4, n); file.read(b.data() + 4, n);
            std::size_t got = std::min<std::size_t>(n, data.size() - pos);
            std::vector<char> e(n + 8, 'C');
            std::copy_n(data.begin() + pos, got, e.begin() + 4);
            VCHECK(a == e, "mem-read", "memory read of %d at %zu of %zu differs", n, pos, data.size());
            VCHECK(b == e, "file-read", "file read of %d at %zu of %zu differs", n, pos, data.size());
            bool shortr = got < static_cast<std::size_t>(n);
            pos += got;
            c.d("r%d ", n);
            c.ev("bytes_read", 2 * got);
            VCHECK(good(mem) == !shortr, "mem-state", "after reading %d with %zu left: good=%d", n, got, good(mem));
            VCHECK(good(file) == !shortr, "file-state", "after reading %d with %zu left: good=%d", n, got, good(file));
            if (shortr) { ended = true; c.ev("short_reads", 2); VCHECK(mem.get_state() == CharIStream::stopped && file.get_state() == FIStream::stopped, "short-stop", "state"); }
        }
    }
    if (ended) {  // exhausted streams stay exhausted
        std::vector<char> a(20, 'C'), b(20, 'C');
        mem.read(a.data(), 10); file.read(b.data(), 10);
        VCHECK(bad(mem) && bad(file), "exhausted", "became good again");
        VCHECK(a == std::vector<char>(20, 'C') && b == a, "exhausted-data", "data out of an exhausted stream");
    }
    mem.stop(); file.stop();
    VCHECK(bad(mem) && bad(file), "in-stop", "good after stop");
    unlink(path.c_str());
    c.nontrivial = data.size() > 1 && ops > 2;
}

// what one side wrote, the other reads back, in any split
VSCENARIO(transfer, 800, 15000) {
    Bytes data = rnd(c.r, c.r.i(1, 20000));
    c.d("len=%zu ", data.size());
    c.nontrivial = data.size() > 100;
    std::string path = scratch(".t");
    FOStream fo; fo.set_path(path); fo.start();
    CharOStream mo; mo.start();
    for (std::size_t p = 0; p < data.size();) {
        int n = std::min<std::size_t>(c.r.i(1, c.r.chance(.1) ? 9000 : 700), data.size() - p);
        fo.write(reinterpret_cast<char*>(data.data() + p), n);
        mo.write(reinterpret_cast<char*>(data.data() + p), n);
        p += n;
    }
    fo.stop(); mo.stop();
    FIStream fi; fi.set_path(path); fi.start();
    CharIStream mi; mi.get_array() = mo.get_array(); mi.start();
    Bytes a, b;
    std::size_t left = data.size();
    while (left) {
        int n = std::min<std::size_t>(c.r.i(1, 900), left);
        std::vector<char> x(n), y(n);
        fi.read(x.data(), n); mi.read(y.data(), n);
        VCHECK(good(fi) && good(mi), "transfer-good", "bad with %zu left", left);
        a.insert(a.end(), x.begin(), x.end()); b.insert(b.end(), y.begin(), y.end());
        left -= n;
    }
    VCHECK(a == data, "transfer-file", "bytes changed through the file");
    VCHECK(b == data, "transfer-mem", "bytes changed through memory");
    char one;
    fi.read(&one, 1); mi.read(&one, 1);
    VCHECK(bad(fi) && bad(mi), "transfer-end", "end not reported");
    c.ev("bytes_written", 2 * data.size()); c.ev("bytes_read", 2 * data.size());
    unlink(path.c_str());
}

// all of it at once: megabytes in a single call
VSCENARIO(at_once, 8, 100) {
    const int n = c.r.i(1, 4 << 20) / (c.r.chance(.5) ? 1 : 8) + 300000;
    Bytes data(n);
    uint64_t x = c.r.next();
    for (int i = 0; i < n; ++i) { x = x * 6364136223846793005u + 1442695040888963407u; data[i] = static_cast<unsigned char>(x >> 56); }
    c.d("len=%d", n);
    c.nontrivial = true;
    std::string path = scratch(".b");
    FOStream fo; fo.set_path(path); fo.start();
    CharOStream mo; mo.start();
    const int part = c.r.chance(.5) ? 0 : c.r.i(1, 9);
    fo.write(reinterpret_cast<char*>(data.data()), part); mo.write(reinterpret_cast<char*>(data.data()), part);
    fo.write(reinterpret_cast<char*>(data.data() + part), n - part); mo.write(reinterpret_cast<char*>(data.data() + part), n - part);
    VCHECK(good(fo) && good(mo), "once-write", "bad after writing %d bytes", n);
    fo.stop(); mo.stop();
    VCHECK(slurp(path) == data, "once-file", "the file of %d bytes differs", n);
    VCHECK(mo.get_array() == data, "once-mem", "memory of %d bytes differs", n);
    FIStream fi; fi.set_path(path); fi.start();
    CharIStream mi; mi.get_array() = data; mi.start();
    Bytes a(n), b(n);
    const int at = c.r.i(0, 9);
    fi.seek(at); mi.seek(at);
    fi.read(reinterpret_cast<char*>(a.data() + at), n - at); mi.read(reinterpret_cast<char*>(b.data() + at), n - at);
    VCHECK(good(fi) && good(mi), "once-read", "bad after reading %d bytes", n);
    std::copy_n(data.begin(), at, a.begin()); std::copy_n(data.begin(), at, b.begin());
    VCHECK(a == data && b == data, "once-read-data", "%d bytes read at once differ", n);
    c.ev("bytes_written", 2 * n); c.ev("bytes_read", 2 * n); c.ev("stream_ops", 4);
    unlink(path.c_str());
}

// faults: missing files, unwritable places, a medium that fills up
VSCENARIO(faults, 300, 4000) {
    int kind = c.r.i(0, 2);
    c.nontrivial = true;
    if (kind == 0) {
        c.d("open missing input");
        FIStream f; f.set_path(scratch(".missing"));
        f.start();
        VCHECK(bad(f), "missing-input", "good after opening a missing file");
        VCHECK(f.get_state() == FIStream::err, "missing-input-err", "state %d", f.get_state());
        char b[4] = {1, 2, 3, 4};
        f.read(b, 4);
        VCHECK(b[0] == 1 && b[3] == 4 && bad(f), "missing-read", "read from nothing");
    } else if (kind == 1) {
        c.d("open unwritable output");
        FOStream f; f.set_path(scratch("") + "/no/such/dir/x");
        f.start();
        VCHECK(bad(f) && f.get_state() == FOStream::err, "unwritable", "state %d", f.get_state());
        char b[4] = {1, 2, 3, 4};
        f.write(b, 4);
        VCHECK(bad(f), "unwritable-write", "good after failed write");
    } else {
        int limit = c.r.i(0, 4) * 4096;
        int total = limit + 16384 + c.r.i(0, 30000);
        c.d("medium full after %d of %d bytes", limit, total);
        std::string path = scratch(".full");
        signal(SIGXFSZ, SIG_IGN);
        rlimit old, lim;
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = limit;
        FOStream f; f.set_path(path); f.start();
        Bytes data = rnd(c.r, total);
        bool failed = false;
        setrlimit(RLIMIT_FSIZE, &lim);
        for (int p = 0; p < total; p += 2048) f.write(reinterpret_cast<char*>(data.data() + p), std::min(2048, total - p));
        failed = bad(f);
        f.stop();
        setrlimit(RLIMIT_FSIZE, &old);
        Bytes got = slurp(path);
        unlink(path.c_str());
        VCHECK(failed, "full-silent", "%d bytes written to a medium full at %d, stream still good", total, limit);
        VCHECK(got.size() <= static_cast<std::size_t>(limit) && std::equal(got.begin(), got.end(), data.begin()), "full-prefix", "content is not a prefix");
    }
    c.ev("faults_injected");
}

// one stream object used for several files in turn
VSCENARIO(reuse, 300, 4000) {
    FIStream fi; FOStream fo;
    c.nontrivial = true;
    std::string path = scratch(".r");
    for (int k = 0; k < 4; ++k) {
        // a medium that fails in between does not matter to the next one
        if (c.r.chance(.35)) {
            char x = 1;
            fo.set_path(path + "/no/such/dir"); fo.start();
            VCHECK(bad(fo) && fo.get_state() == FOStream::err, "reuse-fail-out", "good after opening nothing at use %d", k);
            if (c.r.chance(.5)) { fo.write(&x, 1); VCHECK(bad(fo), "reuse-fail-out", "good after writing to nothing at use %d", k); }
            if (c.r.chance(.5)) fo.stop();
            c.d("failed out ");
            c.ev("faults_injected");
        }
        if (c.r.chance(.35)) {
            char x = 1;
            fi.set_path(path + ".missing"); fi.start();
            VCHECK(bad(fi) && fi.get_state() == FIStream::err, "reuse-fail-in", "good after opening nothing at use %d", k);
            if (c.r.chance(.5)) { fi.read(&x, 1); VCHECK(bad(fi) && x == 1, "reuse-fail-in", "read from nothing at use %d", k); }
            if (c.r.chance(.5)) fi.stop();
            c.d("failed in ");
            c.ev("faults_injected");
        }
        Bytes d = rnd(c.r, c.r.i(1, 200));
        fo.set_path(path); fo.start();
        VCHECK(good(fo) && fo.get_state() == FOStream::started, "reuse-out", "bad at use %d", k);
        fo.write(reinterpret_cast<char*>(d.data()), d.size()); fo.stop();
        VCHECK(bad(fo) && fo.get_state() == FOStream::stopped, "reuse-out", "not stopped at use %d", k);
        // (also replaces a longer file)
        VCHECK(slurp(path) == d, "reuse-file", "use %d", k);
        fi.set_path(path); fi.start();
        VCHECK(good(fi) && fi.get_state() == FIStream::started, "reuse-in", "bad at use %d", k);
        Bytes g(d.size() + 1);
        fi.read(reinterpret_cast<char*>(g.data()), d.size() + c.r.i(0, 1));
        g.pop_back();
        VCHECK(g == d, "reuse-data", "use %d", k);
        fi.stop();
        VCHECK(bad(fi) && fi.get_state() == FIStream::stopped, "reuse-in", "not stopped at use %d", k);
        if (c.r.chance(.5)) unlink(path.c_str());
        c.d("%zu ", d.size());
        c.ev("stream_ops", 6);
    }
    unlink(path.c_str());
}
int main(int a, char** v) { return vh::main_impl(a, v); }
