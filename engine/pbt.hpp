// Choice-sequence property-based testing: every random decision of a case is one bounded
// integer drawn through Src and recorded; a case is replayed from the recorded list, and
// shrinking (done by check.py, out of process) edits that list.  Value 0 is always the
// simplest alternative.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt
{
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(a * 0x9e3779b97f4a7c15ull ^ mix(b)); }
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 0x1234;
    for (unsigned char c : s) h = mix(h, c);
    return h;
}

struct Fail {
    std::string msg;
};
struct Discard {
};

// progress of the case being run, visible to the driver if this process dies
struct Progress {
    static constexpr size_t MAXC = 1 << 15;
    uint64_t cases_started;
    uint64_t n;
    uint64_t choices[MAXC];
};

struct Src {
    bool replaying = false;
    std::vector<uint64_t> pre;
    std::vector<uint64_t> rec;
    std::vector<bool> redraw;
    uint64_t state = 0;
    Progress* prog = nullptr;
    bool mute = false; // secondary replays of the same case do not touch the progress file

    static Src random(uint64_t seed)
    {
        Src s;
        s.state = seed;
        return s;
    }
    static Src replay(std::vector<uint64_t> c)
    {
        Src s;
        s.replaying = true;
        s.pre = std::move(c);
        return s;
    }
    // the choices of another case, redrawn at the marked positions and where they no longer fit
    static Src variant(uint64_t seed, const std::vector<uint64_t>& base)
    {
        Src s = random(seed);
        s.pre = base;
        s.redraw.assign(base.size(), false);
        int n = 1 + (int)(mix(seed + 1) % 3);
        for (int i = 0; i < n && !base.empty(); i++) s.redraw[mix(seed + 2 + i) % base.size()] = true;
        return s;
    }
    // uniform in [0, bound)
    uint64_t draw(uint64_t bound)
    {
        uint64_t v;
        size_t at = rec.size();
        if (bound <= 1)
            v = 0;
        else if (!replaying && at < redraw.size() && !redraw[at] && pre[at] < bound)
            v = pre[at];
        else if (replaying) {
            v = rec.size() < pre.size() ? pre[rec.size()] : 0;
            if (v >= bound) v = bound - 1;
        } else {
            state += 0x9e3779b97f4a7c15ull;
            v = (uint64_t)(((unsigned __int128)mix(state) * bound) >> 64);
        }
        if (rec.size() >= Progress::MAXC) throw Discard{};
        rec.push_back(v);
        if (prog && !mute) {
            prog->choices[rec.size() - 1] = v;
            prog->n = rec.size();
        }
        return v;
    }
    // lo..hi, lo simplest
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
    // value in [lo,hi], nearest to `zero` simplest
    int64_t around(int64_t lo, int64_t hi, int64_t zero)
    {
        if (zero < lo) zero = lo;
        if (zero > hi) zero = hi;
        uint64_t k = draw((uint64_t)(hi - lo + 1));
        int64_t up = hi - zero, dn = zero - lo;
        int64_t m = up < dn ? up : dn; // symmetric part: 0,+1,-1,+2,-2..
        if (k <= (uint64_t)(2 * m)) return k % 2 ? zero + (int64_t)(k + 1) / 2 : zero - (int64_t)k / 2;
        int64_t r = (int64_t)k - m;
        return up > dn ? zero + r : zero - r;
    }
    bool flip() { return draw(2) == 1; }
    // true with probability num/den; false is simplest
    bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
    // weighted alternative, index 0 simplest
    int weighted(std::initializer_list<int> w)
    {
        uint64_t tot = 0;
        for (int x : w) tot += x;
        uint64_t r = draw(tot);
        int i = 0;
        for (int x : w) {
            if (r < (uint64_t)x) return i;
            r -= x;
            i++;
        }
        return i - 1;
    }
    template <class T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + draw(l.size()));
    }
};

struct Ctx {
    Src& s;
    bool want_desc = false;
    bool nontrivial = false;
    std::string flavour;
    std::ostringstream desc;
    std::map<std::string, uint64_t> labels;
    explicit Ctx(Src& s) : s(s) {}
    void label(const std::string& l) { labels[l]++; }
    template <class... A>
    void note(const A&... a)
    {
        if (want_desc) ((desc << a), ...);
    }
};

template <class... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    ((o << a), ...);
    return o.str();
}
template <class... A>
[[noreturn]] void fail(const A&... a)
{
    throw Fail{cat(a...)};
}

using Prop = std::function<void(Ctx&)>;
inline std::map<std::string, Prop>& registry()
{
    static std::map<std::string, Prop> r;
    return r;
}
struct Reg {
    Reg(const char* n, Prop p) { registry()[n] = p; }
};

inline std::string json_escape(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32)
            o += ' ';
        else
            o += c;
    }
    return o;
}

// one choice list per case; a line ";" separates the cases of a history
inline std::vector<std::vector<uint64_t>> read_choices(const char* f)
{
    std::ifstream in(f);
    std::vector<std::vector<uint64_t>> v(1);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        if (line[0] == ';') {
            v.emplace_back();
            continue;
        }
        std::istringstream is(line);
        uint64_t x;
        while (is >> x) v.back().push_back(x);
    }
    return v;
}

// usage: bin list | bin replay PROP FILE | bin run PROP SEED WORKER NCASES SECONDS OUTBASE
//        bin dump PROP SEED WORKER FROM TO FILE   (choices of a stretch of a worker's cases)
inline int main_(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "list";
    if (mode == "list") {
        for (auto& [n, p] : registry()) std::puts(n.c_str());
        return 0;
    }
    auto it = registry().find(argv[2]);
    if (it == registry().end()) {
        std::fprintf(stderr, "unknown property %s\n", argv[2]);
        return 3;
    }
    auto& prop = it->second;
    auto start = [&](uint64_t seed, uint64_t worker, uint64_t i) {
        return mix(mix(seed, hash_str(argv[2])), mix(worker + 1, i));
    };
    if (mode == "replay") {
        // the cases of a history run in one process, one after another
        auto cases = read_choices(argv[3]);
        std::string desc;
        for (size_t k = 0; k < cases.size(); k++) {
            Src s = Src::replay(cases[k]);
            Ctx c(s);
            c.want_desc = true;
            try {
                prop(c);
            } catch (Fail& f) {
                std::printf("CASE %s\nFAIL %s\nAT %zu\n", c.desc.str().c_str(), f.msg.c_str(), k);
                std::printf("CHOICES");
                for (auto x : s.rec) std::printf(" %llu", (unsigned long long)x);
                std::printf("\n");
                return 10;
            } catch (Discard&) {
                if (k + 1 == cases.size()) std::puts("DISCARD");
                continue;
            }
            desc = c.desc.str();
        }
        std::printf("CASE %s\nPASS\n", desc.c_str());
        return 0;
    }
    // one case in four repeats the case before it with a few choices redrawn: the same call
    // again with other numbers, say, which shows what a routine remembers of earlier calls
    std::vector<uint64_t> last;
    auto source = [&](uint64_t seed, uint64_t worker, uint64_t i) {
        return i % 4 == 3 ? Src::variant(start(seed, worker, i), last) : Src::random(start(seed, worker, i));
    };
    if (mode == "dump" && argc >= 8) {
        uint64_t seed = std::strtoull(argv[3], 0, 10), worker = std::strtoull(argv[4], 0, 10);
        uint64_t from = std::strtoull(argv[5], 0, 10), to = std::strtoull(argv[6], 0, 10);
        std::ofstream o(argv[7]);
        if (from % 4 == 3) from--;
        for (uint64_t i = from; i < to; i++) {
            Src s = source(seed, worker, i);
            Ctx c(s);
            try {
                prop(c);
            } catch (Fail&) {
            } catch (Discard&) {
            }
            last = s.rec;
            if (i > from) o << ";\n";
            for (auto x : s.rec) o << x << " ";
            o << std::endl;
        }
        return 0;
    }
    if (mode != "run" || argc < 8) return 3;
    uint64_t seed = std::strtoull(argv[3], 0, 10), worker = std::strtoull(argv[4], 0, 10);
    uint64_t ncases = std::strtoull(argv[5], 0, 10);
    double cap = std::atof(argv[6]);
    std::string out = argv[7];
    int fd = open((out + ".prog").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) return 3;
    auto* prog = (Progress*)mmap(0, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (prog == MAP_FAILED) return 3;
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    };
    uint64_t ran = 0, disc = 0, nontriv = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::string failmsg;
    std::vector<uint64_t> failchoices;
    bool failed = false;
    uint64_t failindex = 0;
    for (uint64_t i = 0; i < ncases && el() < cap; i++) {
        Src s = source(seed, worker, i);
        s.prog = prog;
        prog->n = 0;
        prog->cases_started = i + 1;
        Ctx c(s);
        c.want_desc = samples.size() < 3;
        try {
            prop(c);
        } catch (Fail& f) {
            failed = true;
            failindex = i;
            failmsg = f.msg;
            failchoices = s.rec;
            ran++;
            break;
        } catch (Discard&) {
            disc++;
            last = s.rec;
            continue;
        }
        last = s.rec;
        ran++;
        for (auto& [l, n] : c.labels) labels[l] += n;
        if (c.nontrivial) {
            nontriv++;
            uint64_t h = 7;
            for (auto x : s.rec) h = mix(h, x);
            if (seen.size() < 4000000) seen.insert(h);
            if (c.want_desc) samples.push_back(c.desc.str());
        }
    }
    {
        std::ofstream o(out + ".hash", std::ios::binary);
        for (auto h : seen) o.write((char*)&h, 8);
    }
    std::ofstream o(out + ".json.tmp");
    o << "{\"ran\":" << ran << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv
      << ",\"wall\":" << el() << ",\"failed\":" << (failed ? "true" : "false") << ",\"msg\":\""
      << json_escape(failmsg) << "\",\"index\":" << failindex << ",\"choices\":[";
    for (size_t i = 0; i < failchoices.size(); i++) o << (i ? "," : "") << failchoices[i];
    o << "],\"labels\":{";
    bool first = true;
    for (auto& [l, n] : labels) {
        o << (first ? "" : ",") << "\"" << json_escape(l) << "\":" << n;
        first = false;
    }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++)
        o << (i ? "," : "") << "\"" << json_escape(samples[i]) << "\"";
    o << "]}\n";
    o.close();
    std::rename((out + ".json.tmp").c_str(), (out + ".json").c_str());
    return failed ? 10 : 0;
}
} // namespace pbt

#define PROP(NAME) \
    static void NAME(pbt::Ctx&); \
    static pbt::Reg reg_##NAME(#NAME, NAME); \
    static void NAME(pbt::Ctx& c)
