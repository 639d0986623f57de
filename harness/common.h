// Shared by all harness programs: random numbers, reporting, command line, watchdog.
#pragma once
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t* c = (const uint8_t*)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t w;
        memcpy(&w, c + i, 8);
        h = mix(h ^ w);
    }
    uint64_t w = n;
    for (; i < n; ++i)
        w = (w << 8) | c[i];
    return mix(h ^ w);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1)
        : s(mix(seed))
    {
    }
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        return mix(s);
    }
    // 0..n-1
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T>
    void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[below(i)]);
    }
};

inline std::string jsonEscape(const std::string& s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c < 0x20 || c >= 0x7f) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += (char)c;
    }
    return r;
}

inline std::string hex(const std::string& s, size_t max = 400)
{
    std::string r;
    char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        snprintf(b, sizeof b, "%02x", (unsigned char)s[i]);
        r += b;
    }
    if (s.size() > max)
        r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}

// Where the run is; a mapped file, so that it survives a crash.
struct Progress {
    volatile uint64_t* p = nullptr;
    uint64_t dummy[4] = { 0, 0, 0, 0 };
    void open(const std::string& file)
    {
        int fd = ::open(file.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 4096) != 0) {
            perror("progress");
            exit(3);
        }
        p = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    void set(uint64_t c)
    {
        if (p)
            p[0] = c + 1;
    }
};

struct Report {
    std::string prop, part;
    uint64_t seed = 1, from = 0, count = 0;
    bool thorough = false;
    bool single = false; // replaying one case
    bool mute = false; // the sanitizer decides, what the workload finds itself belongs to other properties
    std::string hashFile;
    std::string input; // in hex: replaying one input found by mutation
    FILE* out = nullptr;
    Progress progress;

    std::mutex mx;
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::vector<std::string> samples;
    std::map<std::string, unsigned> seen;
    uint64_t violations = 0;
    std::atomic<uint64_t> current { 0 };
    std::atomic<uint64_t> beat { 0 };
    std::atomic<bool> done { false };
    unsigned caseTimeout = 45;
    uint64_t rss = 0;

    void violation(const std::string& key, const std::string& detail)
    {
        std::lock_guard<std::mutex> l(mx);
        if (mute && key.compare(0, 7, "harness")) {
            ++counters["muted: " + key];
            return;
        }
        ++violations;
        if (seen[key]++ < 2) {
            fprintf(out, "V {\"key\":\"%s\",\"case\":%" PRIu64 ",\"detail\":\"%s\"}\n", jsonEscape(key).c_str(), current.load(),
                jsonEscape(detail.substr(0, 3000)).c_str());
            fflush(out);
        }
    }
    bool check(bool ok, const std::string& key, const std::string& detail)
    {
        if (!ok)
            violation(key, detail);
        return ok;
    }
    void add(const std::string& k, uint64_t n = 1)
    {
        std::lock_guard<std::mutex> l(mx);
        counters[k] += n;
    }
    void maxOf(const std::string& k, uint64_t n)
    {
        std::lock_guard<std::mutex> l(mx);
        auto& c = counters["max:" + k];
        if (n > c)
            c = n;
    }
    // One evaluated case; `h` identifies what was exercised, nontrivial says it counts
    void eval(uint64_t h, bool nontrivial = true)
    {
        std::lock_guard<std::mutex> l(mx);
        ++evaluations;
        if (nontrivial)
            distinct.insert(h);
    }
    void sample(const std::string& s, size_t max = 3)
    {
        std::lock_guard<std::mutex> l(mx);
        if (samples.size() < max)
            samples.push_back(s.substr(0, 600));
    }
    void finish()
    {
        done = true;
        std::lock_guard<std::mutex> l(mx);
        if (!hashFile.empty()) {
            FILE* f = fopen(hashFile.c_str(), "wb");
            if (f) {
                for (uint64_t h : distinct)
                    fwrite(&h, 8, 1, f);
                fclose(f);
            }
        }
        fprintf(out, "E {\"evaluations\":%" PRIu64 ",\"distinct\":%zu,\"violations\":%" PRIu64 ",\"counters\":{", evaluations,
            distinct.size(), violations);
        bool first = true;
        for (auto& c : counters) {
            fprintf(out, "%s\"%s\":%" PRIu64, first ? "" : ",", jsonEscape(c.first).c_str(), c.second);
            first = false;
        }
        fprintf(out, "},\"samples\":[");
        first = true;
        for (auto& s : samples) {
            fprintf(out, "%s\"%s\"", first ? "" : ",", jsonEscape(s).c_str());
            first = false;
        }
        fprintf(out, "]}\n");
        fflush(out);
    }
};

extern Report R;

inline void watchdogThread()
{
    uint64_t last = ~0ull;
    unsigned same = 0;
    while (!R.done) {
        std::this_thread::sleep_for(std::chrono::milliseconds(500));
        uint64_t b = R.beat;
        if (b == last)
            ++same;
        else
            same = 0, last = b;
        if (same >= R.caseTimeout * 2) {
            fprintf(R.out, "H {\"case\":%" PRIu64 "}\n", R.current.load());
            fflush(R.out);
            _exit(97);
        }
    }
}

typedef std::function<void(Rng&, uint64_t)> CaseFn;

// Runs the cases [from, from+count) of a part of a property
inline void runCases(const CaseFn& fn)
{
    const uint64_t base = mix(R.seed * 0x1000193ull ^ hashStr(R.prop + "/" + R.part));
    for (uint64_t i = R.from; i < R.from + R.count; ++i) {
        R.current = i;
        R.progress.set(i);
        ++R.beat;
        Rng rng(base ^ mix(i + 17));
        fn(rng, i);
        ++R.beat;
        if (R.violations > 20)
            break;
    }
}

// --prop C01 --part p --seed n --from n --count n --tier quick --out FILE --progress FILE --hashes FILE
inline void init(int argc, char** argv)
{
    std::string out;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop")
            R.prop = v;
        else if (k == "--part")
            R.part = v;
        else if (k == "--seed")
            R.seed = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--from")
            R.from = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--count")
            R.count = strtoull(v.c_str(), nullptr, 0);
        else if (k == "--tier")
            R.thorough = v == "thorough";
        else if (k == "--out")
            out = v;
        else if (k == "--progress")
            R.progress.open(v);
        else if (k == "--hashes")
            R.hashFile = v;
        else if (k == "--input")
            R.input = v;
        else if (k == "--timeout")
            R.caseTimeout = atoi(v.c_str());
        else {
            fprintf(stderr, "unknown option %s\n", k.c_str());
            exit(3);
        }
    }
    R.out = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!R.out) {
        perror("out");
        exit(3);
    }
    std::thread(watchdogThread).detach();
}

// What the handler of a user may throw: exceptions of the standard library, of its own, and things that are no exceptions
struct Thrown : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct NoException {
    std::string text;
};
[[noreturn]] inline void throwAnything(uint32_t n)
{
    switch (n % 7) {
    case 0:
        throw Thrown("by the handler");
    case 1:
        throw std::bad_function_call();
    case 2:
        throw std::out_of_range("by the handler");
    case 3:
        throw int(n);
    case 4:
        throw std::string("by the handler");
    case 5:
        throw "by the handler";
    default:
        throw NoException { "by the handler" };
    }
}

} // namespace vh
