// C02 C03 C04 C05 C23: bytes found by coverage guided mutation (libFuzzer), judged as those of the generators are.
// Each case is a session of libFuzzer in a process of its own, which depends on its number and the seed only.
#include "bridge.h"
#include "nosy.h"
#include "parts.h"
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t* data, size_t size));

using namespace vh;
using namespace ref;
using bridge::Receiver;

namespace {
// What the session found out, for its parent
struct Shared {
    uint64_t executions, delivered, exceptions, violations, undecided, hashes, counter[4];
    uint64_t hash[1 << 15];
};
Shared* shared;
const std::string* current;

void found(const std::string& key, const std::string& detail)
{
    ++shared->violations;
    R.violation(key, detail + "; input: " + hex(*current, 4000));
}

void note(uint64_t h)
{
    if (shared->hashes < sizeof shared->hash / sizeof *shared->hash)
        shared->hash[shared->hashes++] = h;
}

// A whole stream, in reads that depend on it
void hostile(const std::string& s)
{
    Rng r(hashStr(s));
    Nosy n;
    n.feed(s, r);
    shared->delivered += n.delivered;
    shared->exceptions += n.exceptions;
    if (n.delivered)
        note(hashStr(s));
}

// However it is cut, the same is delivered, up to the first error
void divided(const std::string& s)
{
    Rng r(hashStr(s));
    Receiver whole, cut;
    bool error = false, error2 = false;
    try {
        whole.feed(s);
    } catch (const std::exception&) {
        error = true;
    }
    std::vector<std::pair<size_t, size_t>> cuts;
    if (s.size() < 200 && r.chance(1, 2))
        for (size_t i = 0; i < s.size(); ++i)
            cuts.push_back({ i, 1 });
    else
        cuts = bridge::cuts(r, s.size());
    for (auto& c : cuts)
        try {
            cut.feed(s.data() + c.first, c.second, r.below(8));
        } catch (const std::exception&) {
            error2 = true;
            break;
        }
    bool equal = whole.got.size() == cut.got.size();
    for (size_t i = 0; equal && i < whole.got.size(); ++i)
        equal = bridge::digest(whole.got[i]) == bridge::digest(cut.got[i]);
    if (!equal)
        found("cut", "delivered whole: " + std::to_string(whole.got.size()) + ", cut: " + std::to_string(cut.got.size()) + " messages; " + hex(s, 1200));
    if (error != error2)
        found("cut-error", std::string("an error only when ") + (error ? "whole" : "cut") + "; " + hex(s, 1200));
    shared->delivered += whole.got.size();
    shared->exceptions += error;
    if (whole.got.size() > 1)
        note(hashStr(s));
}

bool oddBoolean(const std::vector<Val>& vs)
{
    for (auto& v : vs)
        if ((v.t == 'b' && v.u > 1) || oddBoolean(v.k))
            return true;
    return false;
}

// File descriptors are not supported
bool descriptor(const std::vector<Val>& vs)
{
    for (auto& v : vs)
        if (sigOf({ v }).find('h') != std::string::npos || descriptor(v.k))
            return true;
    return false;
}

// A message with this signature and body: byte order and kind, length of the signature, the signature, the body
void body(const std::string& s)
{
    if (s.size() < 3)
        return;
    const size_t n = std::min<size_t>((uint8_t)s[1], s.size() - 2);
    const std::string sig = s.substr(2, n), b = s.substr(2 + n);
    if (b.empty() || sig.empty() || sig.find('h') != std::string::npos)
        return;
    Msg m;
    m.be = s[0] & 1;
    m.type = 1 + ((s[0] >> 1) & 3);
    m.serial = 7;
    switch (m.type) {
    case CALL:
    case SIGNAL:
        m.set(F_PATH, str("/a", 'o'));
        m.set(F_INTERFACE, str("b.c", 's'));
        m.set(F_MEMBER, str("d", 's'));
        break;
    case ERROR:
        m.set(F_ERROR_NAME, str("e.f", 's'));
        // fall through
    default:
        m.set(F_REPLY_SERIAL, num('u', 9));
    }
    const std::string bytes = encode(m, &sig, &b);
    enum { UNDECIDED, SHORT, GOOD, VALID } is = UNDECIDED;
    std::vector<Val> want;
    try {
        Dec d(b, m.be);
        d.lenient = true;
        want = d.vals(sig);
        is = oddBoolean(want) ? UNDECIDED : GOOD;
        if (is == GOOD && d.o == d.n) {
            Dec strict(b, m.be);
            (void)strict.vals(sig);
            is = VALID;
        }
    } catch (const Short&) {
        if (is == UNDECIDED)
            is = SHORT;
    } catch (const Bad&) {
    }
    if (descriptor(want))
        is = UNDECIDED;

    Receiver rec;
    const bool onwards = R.prop == "C03";
    rec.onMessage = [&](const DBus::Message::Base& got, int) {
        if (!onwards)
            return;
        DBus::Message::Signal out(DBus::Message::MethodCallIdentifier("/a", "b.c", "d"));
        for (size_t i = 0; i < got.getParameterCount(); ++i)
            out.addParameter(got.getParameter(i));
        std::string again;
        try {
            again = out.marshall("");
        } catch (const std::exception& e) {
            if (is == VALID)
                found("not-sent", std::string(e.what()) + "; sig '" + sig + "' body " + hex(b, 600));
            return;
        }
        if (is != VALID)
            return;
        try {
            const Msg there = decode(again);
            if (!same(there.body, want, true))
                found("changed", "got " + show(want) + " sent on " + show(there.body) + "; sig '" + sig + "'");
        } catch (const Bad& e) {
            found("invalid", std::string("sent on is not valid: ") + e.what() + "; sig '" + sig + "' body " + hex(b, 600));
        }
    };
    try {
        rec.feed(bytes, bytes.size() % 8);
    } catch (const std::exception&) {
        ++shared->exceptions;
        rec.got.clear();
    }
    shared->delivered += rec.got.size();
    ++shared->counter[is];
    const std::string where = "sig '" + sig + "', " + (m.be ? "big" : "little") + " endian, body " + hex(b, 900);
    if (R.prop == "C02") {
        if (is == VALID && (rec.got.size() != 1 || !rec.got[0].unreadable.empty()))
            found("not-delivered-once", std::to_string(rec.got.size()) + " times: " + where);
        else if (is == VALID && !same(rec.got[0].args, want, true))
            found("differs", "got " + show(rec.got[0].args) + " not " + show(want) + "; " + where);
    } else if (R.prop == "C23") {
        if (is == SHORT && !rec.got.empty())
            found("delivered", "a body that is too short: " + where);
        if (is >= GOOD && !rec.got.empty() && !(same(rec.got[0].args, want, true) && rec.got[0].unreadable.empty()))
            found("invented", "got " + show(rec.got[0].args) + " not " + show(want) + "; " + where);
    }
    if (R.prop == "C23" ? is == SHORT : is == VALID)
        note(hashStr(s));
}

int target(const uint8_t* d, size_t n)
{
    ++shared->executions;
    const std::string s((const char*)d, n);
    current = &s;
    if (R.prop == "C05")
        hostile(s);
    else if (R.prop == "C04")
        divided(s);
    else
        body(s);
    if (shared->violations) {
        // the first is enough, and libFuzzer is to write down which it was
        fflush(nullptr);
        _exit(98);
    }
    return 0;
}

std::string bodySeed(Rng& r)
{
    Gen g(r);
    g.bytes = 120;
    g.budget = 12;
    const bool be = r.chance(1, 2);
    std::string sig;
    std::vector<Val> v;
    do {
        v = g.args(3);
        sig = sigOf(v);
    } while (sig.empty() || sig.size() > 255);
    Enc e(be);
    for (auto& x : v)
        e.val(x);
    return std::string(1, (char)((be ? 1 : 0) | r.below(4) << 1)) + (char)sig.size() + sig + e.b;
}

void session(Rng& r, uint64_t index)
{
    if (!R.input.empty()) {
        std::string s;
        for (size_t i = 0; i + 1 < R.input.size(); i += 2)
            s += (char)strtoul(R.input.substr(i, 2).c_str(), nullptr, 16);
        target((const uint8_t*)s.data(), s.size());
        fflush(nullptr);
        _exit(0);
    }
    const std::string dir = "fuzz" + std::to_string(index);
    mkdir(dir.c_str(), 0700);
    const bool stream = R.prop == "C05" || R.prop == "C04";
    for (unsigned i = 0; i < 40; ++i) {
        std::string s = stream ? hostileStream(r, r.chance(1, 2) ? 1 : 4) : bodySeed(r);
        if (R.prop == "C04" && r.chance(1, 2)) {
            s.clear();
            for (unsigned k = r.range(1, 4); k--;) {
                Gen g(r);
                g.bytes = 100;
                g.budget = 10;
                s += encode(g.message());
            }
        }
        FILE* f = fopen((dir + "/" + std::to_string(1000 + i)).c_str(), "wb");
        if (!f)
            _exit(3);
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
    const std::string runs = "-runs=" + std::to_string(R.thorough ? 60000 : 6000);
    const std::string seed = "-seed=" + std::to_string(1 + r.below(2000000000));
    const std::string len = stream ? "-max_len=2000" : "-max_len=600";
    std::vector<std::string> args { "fuzz", runs, seed, len, "-timeout=100", "-timeout_exitcode=97", "-error_exitcode=77", "-detect_leaks=0", "-rss_limit_mb=5000",
        "-malloc_limit_mb=1000", "-artifact_prefix=./", "-verbosity=0", "-print_final_stats=0", "-reload=0", "-close_fd_mask=0", "-len_control=20", dir };
    std::vector<char*> argv;
    for (auto& a : args)
        argv.push_back(&a[0]);
    argv.push_back(nullptr);
    int argc = (int)args.size();
    char** p = argv.data();
    LLVMFuzzerRunDriver(&argc, &p, target);
    fflush(nullptr);
    _exit(0);
}

// Which input it was
void artifacts()
{
    DIR* d = opendir(".");
    while (dirent* e = d ? readdir(d) : nullptr) {
        const std::string n = e->d_name;
        if (n.compare(0, 6, "crash-") && n.compare(0, 8, "timeout-") && n.compare(0, 4, "oom-"))
            continue;
        std::string s;
        if (FILE* f = fopen(n.c_str(), "rb")) {
            char b[4096];
            while (size_t k = fread(b, 1, sizeof b, f))
                s.append(b, k);
            fclose(f);
        }
        fprintf(stderr, "\ninput: %s\n", hex(s, 4000).c_str());
    }
    fflush(stderr);
}

void run(Rng& r, uint64_t index)
{
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(3);
    }
    if (!pid)
        session(r, index);
    int status = 0;
    while (waitpid(pid, &status, WNOHANG) == 0) {
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
        ++R.beat;
    }
    R.add("executions", shared->executions);
    R.add("messages_delivered", shared->delivered);
    R.add("errors_reported", shared->exceptions);
    if (R.prop == "C23" || R.prop == "C02" || R.prop == "C03") {
        static const char* names[] = { "undecided", "too short", "decodable", "valid" };
        for (int i = 0; i < 4; ++i)
            R.add(names[i], shared->counter[i]);
    }
    R.violations += shared->violations;
    for (uint64_t i = 0; i < shared->hashes; ++i)
        R.eval(shared->hash[i]);
    R.evaluations += shared->executions - shared->hashes;
    R.sample("a session of " + std::to_string(shared->executions) + " inputs, " + std::to_string(shared->delivered) + " messages delivered");
    const bool violated = shared->violations;
    munmap(shared, sizeof(Shared));
    if (violated)
        return;
    const int code = WIFSIGNALED(status) ? 77 : WEXITSTATUS(status);
    if (code)
        artifacts();
    if (code == 97) {
        fprintf(R.out, "H {\"case\":%" PRIu64 "}\n", index);
        fflush(R.out);
    }
    if (code)
        _exit(code);
}
}

PART(C02, fuzz) { run(r, index); }
PART(C03, fuzz) { run(r, index); }
PART(C04, fuzz) { run(r, index); }
PART(C05, fuzz) { run(r, index); }
PART(C23, fuzz) { run(r, index); }
