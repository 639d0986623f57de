// C02 C04 C06: streams of messages of all kinds through a socket to a connection's handlers.
#include "bad.h"
#include "conn.h"

using namespace conn;
using namespace ref;
using bridge::Seen;
namespace M = DBus::Message;

namespace {

struct Live {
    World w;
    std::mutex m;
    std::condition_variable cv;
    std::deque<Seen> log;
    std::set<std::string> calls, signals, rules;
    std::set<uint32_t> throwing, viaRule;
    Rng& r;
    uint64_t sent = 0; // bytes of messages
    uint32_t serial;

    explicit Live(Rng& r)
        : r(r)
        , serial(1 + r.below(1u << 30))
    {
        faultsFor(r);
        w.mustAuthenticate(r.chance(1, 4));
    }
    template <class X>
    void saw(const X& x)
    {
        Seen s = bridge::seen(x);
        bool fails;
        const uint32_t n = s.serial;
        {
            std::lock_guard<std::mutex> l(m);
            fails = throwing.count(n);
            log.push_back(std::move(s));
            cv.notify_all();
        }
        if (fails)
            vh::throwAnything(n);
    }
    // A message that some handler of the connection gets
    Msg message(size_t bytes, bool mayFail)
    {
        Gen g(r);
        g.bytes = bytes;
        g.budget = 40;
        g.maxDepth = 4;
        Msg x = g.message(r.chance(3, 4));
        x.serial = ++serial;
        const bool fails = mayFail && r.chance(1, 4);
        if (fails) {
            std::lock_guard<std::mutex> l(m);
            throwing.insert(x.serial);
            R.add("throwing handler");
        }
        const std::string name = x.text(F_INTERFACE) + "." + x.text(F_MEMBER);
        DBus::Native& n = *w.native;
        if (x.type == CALL) {
            if (calls.insert(name).second)
                n.registerMethodCallHandler(name, [this](const M::MethodCall& c) { saw(c); });
        } else if (x.type == SIGNAL) {
            if (signals.insert(name).second)
                n.registerSignalHandler(name, [this](const M::Signal& s) { saw(s); });
        } else {
            M::MethodCall c(Id("/v", "v.Some", "Call"));
            x.set(F_REPLY_SERIAL, num('u', c.getSerial()));
            if (r.chance(1, 2))
                r.shuffle(x.fields);
            n.sendMethodCall("v.e", c, [this](const M::MethodReturn& a) { saw(a); }, [this](const M::Error& e) { saw(e); });
        }
        return x;
    }
    bool delivered(size_t n)
    {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] { return log.size() >= n; });
    }
    // In pieces, and what has been sent so far
    void send(const std::string& s, const std::function<void(size_t)>& at)
    {
        const auto cs = bridge::cuts(r, s.size());
        for (auto& c : cs) {
            if (!w.peer->sendRaw(s.data() + c.first, c.second))
                giveUp("closed", "the client closed the connection after " + std::to_string(c.first) + " bytes of " + vh::hex(s, 600));
            sent += c.second;
            if (r.chance(1, cs.size() > 100 ? 40 : 5))
                faults::pause(r.below(80));
            at(c.first + c.second);
        }
    }
    // All bytes sent have been read, as far as the statistics tell
    void taken()
    {
        static std::atomic<bool> useless { false };
        for (int i = 0; i < (useless ? 200 : 20000); ++i) {
            if (statistic(w.native->getStats(), "bytes_message") >= (long long)sent)
                return;
            faults::pause(i < 200 ? 50 : 500);
        }
        useless = true;
    }
};

void live(Rng& r, bool faulty)
{
    Live c(r);
    std::vector<Msg> want;
    std::set<uint32_t> bad;
    uint64_t h = 0;
    std::string story;
    const size_t rounds = faulty ? r.range(1, 4) : r.range(1, 2);
    for (size_t round = 0; round < rounds; ++round) {
        std::string bytes;
        std::vector<std::pair<size_t, size_t>> ends; // of a good message, and how many there are then
        const size_t n = r.range(1, r.chance(1, 6) ? 40 : 9);
        for (size_t i = 0; i < n; ++i) {
            std::string what;
            if (faulty && r.chance(1, 3)) {
                bytes += badMessage(r, ++c.serial, &what);
                bad.insert(c.serial);
                story += what + ", ";
                R.add(what);
                continue;
            }
            if (r.chance(1, 12)) {
                Gen g(r);
                Msg x = g.message();
                x.type = r.range(5, 255);
                bytes += encode(x); // to be ignored
                continue;
            }
            want.push_back(c.message(r.chance(1, 10) ? 40000 : 900, faulty));
            bytes += encode(want.back());
            ends.push_back({ bytes.size(), want.size() });
            story += "good, ";
        }
        h = hashStr(bytes, h);
        size_t before = want.size() - ends.size(), k = 0;
        unsigned looks = 3;
        c.send(bytes, [&](size_t upTo) {
            while (k < ends.size() && ends[k].first <= upTo)
                before = ends[k++].second;
            if (!bad.empty() || !looks || !before || !r.chance(1, 4))
                return;
            --looks;
            R.add("looks");
            if (!c.delivered(before))
                giveUp("late", std::to_string(before) + " messages were complete after " + std::to_string(upTo) + " bytes, delivered: " + std::to_string(c.log.size()) + "; " + vh::hex(bytes, 600));
        });
        if (faulty && r.chance(2, 3)) {
            std::string kind;
            const std::string e = framingError(r, &kind);
            c.send(e, [](size_t) {});
            c.taken();
            story += kind + ", ";
            R.add(kind);
        }
    }
    // The last is one that arrives
    want.push_back(c.message(20, false));
    while (want.back().type != SIGNAL && want.back().type != CALL)
        want.back() = c.message(20, false);
    c.send(encode(want.back()), [](size_t) {});
    const uint32_t last = want.back().serial;
    {
        std::unique_lock<std::mutex> l(c.m);
        c.cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] { return !c.log.empty() && c.log.back().serial == last; });
    }
    if (r.chance(1, 8))
        faults::pause(3000); // nothing more is to come
    std::vector<Seen> got;
    {
        std::lock_guard<std::mutex> l(c.m);
        for (auto& s : c.log)
            if (!bad.count(s.serial))
                got.push_back(s);
    }
    const std::string key = faulty ? "costs-others" : "count";
    if (R.check(got.size() == want.size(), key, std::to_string(got.size()) + " of " + std::to_string(want.size()) + " messages delivered: " + story))
        for (size_t i = 0; i < want.size(); ++i) {
            const std::string d = bridge::compare(bridge::expected(want[i]), got[i]);
            if (!R.check(d.empty(), faulty ? "costs-others" : "differs", "message " + std::to_string(i) + " " + d + "; " + story))
                break;
        }
    countFaults();
    R.add("messages", want.size());
    R.eval(h, want.size() > 1);
    R.sample(std::to_string(want.size()) + " messages, " + std::to_string(c.sent) + " bytes: " + story);
}
}

PART(C02, live) { live(r, false); }
PART(C04, live) { live(r, false); }
PART(C06, live) { live(r, true); }
