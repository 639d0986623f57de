// C12 C13 C15 C16: handlers, match rules, the life of a connection.
#include "anylocale.h"
#include "conn.h"
#include "rules.h"
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sanitizer/lsan_interface.h>
#include <sys/stat.h>

using namespace conn;
using namespace ref;
using bridge::Seen;
namespace M = DBus::Message;

//--------------------------------------------------------------------------- C12

namespace {
Sig anySignal(Rng& r)
{
    Sig s;
    s.path = r.pick(PATHS);
    s.interface = r.pick(INTERFACES);
    s.member = r.pick(MEMBERS);
    s.sender = r.chance(1, 12) ? "" : vocab(r, SENDERS, 2);
    s.destination = r.chance(1, 2) ? "" : r.pick(DESTINATIONS);
    return s;
}
Msg encodeSignal(Rng& r, const Sig& s, uint32_t serial)
{
    Msg m;
    m.type = SIGNAL;
    m.flags = r.below(2);
    m.serial = serial;
    m.be = r.chance(1, 5);
    m.set(F_PATH, str(s.path, 'o'));
    m.set(F_INTERFACE, str(s.interface));
    m.set(F_MEMBER, str(s.member));
    if (!s.sender.empty())
        m.set(F_SENDER, str(s.sender));
    if (!s.destination.empty())
        m.set(F_DESTINATION, str(s.destination));
    r.shuffle(m.fields);
    if (r.chance(1, 3))
        m.body = { num('u', r.next() & 0xffffffff), str("x") };
    return m;
}
}

PART(C12, rules)
{
    faultsFor(r);
    World w;
    w.addSync();
    w.mustAuthenticate();
    struct Target {
        Rule rule;
        std::string name; // for handlers by name
        bool on = false, throws = false, removed = false;
        std::multiset<uint32_t> ran;
        std::string wrong;
    };
    std::deque<Target> targets;
    std::mutex m;
    std::map<uint32_t, Msg> messages;
    std::vector<std::string> wire; // rules sent to the bus, in order: + and -
    unsigned malformed = 0;
    uint64_t matches = 0;
    auto handler = [&](size_t i) {
        return [&, i](const M::Signal& s) {
            bool t;
            {
                std::lock_guard<std::mutex> l(m);
                targets[i].ran.insert(s.getSerial());
                t = targets[i].throws;
                auto it = messages.find(s.getSerial());
                if (it != messages.end()) {
                    const std::string d = bridge::compare(bridge::expected(it->second), bridge::seen(s));
                    if (!d.empty())
                        targets[i].wrong = d;
                }
            }
            if (t)
                vh::throwAnything(i);
        };
    };
    uint32_t serial = 1;
    const unsigned rounds = r.range(2, 6);
    uint64_t h = 0;
    for (unsigned round = 0; round < rounds; ++round) {
        // change
        const bool many = r.chance(1, 60);
        for (unsigned i = many ? r.range(100, 500) : r.range(1, 7); i; --i) {
            const unsigned what = many ? r.below(i % 8 ? 5 : 10) : r.below(10);
            if (what < 5) {
                Rule u = anyRule(r);
                bool dup = false;
                for (auto& t : targets)
                    dup = dup || (t.on && t.name.empty() && t.rule.text == u.text);
                if (dup)
                    continue;
                size_t k;
                {
                    std::lock_guard<std::mutex> l(m);
                    k = targets.size();
                    targets.emplace_back();
                    targets[k].rule = u;
                    targets[k].on = true;
                    targets[k].throws = r.chance(1, 8);
                }
                h = hashStr(u.text, h);
                wire.push_back("+" + u.text);
                try {
                    w.native->callAddMatch(u.text, [](const M::MethodReturn&) {}, [](const M::Error&) {}, handler(k));
                } catch (const std::exception& e) {
                    R.violation("refused", "the rule {" + u.text + "} was refused: " + e.what());
                    return;
                }
            } else if (what < 7) {
                const std::string name = r.pick(INTERFACES) + "." + r.pick(MEMBERS);
                bool dup = false;
                for (auto& t : targets)
                    dup = dup || (t.on && t.name == name);
                if (dup)
                    continue;
                size_t k;
                {
                    std::lock_guard<std::mutex> l(m);
                    k = targets.size();
                    targets.emplace_back();
                    targets[k].name = name;
                    targets[k].on = true;
                    targets[k].throws = r.chance(1, 8);
                }
                w.native->registerSignalHandler(name, handler(k));
            } else if (what == 7) {
                const std::string bad = badRule(r);
                bool refused = false;
                try {
                    w.native->callAddMatch(bad, [](const M::MethodReturn&) {}, [](const M::Error&) {}, [](const M::Signal&) { R.violation("malformed-runs", "the handler of a malformed rule ran"); });
                } catch (const std::exception&) {
                    refused = true;
                }
                R.check(refused, "malformed", "the rule {" + bad + "} was accepted");
                ++malformed;
            } else {
                std::vector<size_t> on;
                for (size_t k = 0; k < targets.size(); ++k)
                    if (targets[k].on)
                        on.push_back(k);
                if (on.empty())
                    continue;
                Target& t = targets[r.pick(on)];
                if (t.name.empty()) {
                    w.native->callRemoveMatch(t.rule.text);
                    wire.push_back("-" + t.rule.text);
                } else
                    w.native->unRegisterSignalHandler(t.name);
                std::lock_guard<std::mutex> l(m);
                t.on = false;
            }
        }
        // and then signals
        std::string bytes;
        std::vector<std::pair<uint32_t, Sig>> sigs;
        for (unsigned i = r.range(1, 25); i; --i) {
            const Sig s = anySignal(r);
            Msg x = encodeSignal(r, s, serial);
            {
                std::lock_guard<std::mutex> l(m);
                messages[serial] = x;
            }
            sigs.push_back({ serial, s });
            bytes += encode(x);
            ++serial;
        }
        h = hashStr(bytes, h);
        w.peer->sendCut(r, bytes);
        w.sync();
        std::lock_guard<std::mutex> l(m);
        for (auto& t : targets) {
            for (auto& s : sigs) {
                const bool should = t.on && (t.name.empty() ? satisfies(s.second, t.rule) : t.name == s.second.interface + "." + s.second.member);
                const size_t n = t.ran.count(s.first);
                matches += should;
                R.check(n == (should ? 1u : 0u), should ? "not-once" : "not-matching",
                    (t.name.empty() ? "rule {" + t.rule.text + "}" : "name " + t.name) + (t.on ? "" : " (removed)") + " ran " + std::to_string(n) + " times for the signal " + s.second.path + " "
                        + s.second.interface + "." + s.second.member + " from '" + s.second.sender + "' to '" + s.second.destination + "'");
            }
            R.check(t.wrong.empty(), "content", t.wrong);
        }
        R.add("signals", sigs.size());
    }
    w.flush();
    std::lock_guard<std::mutex> l(w.peer->m);
    std::vector<std::string> got;
    for (auto& raw : w.peer->messages) {
        Msg x = decode(raw);
        if (x.text(F_INTERFACE) != "org.freedesktop.DBus")
            continue;
        const std::string mem = x.text(F_MEMBER);
        got.push_back((mem == "AddMatch" ? "+" : mem == "RemoveMatch" ? "-" : "?") + (x.body.size() == 1 && x.body[0].t == 's' ? x.body[0].s : std::string("no argument")));
        R.check(x.type == CALL && x.text(F_DESTINATION) == "org.freedesktop.DBus" && x.text(F_PATH) == "/org/freedesktop/DBus", "bus-call", conn::show(raw));
    }
    R.check(got == wire, "bus-calls", std::to_string(got.size()) + " calls of the bus instead of " + std::to_string(wire.size()) + (got.empty() ? "" : ", the last " + got.back()));
    R.check(w.peer->messages.size() == wire.size() + 1, "sent", "something else was sent");
    R.add("matches", matches);
    R.add("malformed_rules", malformed);
    countFaults();
    R.eval(h, matches > 0);
    R.sample(targets.empty() ? "" : "{" + targets[0].rule.text + "}");
}

// Rules change while signals come in, and within their handlers
PART(C12, changing)
{
    faultsFor(r);
    World w;
    w.addSync();
    w.mustAuthenticate();
    const unsigned slots = 6;
    // of each generation of a rule or handler: may it run?
    struct Slot {
        std::atomic<int> generation { 0 }, removed { 0 };
        std::atomic<unsigned> runs { 0 };
    };
    Slot slot[slots], name[slots];
    std::atomic<unsigned> late { 0 };
    auto text = [](unsigned i) { return "interface='x.s" + std::to_string(i) + "'"; };
    std::atomic<bool> stop { false };
    std::atomic<unsigned> steady { 0 }, innerRuns { 0 }, innerLate { 0 };
    w.native->callAddMatch("type='signal'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal&) { ++steady; });
    // handlers that add and remove rules, themselves included; all on the thread of the connection
    unsigned gen = 0;
    std::vector<unsigned> alive(slots, 0);
    std::function<void(unsigned, unsigned)> install = [&](unsigned i, unsigned g) {
        alive[i] = g;
        w.native->callAddMatch("interface='y.s" + std::to_string(i) + "'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&, i, g](const M::Signal&) {
            ++innerRuns;
            if (alive[i] != g)
                ++innerLate;
            const unsigned j = (i + 1 + g) % slots;
            // remove another, or this one, and install it again
            w.native->callRemoveMatch("interface='y.s" + std::to_string(j) + "'");
            install(j, ++gen);
        });
    };
    w.native->registerSignalHandler("y.Start.S", [&](const M::Signal&) {
        for (unsigned i = 0; i < slots; ++i)
            install(i, ++gen);
        w.native->unRegisterSignalHandler("y.Start.S");
    });
    w.peer->send(encode(signalTo("/a", "y.Start", "S", 1)));
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 2; ++t)
        ts.emplace_back([&, t, s = r.next()] {
            Rng q(s);
            while (!stop) {
                const unsigned i = q.below(slots / 2) * 2 + t; // each slot belongs to one thread
                const int g = ++slot[i].generation;
                w.native->callAddMatch(text(i), [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&, i, g](const M::Signal&) {
                    if (slot[i].removed >= g)
                        ++late;
                    ++slot[i].runs;
                });
                const int n = ++name[i].generation;
                w.native->registerSignalHandler("x.s" + std::to_string(i) + ".S", [&, i, n](const M::Signal&) {
                    if (name[i].removed >= n)
                        ++late;
                    ++name[i].runs;
                });
                if (q.chance(1, 2))
                    faults::pause(q.below(200));
                w.native->callRemoveMatch(text(i));
                slot[i].removed = g;
                w.native->unRegisterSignalHandler("x.s" + std::to_string(i) + ".S");
                name[i].removed = n;
            }
        });
    const unsigned n = r.range(50, 250);
    unsigned sent = 1;
    for (unsigned i = 0; i < n; ++i) {
        std::string b;
        for (unsigned k = 0; k < 6; ++k, ++sent)
            b += encode(signalTo("/a", (k % 2 ? "x.s" : "y.s") + std::to_string(r.below(slots)), "S", 10 + i));
        w.peer->send(b);
    }
    w.sync();
    stop = true;
    for (auto& t : ts)
        t.join();
    w.sync();
    unsigned runs = 0;
    for (unsigned i = 0; i < slots; ++i)
        runs += slot[i].runs + name[i].runs;
    R.check(!late, "removed-runs", std::to_string(late) + " handlers started after their removal had returned");
    R.check(!innerLate, "removed-runs-inner", std::to_string(innerLate) + " handlers started after another handler had removed them");
    // from the moment it was added, it got every one
    R.check(steady == sent || steady == sent - 1, "steady", std::to_string(steady) + " of " + std::to_string(sent) + " signals reached a rule for all signals");
    R.check(innerRuns == n * 3, "inner", "rules that are replaced while they run ran " + std::to_string(innerRuns) + " times for " + std::to_string(n * 3) + " signals");
    R.add("signals", sent);
    R.add("runs_of_changing_rules", runs);
    countFaults();
    R.eval(mix(runs * 1000003ull + index), runs > 0);
}

//--------------------------------------------------------------------------- C13

namespace {
struct Name {
    std::string interface, member;
    std::string full() const { return interface + "." + member; }
};
const std::vector<std::string> IFS = { "a.b", "a.b.c", "A.b", "a.bM", "a", "org.freedesktop.DBus.Peer" };
const std::vector<std::string> MEM = { "M", "m", "Mm", "Ping", "M1" };
Name anyName(Rng& r) { return { r.pick(IFS), r.pick(MEM) }; }
}

PART(C13, registry)
{
    faultsFor(r);
    World w;
    w.addSync();
    w.mustAuthenticate();
    // the model: which handler (by number) holds a name
    std::map<std::string, unsigned> holds;
    struct Ran {
        unsigned handler;
        Seen seen;
    };
    std::vector<Ran> ran;
    std::mutex m;
    unsigned handlers = 0;
    struct Act {
        int what; // 0 nothing, 1 remove, 2 add, 3 remove itself, 4 throw, 5 remove itself and add another, 6 reply
        std::string name;
        unsigned handler;
    };
    std::map<unsigned, Act> acts;
    std::function<void(const std::string&, unsigned)> add = [&](const std::string& name, unsigned k) {
        w.native->registerMethodCallHandler(name, [&, name, k](const M::MethodCall& c) {
            Act a;
            {
                std::lock_guard<std::mutex> l(m);
                ran.push_back({ k, bridge::seen(c) });
                a = acts[k];
            }
            switch (a.what) {
            case 1:
                w.native->unRegisterMethodCallHandler(a.name);
                break;
            case 2:
                add(a.name, a.handler);
                break;
            case 3:
                w.native->unRegisterMethodCallHandler(name);
                break;
            case 4:
                vh::throwAnything(handlers);
            case 5:
                w.native->unRegisterMethodCallHandler(name);
                add(name, a.handler);
                break;
            case 6: {
                M::MethodReturn x(c.getSerial());
                w.native->sendMethodReturn(c.getHeaderSender(), x);
                break;
            }
            }
        });
    };
    auto fresh = [&](const std::string& name) {
        const unsigned k = handlers++;
        Act a;
        a.what = r.chance(1, 3) ? r.range(1, 6) : 0;
        a.name = r.chance(1, 2) ? anyName(r).full() : name;
        a.handler = 100000 + k;
        std::lock_guard<std::mutex> l(m);
        acts[k] = a;
        acts[a.handler] = { 0, "", 0 };
        return k;
    };
    uint32_t serial = 1;
    unsigned calls = 0, expected = 0;
    uint64_t h = 0;
    const unsigned rounds = r.range(2, 8);
    for (unsigned round = 0; round < rounds; ++round) {
        const bool many = r.chance(1, 60);
        for (unsigned i = many ? r.range(50, 500) : r.range(1, 8); i; --i) {
            const std::string name = many && r.chance(3, 4) ? "many.I" + std::to_string(r.below(400)) + ".M" : anyName(r).full();
            if (r.chance(2, 3)) {
                const unsigned k = fresh(name);
                add(name, k);
                holds.emplace(name, k); // the first one holds
            } else {
                w.native->unRegisterMethodCallHandler(name);
                holds.erase(name);
            }
            h = hashStr(name, h);
        }
        std::string bytes;
        std::vector<std::pair<unsigned, Msg>> want;
        for (unsigned i = r.range(1, 20); i; --i) {
            Name n = anyName(r);
            if (!holds.empty() && r.chance(1, 2)) {
                auto it = holds.begin();
                std::advance(it, r.below(holds.size()));
                const size_t dot = it->first.rfind('.');
                n = { it->first.substr(0, dot), it->first.substr(dot + 1) };
            }
            Gen g(r);
            g.budget = 10;
            g.bytes = 200;
            Msg c = callTo(g.path(), r.chance(1, 12) ? "" : n.interface, n.member, serial++, r.chance(1, 2) ? g.args(3) : std::vector<Val>(), r.below(8));
            c.set(F_SENDER, str(g.busname()));
            if (r.chance(1, 2))
                c.set(F_DESTINATION, str(g.busname()));
            r.shuffle(c.fields);
            c.be = r.chance(1, 4);
            bytes += encode(c);
            ++calls;
            auto it = c.text(F_INTERFACE).empty() ? holds.end() : holds.find(n.full());
            if (it == holds.end())
                continue;
            const unsigned k = it->second;
            want.push_back({ k, c });
            const Act a = acts[k];
            switch (a.what) {
            case 1:
                holds.erase(a.name);
                break;
            case 2:
                holds.emplace(a.name, a.handler);
                break;
            case 3:
                holds.erase(n.full());
                break;
            case 5:
                holds[n.full()] = a.handler;
                break;
            }
        }
        h = hashStr(bytes, h);
        w.peer->sendCut(r, bytes);
        w.sync();
        std::lock_guard<std::mutex> l(m);
        expected += want.size();
        for (size_t i = 0; i < std::max(want.size(), ran.size()); ++i) {
            if (i >= want.size() || i >= ran.size()) {
                R.violation("times", std::to_string(ran.size()) + " handlers ran instead of " + std::to_string(want.size()) + (i < ran.size() ? ": one more for " + ran[i].seen.interface + "." + ran[i].seen.member : ": none for " + want[i].second.text(F_INTERFACE) + "." + want[i].second.text(F_MEMBER)));
                break;
            }
            const std::string d = bridge::compare(bridge::expected(want[i].second), ran[i].seen);
            if (!R.check(d.empty(), "content", d))
                break;
            if (!R.check(want[i].first == ran[i].handler, "which", "handler " + std::to_string(ran[i].handler) + " ran instead of " + std::to_string(want[i].first) + " for " + ran[i].seen.interface + "." + ran[i].seen.member))
                break;
        }
        ran.clear();
        if (R.violations > 5)
            return;
    }
    R.add("calls", calls);
    R.add("handled", expected);
    countFaults();
    R.eval(h, expected > 0);
}

// Handlers come and go on other threads while calls come in
PART(C13, concurrent)
{
    faultsFor(r);
    World w;
    w.addSync();
    w.mustAuthenticate();
    const unsigned names = 6;
    struct Slot {
        std::atomic<int> removed { 0 };
        int generation = 0;
    } slot[names];
    std::atomic<unsigned> late { 0 }, wrong { 0 }, runs { 0 }, steady { 0 };
    std::atomic<bool> stop { false };
    w.native->registerMethodCallHandler("s.t.Steady", [&](const M::MethodCall&) { ++steady; });
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 3; ++t)
        ts.emplace_back([&, t, s = r.next()] {
            Rng q(s);
            while (!stop) {
                const unsigned i = q.below(names / 3) * 3 + t;
                const int g = ++slot[i].generation;
                const std::string member = "M" + std::to_string(i);
                w.native->registerMethodCallHandler("i.f." + member, [&, i, g, member](const M::MethodCall& c) {
                    if (slot[i].removed >= g)
                        ++late;
                    if (c.getMethod() != member)
                        ++wrong;
                    ++runs;
                });
                // a second one does not replace it
                if (q.chance(1, 3))
                    w.native->registerMethodCallHandler("i.f." + member, [&](const M::MethodCall&) { ++wrong; });
                if (q.chance(1, 2))
                    faults::pause(q.below(200));
                w.native->unRegisterMethodCallHandler("i.f." + member);
                slot[i].removed = g;
            }
        });
    const unsigned n = r.range(50, 200);
    for (unsigned i = 0; i < n; ++i) {
        std::string b = encode(callTo("/o", "s.t", "Steady", 1 + i, {}, 1));
        for (unsigned k = 0; k < 4; ++k)
            b += encode(callTo("/o", "i.f", "M" + std::to_string(r.below(names)), 1 + i, {}, 1));
        w.peer->send(b);
    }
    w.sync();
    stop = true;
    for (auto& t : ts)
        t.join();
    R.check(!late, "removed-runs", std::to_string(late) + " handlers started after their removal had returned");
    R.check(!wrong, "which", std::to_string(wrong) + " wrong handlers ran");
    R.check(steady == n, "steady", std::to_string(steady) + " of " + std::to_string(n) + " calls of a handler that stays were handled");
    R.add("runs", runs);
    countFaults();
    R.eval(mix(runs * 1000003ull + index), runs > 0);
}

// Removal waits for a handler that runs: when it has returned, the handler is not running either... and is not started again
PART(C13, removal)
{
    faults::off();
    World w;
    w.addSync();
    w.mustAuthenticate();
    const unsigned n = r.range(20, 80);
    std::atomic<bool> gone { false };
    std::atomic<unsigned> late { 0 }, runs { 0 };
    w.native->registerMethodCallHandler("i.f.M", [&](const M::MethodCall&) {
        if (gone)
            ++late;
        ++runs;
        faults::pause(20);
    });
    std::string b;
    for (unsigned i = 0; i < n; ++i)
        b += encode(callTo("/o", "i.f", "M", 1 + i, {}, 1));
    std::thread t([&] { w.peer->send(b); });
    while (runs < n / 4)
        faults::pause(r.below(50));
    w.native->unRegisterMethodCallHandler("i.f.M");
    gone = true;
    t.join();
    w.sync();
    R.check(!late, "removed-runs", std::to_string(late) + " runs after removal");
    R.eval(mix(runs * 7919ull + n));
    R.add("runs_before_removal", runs);
}

//--------------------------------------------------------------------------- C15

namespace {
// Everything a handler touches; poisoned once the connection is gone
struct Guarded {
    std::atomic<bool> gone { false };
    std::atomic<unsigned> late { 0 }, runs { 0 };
    std::vector<int>* data = new std::vector<int>(100, 1); // freed afterwards: the sanitizer sees a late handler
    void touch()
    {
        if (gone)
            ++late;
        ++runs;
        for (int& x : *data)
            x++;
    }
    ~Guarded() { delete data; }
};
const char* const PHASES[] = { "at once", "request sent", "request sent, queued", "fd negotiation", "authenticated", "authenticated, calls pending", "half a message received",
    "stalled peer", "flood of calls", "flood of signals", "flood of answers", "peer gone", "peer gone, sending", "senders just done", "handler running", "garbage before", "garbage after",
    "half a line", "begin and destroy", "peer closes while destroyed", "peer shut down one side", "rejected" };
const unsigned NPHASES = sizeof PHASES / sizeof *PHASES;
}

PART(C15, destroy)
{
    const unsigned phase = index % NPHASES;
    faultsFor(r);
    static unsigned threadsAtFirst = 0, fdsAtFirst = 0;
    if (!threadsAtFirst) {
        // whatever exists once for the process
        {
            World w;
            w.mustAuthenticate();
        }
        threadsAtFirst = threadCount();
        fdsAtFirst = fdCount();
    }
    std::unique_ptr<Guarded> g(new Guarded);
    double took = 0;
    uint64_t duringDestruction = 0;
    {
        Listener listener(r.chance(1, 3));
        std::unique_ptr<DBus::Native> n(new DBus::Native(listener.name));
        Peer peer(listener.accept());
        peer.keep = phase < 7;
        peer.start();
        Guarded& gd = *g;
        n->registerMethodCallHandler("i.f.M", [&](const M::MethodCall&) { gd.touch(); });
        n->registerSignalHandler("i.f.S", [&](const M::Signal&) { gd.touch(); });
        std::atomic<bool> stop { false };
        std::vector<std::thread> flood;
        auto destroy = [&] {
            const auto t0 = std::chrono::steady_clock::now();
            const uint64_t before = gd.runs;
            n.reset();
            gd.gone = true;
            duringDestruction = gd.runs - before;
            took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        };
        auto auth = [&] {
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            peer.send(std::string("OK ") + GUID + "\r\n");
            if (!peer.wait([&] { return peer.begun; }))
                giveUp("no-begin", "no BEGIN");
            n->callAddMatch("interface='i.g'", [&](const M::MethodReturn&) { gd.touch(); }, [&](const M::Error&) { gd.touch(); }, [&](const M::Signal&) { gd.touch(); });
        };
        auto pendingCalls = [&](unsigned k) {
            std::vector<uint32_t> s;
            for (unsigned i = 0; i < k; ++i) {
                M::MethodCall c(Id("/o", "i.f", "M"));
                s.push_back(c.getSerial());
                n->sendMethodCall("d.e", c, [&](const M::MethodReturn&) { gd.touch(); }, [&](const M::Error&) { gd.touch(); });
            }
            return s;
        };
        auto signals = [&](unsigned k, size_t size) {
            for (unsigned i = 0; i < k; ++i) {
                M::Signal s(Id("/o", "i.f", "S"));
                s.addParameter(DBus::Type::String(std::string(size, 'x')));
                n->sendSignal("d.e", s);
            }
        };
        switch (phase) {
        case 0:
            break;
        case 1:
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            break;
        case 2:
            signals(r.range(1, 20), r.below(2000));
            pendingCalls(r.range(1, 5));
            if (r.chance(1, 2))
                n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            break;
        case 3:
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD);
            signals(3, 10);
            peer.send(std::string("OK ") + GUID + "\r\n");
            if (r.chance(1, 2))
                peer.wait([&] { return peer.handshake.find("NEGOTIATE") != std::string::npos; });
            if (r.chance(1, 2))
                peer.send("AGREE_UNIX_FD\r\n");
            break;
        case 4:
            auth();
            break;
        case 5: {
            auth();
            auto s = pendingCalls(r.range(1, 30));
            if (r.chance(1, 2))
                for (auto x : s)
                    peer.send(encode(replyTo(x % 2, x, x)));
            break;
        }
        case 6: {
            auth();
            const std::string m = encode(callTo("/o", "i.f", "M", 3, { str(std::string(r.below(3000), 'y')) }));
            peer.send(m.substr(0, r.below(m.size())));
            break;
        }
        case 7:
            auth();
            peer.paused = true;
            signals(r.range(3, 8), r.chance(1, 2) ? 400000 : 100000);
            break;
        case 8:
        case 9:
        case 10: {
            auth();
            auto s = pendingCalls(200);
            std::string b;
            for (unsigned i = 0; i < 200; ++i)
                b += encode(phase == 8 ? callTo("/o", "i.f", "M", 1 + i) : phase == 9 ? signalTo("/o", i % 2 ? "i.f" : "i.g", "S", 1 + i) : replyTo(i % 2, s[i], i + 1));
            flood.emplace_back([&peer, &stop, b] {
                while (!stop && peer.send(b))
                    ;
            });
            for (unsigned i = r.below(40); i && !gd.runs; --i)
                faults::pause(100);
            break;
        }
        case 11:
            if (r.chance(3, 4))
                auth();
            pendingCalls(3);
            peer.closeNow();
            break;
        case 12:
            auth();
            if (r.chance(1, 2)) {
                peer.paused = true;
                signals(3, 300000);
            }
            peer.closeNow();
            for (unsigned i = 0; i < 20; ++i) {
                signals(1, r.chance(1, 2) ? 10 : 100000);
                faults::pause(r.below(100));
            }
            break;
        case 13: {
            auth();
            std::vector<std::thread> ts;
            for (unsigned t = 0; t < 3; ++t)
                ts.emplace_back([&] { signals(10, 5000); pendingCalls(2); });
            for (auto& t : ts)
                t.join();
            break;
        }
        case 14: {
            auth();
            Event started;
            n->registerMethodCallHandler("i.f.Slow", [&](const M::MethodCall&) {
                gd.touch();
                started.hit();
                faults::pause(3000);
                gd.touch();
            });
            peer.send(encode(callTo("/o", "i.f", "Slow", 3)) + encode(callTo("/o", "i.f", "M", 4)));
            started.wait(1);
            destroy();
            break;
        }
        case 15: {
            std::string s;
            for (unsigned i = r.below(5000); i; --i)
                s += (char)r.below(256);
            peer.send(s);
            if (r.chance(1, 2))
                n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            break;
        }
        case 16: {
            auth();
            std::string s;
            for (unsigned i = r.range(1, 5000); i; --i)
                s += (char)r.below(256);
            s[0] = r.chance(1, 2) ? 'l' : s[0];
            peer.send(s);
            break;
        }
        case 17:
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            peer.send(std::string("OK ") + GUID + "\r\n");
            peer.send("X");
            break;
        case 18:
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            signals(50, 3000);
            peer.send(std::string("OK ") + GUID + "\r\n" + encode(callTo("/o", "i.f", "M", 4)));
            if (r.chance(1, 2))
                faults::pause(r.below(300));
            break;
        case 19:
            auth();
            pendingCalls(2);
            flood.emplace_back([&peer, d = r.below(200)] {
                faults::pause(d);
                shutdown(peer.fd, SHUT_RDWR);
            });
            break;
        case 20:
            auth();
            shutdown(peer.fd, r.chance(1, 2) ? SHUT_RD : SHUT_WR);
            signals(3, 1000);
            faults::pause(r.below(300));
            signals(3, 1000);
            break;
        case 21:
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            peer.send("REJECTED EXTERNAL\r\n");
            break;
        }
        if (n && r.chance(1, 2))
            faults::pause(r.below(500));
        if (n)
            destroy();
        stop = true;
        for (auto& t : flood)
            t.join();
        R.check(!gd.late, "late-handler", std::string(PHASES[phase]) + ": " + std::to_string(gd.late) + " handlers ran after the destruction");
    }
    // a handler that is still to come would touch what is freed here
    R.add("handlers_run", g->runs);
    g.reset();
    R.check(duringDestruction < 20000, "unbounded", std::string(PHASES[phase]) + ": " + std::to_string(duringDestruction) + " handlers ran before the destruction was done");
    R.check(took < 15, "slow", std::string(PHASES[phase]) + ": the destruction took " + std::to_string(took) + " s");
    unsigned ts = threadCount(), fds = fdCount();
    for (int i = 0; i < 400 && (ts > threadsAtFirst || fds > fdsAtFirst); ++i) {
        faults::pause(5000); // a thread that was joined may still be visible for a moment
        ts = threadCount();
        fds = fdCount();
    }
    R.check(ts <= threadsAtFirst, "threads", std::string(PHASES[phase]) + ": " + std::to_string(ts) + " threads instead of " + std::to_string(threadsAtFirst));
    R.check(fds <= fdsAtFirst, "descriptors", std::string(PHASES[phase]) + ": " + std::to_string(fds) + " descriptors instead of " + std::to_string(fdsAtFirst));
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    if (index % 16 == 15 && __lsan_do_recoverable_leak_check()) {
        R.violation("leak", std::string("memory is left behind after the last 16 cases, the last: ") + PHASES[phase]);
        R.violations += 100;
    }
#endif
#endif
    R.maxOf(std::string("destruction_us: ") + PHASES[phase], (uint64_t)(took * 1e6));
    countFaults();
    R.maxOf("handlers_during_destruction", duringDestruction);
    R.eval(mix(mix(phase) ^ index), true);
    R.add(std::string("phase: ") + PHASES[phase]);
}

// Where nothing listens, or there is no descriptor or no thread for it, there is no connection, and nothing is left
PART(C15, refused)
{
    faults::off();
    const unsigned t0 = threadCount(), f0 = fdCount();
    const std::string dir = "d" + std::to_string(index);
    mkdir(dir.c_str(), 0700);
    std::string path, what;
    std::unique_ptr<Listener> listener;
    static const char* const REFUSALS[] = { "no descriptor for epoll", "no descriptor for a socket", "no memory for a socket", "connection reset", "permission denied" };
    int refusal = -1;
    bool threadless = false;
    switch (index % 12) {
    case 0:
        path = dir + "/nothing";
        what = "no such file";
        break;
    case 1: {
        path = dir + "/file";
        FILE* f = fopen(path.c_str(), "w");
        fclose(f);
        what = "not a socket";
        break;
    }
    case 2:
        path = dir;
        what = "a directory";
        break;
    case 3:
        path = std::string(1, '\0') + "dbus-asio-verif-nobody-" + std::to_string(getpid());
        what = "abstract";
        break;
    case 4:
        path = dir + "/" + std::string(r.range(120, 3000), 'x');
        what = "too long";
        break;
    case 5: {
        // a socket nobody listens at any more
        path = dir + "/s";
        sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        strcpy(a.sun_path, path.c_str());
        const int s = socket(AF_UNIX, SOCK_STREAM, 0);
        if (bind(s, (sockaddr*)&a, sizeof a))
            _exit(3);
        close(s);
        what = "nobody listens";
        break;
    }
    case 6:
        path = dir + "/no/such/dir";
        what = "no such directory";
        break;
    case 7:
        path = "";
        what = "empty";
        break;
    case 8:
    case 9:
        // somebody listens, but the system refuses
        refusal = r.below(5);
        listener.reset(new Listener(r.chance(1, 2)));
        path = listener->name;
        what = REFUSALS[refusal];
        break;
    default:
        // somebody listens, but no thread can be started
        threadless = true;
        listener.reset(new Listener(r.chance(1, 2)));
        path = listener->name;
        what = "no threads";
    }
    const unsigned f2 = fdCount();
    pthread_attr_t usual, huge;
    if (threadless) {
        // there is no room for such a stack
        pthread_getattr_default_np(&usual);
        pthread_attr_init(&huge);
        pthread_attr_setstacksize(&huge, (size_t)1 << 47);
        if (pthread_setattr_default_np(&huge))
            _exit(3);
    }
    bool refused = false;
    for (unsigned i = 0; i < 5; ++i) {
        refused = false;
        faults::cfg.failEpoll = refusal == 0 ? EMFILE : 0;
        faults::cfg.failSocket = refusal == 1 ? ENFILE : refusal == 2 ? ENOBUFS : 0;
        faults::cfg.failConnect = refusal == 3 ? ECONNRESET : refusal == 4 ? EACCES : 0;
        try {
            DBus::Native n(path);
            n.BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        } catch (const std::exception&) {
            refused = true;
        }
        R.check(refused, "connected", what + ": no exception");
    }
    faults::cfg.failEpoll = faults::cfg.failSocket = faults::cfg.failConnect = 0;
    if (threadless) {
        pthread_setattr_default_np(&usual);
        pthread_attr_destroy(&usual);
        pthread_attr_destroy(&huge);
    }
    if (listener) {
        // those that came about are closed, and the next one is a connection
        R.check(fdCount() == f2, "left", what + ": " + std::to_string(fdCount()) + " descriptors instead of " + std::to_string(f2));
        fcntl(listener->fd, F_SETFL, O_NONBLOCK);
        for (int c; (c = ::accept4(listener->fd, nullptr, nullptr, SOCK_CLOEXEC)) >= 0; close(c)) {
            R.add("came_about");
            pollfd p { c, POLLIN, 0 };
            char data[64];
            ssize_t n;
            do
                n = poll(&p, 1, 5000) == 1 ? faults::rawRecv(c, data, sizeof data, 0) : -2;
            while (n > 0);
            R.check(n != -2, "open", what + ": the peer is not told that there is no connection");
        }
        fcntl(listener->fd, F_SETFL, 0);
        try {
            std::unique_ptr<DBus::Native> n(new DBus::Native(path));
            n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            const int c = listener->accept();
            std::string got;
            char data[64];
            for (pollfd p { c, POLLIN, 0 }; got.find("\r\n") == got.npos && poll(&p, 1, 20000) == 1;) {
                const ssize_t k = faults::rawRecv(c, data, sizeof data, 0);
                if (k <= 0)
                    break;
                got.append(data, k);
            }
            R.check(got.compare(0, 6, std::string("\0AUTH ", 6)) == 0, "afterwards", what + ": then a connection begins with " + vh::hex(got));
            n.reset();
            close(c);
            R.add("connected_afterwards");
        } catch (const std::exception& e) {
            R.violation("afterwards", what + ": then there is still no connection: " + e.what());
        }
        listener.reset();
    }
    unsigned t1 = threadCount(), f1 = fdCount();
    for (int i = 0; i < 400 && (t1 > t0 || f1 > f0); ++i) {
        faults::pause(5000);
        t1 = threadCount();
        f1 = fdCount();
    }
    R.check(t1 <= t0 && f1 <= f0, "left", what + ": " + std::to_string(t1) + " threads instead of " + std::to_string(t0) + ", " + std::to_string(f1) + " descriptors instead of " + std::to_string(f0));
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    if ((index % 12 >= 7) && __lsan_do_recoverable_leak_check())
        R.violation("leak", "memory is left behind after " + what);
#endif
#endif
    unlink((dir + "/file").c_str());
    unlink((dir + "/s").c_str());
    rmdir(dir.c_str());
    R.eval(hashStr(what + path));
}

// Connections come and go on several threads, with traffic
PART(C15, churn)
{
    faultsFor(r);
    std::atomic<unsigned> handled { 0 }, bad { 0 };
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 4; ++t)
        ts.emplace_back([&, s = r.next()] {
            Rng q(s);
            for (unsigned i = 0; i < 4; ++i) {
                std::atomic<bool> gone { false };
                World w;
                DBus::Native* n = w.native.get();
                w.native->registerMethodCallHandler("i.f.M", [&, n](const M::MethodCall& c) {
                    if (gone)
                        ++bad;
                    ++handled;
                    n->sendMethodReturn("d.e", M::MethodReturn(c.getSerial()));
                });
                w.mustAuthenticate();
                std::string b;
                for (unsigned k = 0; k < 30; ++k)
                    b += encode(callTo("/o", "i.f", "M", 1 + k));
                w.peer->send(b);
                if (q.chance(1, 2))
                    w.sync();
                w.native.reset();
                gone = true;
            }
        });
    for (auto& t : ts)
        t.join();
    R.check(!bad, "late-handler", std::to_string(bad) + " handlers ran after the destruction");
    R.add("handlers_run", handled);
    R.eval(mix(handled * 7919ull + index));
}

//--------------------------------------------------------------------------- C16

namespace {
const char* const OPS[] = { "broadcastSignal", "sendSignal", "sendMethodReturn", "sendError", "sendMethodCall", "sendMethodCall with callbacks", "call of the bus", "registerMethodCallHandler",
    "unRegisterMethodCallHandler", "registerSignalHandler", "unRegisterSignalHandler", "callAddMatch", "callRemoveMatch", "getStats", "unregister itself", "several" };
const unsigned NOPS = sizeof OPS / sizeof *OPS;
const char* const PLACES[] = { "method call handler", "signal handler", "rule handler", "success callback", "failure callback", "bus callback" };
const unsigned NPLACES = sizeof PLACES / sizeof *PLACES;

void operate(DBus::Native& n, unsigned op, unsigned tag, Event& callbacks)
{
    const std::string t = std::to_string(tag);
    auto none = [](const M::MethodReturn&) {};
    auto nope = [](const M::Error&) {};
    switch (op) {
    case 0:
        n.broadcastSignal(M::Signal(Id("/o", "i.f", "B" + t)));
        break;
    case 1:
        n.sendSignal("d.e", M::Signal(Id("/o", "i.f", "S" + t)));
        break;
    case 2:
        n.sendMethodReturn("d.e", M::MethodReturn(tag + 1));
        break;
    case 3:
        n.sendError("d.e", M::Error(tag + 1, "e.f", "text"));
        break;
    case 4:
        n.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "C" + t), M::MethodCallParametersIn(), 1));
        break;
    case 5:
        n.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "C" + t)), [&](const M::MethodReturn&) { callbacks.hit(); }, [&](const M::Error&) { callbacks.hit(); });
        break;
    case 6:
        n.callNameHasOwner("a.b", [&](const M::MethodReturn&) { callbacks.hit(); }, [&](const M::Error&) { callbacks.hit(); });
        break;
    case 7:
        n.registerMethodCallHandler("r.r.M" + t, [](const M::MethodCall&) {});
        break;
    case 8:
        n.unRegisterMethodCallHandler("r.r.M" + std::to_string(tag - 1));
        break;
    case 9:
        n.registerSignalHandler("r.r.S" + t, [](const M::Signal&) {});
        break;
    case 10:
        n.unRegisterSignalHandler("r.r.S" + std::to_string(tag - 1));
        break;
    case 11:
        n.callAddMatch("interface='r.r" + t + "'", none, nope, [](const M::Signal&) {});
        break;
    case 12:
        n.callRemoveMatch("interface='r.r" + std::to_string(tag - 1) + "'");
        break;
    case 13:
        n.getStats();
        break;
    case 14:
        n.unRegisterMethodCallHandler("i.f.Go");
        n.unRegisterSignalHandler("i.f.Go");
        n.callRemoveMatch("interface='i.g'");
        break;
    default:
        for (unsigned i = 0; i < 14; ++i)
            operate(n, i, tag * 20 + i, callbacks);
    }
}
// Makes a handler or callback of this kind run once; `run` is what it does
void provoke(World& w, unsigned place, std::function<void()> run)
{
    DBus::Native& n = *w.native;
    uint32_t serial = 0;
    auto ok = [run](const M::MethodReturn&) { run(); };
    auto no = [run](const M::Error&) { run(); };
    auto none = [](const M::MethodReturn&) {};
    auto nope = [](const M::Error&) {};
    switch (place) {
    case 0:
        n.unRegisterMethodCallHandler("i.f.Go");
        n.registerMethodCallHandler("i.f.Go", [run](const M::MethodCall&) { run(); });
        w.peer->send(encode(callTo("/o", "i.f", "Go", 7)));
        return;
    case 1:
        n.unRegisterSignalHandler("i.f.Go");
        n.registerSignalHandler("i.f.Go", [run](const M::Signal&) { run(); });
        w.peer->send(encode(signalTo("/o", "i.f", "Go", 7)));
        return;
    case 2:
        n.callRemoveMatch("interface='i.g'");
        n.callAddMatch("interface='i.g'", none, nope, [run](const M::Signal&) { run(); });
        w.peer->send(encode(signalTo("/o", "i.g", "Go", 7)));
        return;
    case 3:
    case 4: {
        M::MethodCall c(Id("/o", "i.f", "Provoke"));
        serial = c.getSerial();
        if (place == 3)
            n.sendMethodCall("d.e", c, ok, nope);
        else
            n.sendMethodCall("d.e", c, none, no);
        w.peer->send(encode(replyTo(place == 4, serial, 9)));
        return;
    }
    default: {
        Event sent;
        n.callListNames(ok, no);
        // its serial is on the wire
        uint32_t s = 0;
        if (!w.peer->wait([&] {
                for (auto& m : w.peer->messages)
                    if (m.find("ListNames") != std::string::npos)
                        s = decode(m).serial;
                return s != 0;
            }))
            giveUp("lost", "callListNames was not received");
        w.peer->send(encode(replyTo(false, s, 9)));
    }
    }
}
}

// Every operation within every kind of handler
PART(C16, inside)
{
    faultsFor(r);
    const unsigned place = index % NPLACES, op = (index / NPLACES) % NOPS;
    World w;
    w.addSync();
    w.mustAuthenticate();
    Event finished, callbacks;
    const unsigned times = r.range(1, 3);
    unsigned tag = 1;
    provoke(w, place, [&] {
        for (unsigned i = 0; i < times; ++i)
            operate(*w.native, op, tag++, callbacks);
        finished.hit();
    });
    const std::string what = std::string(OPS[op]) + " within a " + PLACES[place];
    if (!finished.wait(1))
        giveUp("deadlock", what + " did not return");
    w.sync();
    w.flush();
    // what it called is answered
    unsigned answered = 0;
    std::string answers;
    {
        std::lock_guard<std::mutex> l(w.peer->m);
        for (auto& raw : w.peer->messages) {
            Msg m = decode(raw);
            if (m.type == CALL && !(m.flags & 1) && (m.text(F_MEMBER)[0] == 'C' || m.text(F_MEMBER) == "NameHasOwner")) {
                answers += encode(replyTo(answered % 2, m.serial, 20 + answered));
                ++answered;
            }
        }
    }
    w.peer->send(answers);
    w.sync();
    R.check(callbacks.n == answered, "callbacks", what + ": " + std::to_string(callbacks.n) + " of " + std::to_string(answered) + " callbacks ran");
    const unsigned calls = op == 5 || op == 6 ? times : op == 15 ? 2 * times : 0;
    R.check(answered == calls, "sent", what + ": " + std::to_string(answered) + " of " + std::to_string(calls) + " calls were received");
    countFaults();
    R.eval(mix(place * 1000 + op * 10 + times));
    R.add(std::string("within ") + PLACES[place]);
}

// While a handler runs, and does not return, others send what they like
PART(C16, outside)
{
    faultsFor(r);
    const unsigned place = index % NPLACES;
    World w;
    w.addSync();
    w.mustAuthenticate();
    Event started, callbacks, done;
    std::mutex gate;
    gate.lock();
    provoke(w, place, [&] {
        started.hit();
        std::lock_guard<std::mutex> l(gate); // until the test lets it go
    });
    if (!started.wait(1))
        giveUp("lost", std::string("the ") + PLACES[place] + " did not run");
    uint64_t before;
    {
        std::lock_guard<std::mutex> l(w.peer->m);
        before = w.peer->messages.size();
    }
    const unsigned threads = r.range(1, 3), each = r.range(1, 8);
    std::vector<std::thread> ts;
    std::atomic<unsigned> sent { 0 };
    std::atomic<int> doing[3] = { { -1 }, { -1 }, { -1 } };
    static const unsigned ops[] = { 0, 1, 2, 3, 4, 5, 6, 13 };
    for (unsigned t = 0; t < threads; ++t)
        ts.emplace_back([&, t, s = r.next()] {
            Rng q(s);
            for (unsigned i = 0; i < each; ++i) {
                const unsigned op = ops[i < 8 && index % 2 ? (i + t) % 8 : q.below(8)];
                doing[t] = op;
                operate(*w.native, op, t * 100 + i, callbacks);
                sent += op != 13;
            }
            // a large one that the socket does not take at once: the peer waits for all of it
            doing[t] = 2;
            M::MethodReturn big(1);
            big.addParameter(DBus::Type::String(std::string(1000, 'x')));
            w.native->sendMethodReturn("d.e", big);
            ++sent;
            doing[t] = -1;
            done.hit();
        });
    if (!done.wait(threads)) {
        std::string what;
        for (unsigned t = 0; t < threads; ++t)
            if (doing[t] >= 0)
                what += std::string(" ") + OPS[doing[t]];
        giveUp("blocked", std::string("while a ") + PLACES[place] + " runs, another thread waits in" + what);
    }
    for (auto& t : ts)
        t.join();
    // (what the socket does not take at once waits for the thread of the handler)
    const bool arrived = faults::cfg.shortWrite || faults::cfg.sndbuf || faults::cfg.interrupt ? true : w.peer->wait([&] { return w.peer->messages.size() >= before + sent; });
    if (!arrived)
        giveUp("blocked-peer", std::string("while a ") + PLACES[place] + " runs, only " + std::to_string(w.peer->messages.size() - before) + " of " + std::to_string(sent) + " messages reached the peer");
    gate.unlock();
    // and afterwards, all of it
    w.sync();
    w.flush();
    R.add("messages", sent);
    R.add(std::string("while running: ") + PLACES[place]);
    countFaults();
    R.eval(mix(place * 1000003 + threads * 101 + each) ^ mix(index));
}

//--------------------------------------------------------------------------- C14: for the thread sanitizer
static vh::Part C14_changing("C14", "changing", C12_changing);
static vh::Part C14_concurrent("C14", "concurrent", C13_concurrent);
static vh::Part C14_removal("C14", "removal", C13_removal);
static vh::Part C14_churn("C14", "churn", C15_churn);
static vh::Part C14_destroy("C14", "destroy", C15_destroy);
static vh::Part C14_inside("C14", "inside", C16_inside);
static vh::Part C14_outside("C14", "outside", C16_outside);

//--------------------------------------------------------------------------- C34
IN_ANY_LOCALE(rules, C12_rules);
IN_ANY_LOCALE(registry, C13_registry);
