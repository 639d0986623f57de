// C28 C29 C30: connections beside each other, connections that are lost, operations that fail.
#include "bad.h"
#include "conn.h"
#include <memory>

using namespace conn;
using namespace ref;
using bridge::Seen;
namespace M = DBus::Message;

namespace {
// All bytes of messages sent have been read, as far as the statistics tell
void awaitMessageBytes(DBus::Native& n, uint64_t bytes)
{
    // the statistics may be wrong, but that is for C18
    static std::atomic<bool> useless { false };
    for (int i = 0; i < (useless ? 200 : 20000); ++i) {
        if (statistic(n.getStats(), "bytes_message") >= (long long)bytes)
            return;
        faults::pause(i < 200 ? 50 : 500);
    }
    useless = true;
}
}

//--------------------------------------------------------------------------- C28

namespace {
const std::vector<std::string> NAMES = { "i.f.A", "i.f.B", "i.g.A" };

// A connection with a model of what ought to happen on it
struct Side {
    unsigned id;
    World w;
    bool authenticated = false, fds = false, gone = false;
    std::mutex m;
    std::vector<std::string> ran, due; // what ran, what ought to
    std::set<std::string> methods, signals, rules;
    std::set<uint32_t> pending;
    std::vector<std::string> out; // messages that the peer ought to receive
    uint64_t serial = 1, bytes = 0;
    uint64_t calls = 0, sigs = 0, returns = 0, errors = 0, sentCalls = 0, sentSignals = 0, framing = 0;

    explicit Side(unsigned id)
        : id(id)
    {
    }
    void did(const std::string& what)
    {
        std::lock_guard<std::mutex> l(m);
        ran.push_back(what);
    }
    void send(Rng& r, const std::string& s)
    {
        bytes += s.size();
        if (!w.peer->sendCut(r, s))
            giveUp("closed", "connection " + std::to_string(id) + " was closed");
    }
    void sync()
    {
        if (!w.haveSync)
            w.addSync();
        const std::string s = w.mark();
        bytes += s.size();
        ++calls;
        w.peer->send(s);
        if (!w.synced.wait(++w.syncs))
            giveUp("lost", "a call to connection " + std::to_string(id) + " was not handled");
    }
};
std::string list(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v)
        s += x + "; ";
    return s.substr(0, 1200);
}
}

// Several connections, with the same names, rules and serials in use
PART(C28, beside)
{
    faultsFor(r);
    std::vector<std::unique_ptr<Side>> sides;
    const unsigned n = r.chance(1, 60) ? r.range(8, 30) : r.range(2, 4);
    unsigned ids = 0, tag = 0;
    std::set<uint32_t> orphans; // calls of connections that are gone
    std::string story;
    uint64_t h = 0, steps = 0;
    auto add = [&] {
        sides.emplace_back(new Side(ids++));
        Side& s = *sides.back();
        s.fds = r.chance(1, 3);
        if (r.chance(2, 3)) {
            s.w.mustAuthenticate(s.fds);
            s.authenticated = true;
        }
    };
    auto compare = [&](Side& s) {
        if (s.authenticated) {
            s.sync();
            s.w.flush();
            ++s.sentSignals;
            std::vector<std::string> got;
            {
                std::lock_guard<std::mutex> l(s.w.peer->m);
                for (auto& raw : s.w.peer->messages) {
                    const Msg x = decode(raw);
                    if (x.text(F_INTERFACE) != "v.Flush")
                        got.push_back(x.text(F_MEMBER) + (x.body.empty() || x.body[0].t != 's' ? "" : " " + x.body[0].s));
                }
            }
            R.check(got == s.out, "sent", "connection " + std::to_string(s.id) + " sent " + list(got) + " instead of " + list(s.out) + " after " + story);
        } else {
            std::lock_guard<std::mutex> l(s.w.peer->m);
            R.check(s.w.peer->handshake.empty() || s.w.peer->handshake == std::string(1, '\0'), "sent", "connection " + std::to_string(s.id) + ", which is not authenticated, sent " + vh::hex(s.w.peer->handshake) + " after " + story);
        }
        {
            std::lock_guard<std::mutex> l(s.m);
            R.check(s.ran == s.due, "ran", "on connection " + std::to_string(s.id) + " there ran " + list(s.ran) + " instead of " + list(s.due) + " after " + story);
        }
        const std::string t = s.w.native->getStats();
        auto stat = [&](const char* name, uint64_t want) {
            const long long got = statistic(t, name);
            R.check(got == (long long)want, "statistics", std::string(name) + " of connection " + std::to_string(s.id) + " is " + std::to_string(got) + " instead of " + std::to_string(want) + " after " + story);
        };
        stat("count_receive_methodcalls", s.calls);
        stat("count_receive_signals", s.sigs);
        stat("count_receive_methodreturns", s.returns);
        stat("count_receive_errors", s.errors);
        stat("count_sent_methodcalls", s.sentCalls);
        stat("count_sent_signals", s.sentSignals);
        stat("bytes_message", s.bytes);
    };
    for (unsigned i = 0; i < n; ++i)
        add();
    auto step = [&](Side& s, bool beside) {
        DBus::Native& c = *s.w.native;
        const std::string at = std::to_string(s.id);
        const std::string name = r.pick(NAMES), iface = name.substr(0, 3), member = name.substr(4);
        ++steps;
        unsigned what = r.below(14);
        if (!s.authenticated && what >= 7 && what < 12)
            what = r.below(7);
        h = mix(h ^ what ^ (s.id << 8));
        Side* ps = &s;
        if (what < 4 && s.authenticated)
            s.sync(); // what was sent before is for the handlers there were then
        switch (what) {
        case 0:
            if (s.methods.insert(name).second) {
                c.registerMethodCallHandler(name, [ps, name](const M::MethodCall& x) { ps->did("call " + name + " " + std::to_string(x.getSerial())); });
                story += at + ":+call " + name + " ";
            }
            break;
        case 1:
            if (s.signals.insert(name).second) {
                c.registerSignalHandler(name, [ps, name](const M::Signal& x) { ps->did("signal " + name + " " + std::to_string(x.getSerial())); });
                story += at + ":+signal " + name + " ";
            }
            break;
        case 2: {
            const std::string rule = "interface='" + iface + "'";
            if (s.rules.insert(rule).second) {
                c.callAddMatch(rule, [](const M::MethodReturn&) {}, [](const M::Error&) {}, [ps, rule](const M::Signal& x) { ps->did("rule " + rule + " " + std::to_string(x.getSerial())); });
                s.out.push_back("AddMatch " + rule);
                ++s.sentCalls;
                story += at + ":+rule " + rule + " ";
            }
            break;
        }
        case 3:
            switch (r.below(3)) {
            case 0:
                c.unRegisterMethodCallHandler(name);
                s.methods.erase(name);
                story += at + ":-call " + name + " ";
                break;
            case 1:
                c.unRegisterSignalHandler(name);
                s.signals.erase(name);
                story += at + ":-signal " + name + " ";
                break;
            default: {
                const std::string rule = "interface='" + iface + "'";
                c.callRemoveMatch(rule);
                s.rules.erase(rule);
                s.out.push_back("RemoveMatch " + rule);
                ++s.sentCalls;
                story += at + ":-rule " + rule + " ";
            }
            }
            break;
        case 4:
        case 5: {
            const std::string t = "C" + std::to_string(++tag);
            M::MethodCall x(Id("/o", "i.f", t));
            const uint32_t k = x.getSerial();
            c.sendMethodCall("d.e", x, [ps, k](const M::MethodReturn& a) { ps->did("return " + std::to_string(k) + " " + std::to_string(a.getSerial())); },
                [ps, k](const M::Error& a) { ps->did("error " + std::to_string(k) + " " + std::to_string(a.getSerial())); });
            s.pending.insert(k);
            s.out.push_back(t);
            ++s.sentCalls;
            story += at + ":" + t + " ";
            break;
        }
        case 6: {
            const std::string t = "S" + std::to_string(++tag);
            c.broadcastSignal(M::Signal(Id("/o", "i.f", t)));
            s.out.push_back(t);
            ++s.sentSignals;
            story += at + ":" + t + " ";
            break;
        }
        case 7: {
            const uint32_t k = s.serial++;
            s.send(r, encode(callTo("/o", iface, member, k)));
            ++s.calls;
            if (s.methods.count(name))
                s.due.push_back("call " + name + " " + std::to_string(k));
            story += at + ":>call " + name + " ";
            break;
        }
        case 8: {
            const uint32_t k = s.serial++;
            s.send(r, encode(signalTo("/o", iface, member, k)));
            ++s.sigs;
            if (s.signals.count(name))
                s.due.push_back("signal " + name + " " + std::to_string(k));
            const std::string rule = "interface='" + iface + "'";
            if (s.rules.count(rule))
                s.due.push_back("rule " + rule + " " + std::to_string(k));
            story += at + ":>signal " + name + " ";
            break;
        }
        case 9:
        case 10: {
            // to a call of this connection, or of another
            std::set<uint32_t>& of = r.chance(1, 2) ? s.pending : r.chance(1, 4) ? orphans : sides[r.below(sides.size())]->pending;
            if (of.empty())
                break;
            auto it = of.begin();
            std::advance(it, r.below(of.size()));
            const uint32_t to = *it, k = s.serial++;
            const bool error = r.chance(1, 2);
            s.send(r, encode(replyTo(error, to, k)));
            ++(error ? s.errors : s.returns);
            if (s.pending.erase(to))
                s.due.push_back(std::string(error ? "error " : "return ") + std::to_string(to) + " " + std::to_string(k));
            else
                R.add("answers to calls of another connection");
            story += at + ":>answer to " + std::to_string(to) + " ";
            break;
        }
        case 11: {
            std::string kind;
            const std::string e = framingError(r, &kind);
            s.send(r, e);
            awaitMessageBytes(c, s.bytes);
            story += at + ":>" + kind + " ";
            R.add("framing errors");
            break;
        }
        case 12:
            if (!s.authenticated && !beside) {
                s.w.mustAuthenticate(s.fds);
                s.authenticated = true;
                story += at + ":authenticated ";
            }
            break;
        default:
            if (beside || r.chance(1, 2))
                break;
            // goes, and another comes
            if (sides.size() > 1) {
                compare(s);
                story += at + ":destroyed ";
                orphans.insert(s.pending.begin(), s.pending.end());
                for (size_t i = 0; i < sides.size(); ++i)
                    if (sides[i].get() == &s)
                        sides.erase(sides.begin() + i);
                if (r.chance(2, 3))
                    add();
                R.add("destroyed beside others");
            }
        }
    };
    const unsigned total = r.range(20, 70);
    for (unsigned i = 0; i < total; ++i) {
        if (r.chance(1, 20)) {
            // a handler of one does not return while the others go on
            Side& s = *sides[r.below(sides.size())];
            if (!s.authenticated || sides.size() < 2)
                continue;
            s.sync();
            Event in, out;
            const std::string hold = "i.h.Hold";
            s.w.native->registerMethodCallHandler(hold, [&](const M::MethodCall&) {
                in.hit();
                if (!out.wait(1, 2 * PATIENCE))
                    giveUp("waits", "the others did not go on while a handler of connection " + std::to_string(s.id) + " ran; " + story);
            });
            s.send(r, encode(callTo("/o", "i.h", "Hold", s.serial++)));
            ++s.calls;
            if (!in.wait(1))
                giveUp("lost", "a call to connection " + std::to_string(s.id) + " was not handled");
            story += std::to_string(s.id) + ":held ";
            for (unsigned k = r.range(1, 6); k; --k) {
                Side& o = *sides[r.below(sides.size())];
                if (&o != &s)
                    step(o, true);
            }
            for (auto& o : sides)
                if (o.get() != &s && o->authenticated)
                    o->sync();
            out.hit();
            story += std::to_string(s.id) + ":let go ";
            s.sync();
            s.w.native->unRegisterMethodCallHandler(hold);
            R.add("held beside others");
        } else
            step(*sides[r.below(sides.size())], false);
    }
    for (auto& s : sides)
        compare(*s);
    countFaults();
    R.add("steps", steps);
    R.eval(h, steps > 10);
    R.sample(std::to_string(ids) + " connections: " + story);
}

//--------------------------------------------------------------------------- C29

namespace {
const char* const LOSSES[] = { "close", "close with data unread", "shutdown of both directions", "shutdown of sending", "shutdown of receiving" };
}

// The peer goes away after some byte
PART(C29, cut)
{
    faultsFor(r);
    if (r.chance(1, 2))
        faults::off();
    std::deque<Seen> log;
    std::mutex m;
    std::condition_variable cv;
    std::atomic<unsigned> unexpected { 0 };
    std::vector<Msg> msgs;
    std::vector<size_t> ends;
    std::string bytes;
    const unsigned loss = r.below(5);
    size_t at, whole = 0;
    bool alsoSends = r.chance(1, 3);
    {
        World w;
        w.mustAuthenticate(r.chance(1, 4));
        DBus::Native& n = *w.native;
        auto saw = [&](const auto& x) {
            Seen s = bridge::seen(x);
            std::lock_guard<std::mutex> l(m);
            log.push_back(std::move(s));
            cv.notify_all();
        };
        std::set<std::string> known;
        const size_t count = r.range(1, 6);
        uint32_t serial = r.range(1, 1u << 30);
        for (size_t i = 0; i < count; ++i) {
            Gen g(r);
            g.bytes = r.chance(1, 6) ? 5000 : 150;
            g.budget = 15;
            g.maxDepth = 3;
            Msg x = g.message();
            x.serial = serial + i;
            const std::string name = x.text(F_INTERFACE) + "." + x.text(F_MEMBER);
            if (x.type == CALL) {
                if (known.insert("c" + name).second)
                    n.registerMethodCallHandler(name, [&](const M::MethodCall& c) {
                        saw(c);
                        if (alsoSends)
                            n.sendMethodReturn("d.e", M::MethodReturn(c.getSerial()));
                    });
            } else if (x.type == SIGNAL) {
                if (known.insert("s" + name).second)
                    n.registerSignalHandler(name, [&](const M::Signal& s) { saw(s); });
            } else {
                M::MethodCall c(Id("/v", "v.Some", "Call"));
                x.set(F_REPLY_SERIAL, num('u', c.getSerial()));
                n.sendMethodCall("v.e", c, [&](const M::MethodReturn& a) { saw(a); }, [&](const M::Error& e) { saw(e); });
            }
            bytes += encode(x);
            ends.push_back(bytes.size());
            msgs.push_back(x);
        }
        // calls that will not be answered
        for (unsigned i = r.below(4); i; --i)
            n.sendMethodCall("v.e", M::MethodCall(Id("/v", "v.Some", "Call")), [&](const M::MethodReturn&) { ++unexpected; }, [&](const M::Error&) { ++unexpected; });
        // at any byte, more often near an end
        at = r.chance(1, 2) ? r.below(bytes.size() + 1) : std::min(bytes.size(), r.pick(ends) - r.below(3) + r.below(3));
        while (whole < ends.size() && ends[whole] <= at)
            ++whole;
        if (loss == 1) {
            // the peer stops reading, so that something it was sent is left
            w.peer->paused = true;
            faults::pause(1000);
            n.broadcastSignal(M::Signal(Id("/o", "i.f", "Unread")));
        }
        std::string head = bytes.substr(0, at);
        const bool slow = r.chance(1, 2);
        for (auto& c : bridge::cuts(r, head.size())) {
            if (!w.peer->sendRaw(head.data() + c.first, c.second))
                giveUp("closed", "the connection was closed after " + std::to_string(c.first) + " bytes");
            if (slow && r.chance(1, 4))
                faults::pause(r.below(60));
        }
        std::thread sender;
        std::atomic<bool> stop { false };
        if (alsoSends)
            sender = std::thread([&] {
                for (unsigned i = 0; !stop && i < 400; ++i) {
                    M::Signal s(Id("/o", "i.f", "Meanwhile"));
                    s.addParameter(DBus::Type::String(std::string(i % 7 * 500, 'x')));
                    n.broadcastSignal(s);
                }
            });
        switch (loss) {
        case 0:
        case 1:
            w.peer->closeNow();
            break;
        case 2:
            shutdown(w.peer->fd, SHUT_RDWR);
            break;
        case 3:
            shutdown(w.peer->fd, SHUT_WR);
            break;
        default:
            shutdown(w.peer->fd, SHUT_RD);
        }
        auto delivered = [&](size_t k) {
            std::unique_lock<std::mutex> l(m);
            return cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] { return log.size() >= k; });
        };
        const std::string how = std::string(LOSSES[loss]) + " after " + std::to_string(at) + " of " + std::to_string(bytes.size()) + " bytes, " + std::to_string(whole) + " messages complete";
        if (!delivered(whole))
            giveUp("lost", how + ": " + std::to_string(log.size()) + " delivered; " + vh::hex(bytes, 800));
        // whatever is done now returns
        const std::string before = n.getStats();
        std::string which;
        try {
            for (unsigned i = r.range(1, 6); i; --i) {
                const unsigned op = r.below(9);
                which = "operation " + std::to_string(op);
                switch (op) {
                case 0:
                    n.broadcastSignal(M::Signal(Id("/o", "i.f", "Later")));
                    break;
                case 1: {
                    M::Signal s(Id("/o", "i.f", "Later"));
                    s.addParameter(DBus::Type::String(std::string(300000, 'x')));
                    n.sendSignal("d.e", s);
                    break;
                }
                case 2:
                    n.sendMethodCall("v.e", M::MethodCall(Id("/v", "v.Some", "Call")), [&](const M::MethodReturn&) { ++unexpected; }, [&](const M::Error&) { ++unexpected; });
                    break;
                case 3:
                    n.callAddMatch("interface='i.f'", [&](const M::MethodReturn&) { ++unexpected; }, [&](const M::Error&) { ++unexpected; }, [&](const M::Signal&) { ++unexpected; });
                    break;
                case 4:
                    n.callRemoveMatch("interface='i.f'");
                    break;
                case 5:
                    n.getStats();
                    break;
                case 6:
                    n.sendError("d.e", M::Error(3, "e.f", "text"));
                    break;
                case 7:
                    n.callListNames([&](const M::MethodReturn&) { ++unexpected; }, [&](const M::Error&) { ++unexpected; });
                    break;
                default:
                    n.registerMethodCallHandler("i.f.New", [&](const M::MethodCall&) { ++unexpected; });
                    n.unRegisterMethodCallHandler("i.f.New");
                }
            }
        } catch (const std::exception& e) {
            R.violation("throws", how + ", then " + which + ": " + e.what());
        }
        // the other direction still works when only one is lost
        if (loss == 4) {
            std::string tail = bytes.substr(at);
            if (w.peer->sendRaw(tail.data(), tail.size())) {
                whole = ends.size();
                if (!delivered(whole))
                    giveUp("lost", how + ", the rest sent later: " + std::to_string(log.size()) + " of " + std::to_string(whole) + " delivered; " + vh::hex(bytes, 800));
                R.add("received after sending failed");
            }
        }
        stop = true;
        if (sender.joinable())
            sender.join();
        if (r.chance(1, 6))
            faults::pause(2000);
        const auto t0 = std::chrono::steady_clock::now();
        w.native.reset();
        const double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        R.check(took < 15, "slow", how + ": the destruction took " + std::to_string(took) + " s");
        if (loss == 3) {
            // what the client sent before still arrives whole
            std::lock_guard<std::mutex> l(w.peer->m);
            R.check(w.peer->broken.empty(), "stream", how + ": " + w.peer->broken);
        }
    }
    const std::string how = std::string(LOSSES[loss]) + " after " + std::to_string(at) + " of " + std::to_string(bytes.size()) + " bytes";
    R.check(!unexpected, "invented", how + ": " + std::to_string(unexpected) + " callbacks ran for answers that never came");
    if (R.check(log.size() == whole, "count", how + ": " + std::to_string(log.size()) + " messages delivered instead of " + std::to_string(whole) + "; " + vh::hex(bytes, 800)))
        for (size_t i = 0; i < whole; ++i) {
            const std::string d = bridge::compare(bridge::expected(msgs[i]), log[i]);
            if (!R.check(d.empty(), "differs", how + ", message " + std::to_string(i) + ": " + d))
                break;
        }
    countFaults();
    R.add(std::string("loss: ") + LOSSES[loss]);
    R.add(at == bytes.size() || std::find(ends.begin(), ends.end(), at) != ends.end() || at == 0 ? "between messages" : "within a message");
    R.add("messages delivered", whole);
    R.eval(hashStr(bytes.substr(0, at), mix(loss)), whole > 0 || at > 0);
    R.sample(how + ", " + std::to_string(whole) + " messages complete");
}

// The peer goes away in the course of the handshake
PART(C29, handshake)
{
    faultsFor(r);
    const bool fds = r.chance(1, 2);
    World w;
    DBus::Native& n = *w.native;
    std::atomic<unsigned> ran { 0 };
    n.registerMethodCallHandler("i.f.M", [&](const M::MethodCall&) { ++ran; });
    auto ops = [&] {
        try {
            n.broadcastSignal(M::Signal(Id("/o", "i.f", "S")));
            n.sendMethodCall("v.e", M::MethodCall(Id("/v", "v.Some", "Call")), [&](const M::MethodReturn&) { ++ran; }, [&](const M::Error&) { ++ran; });
            n.callListNames([&](const M::MethodReturn&) { ++ran; }, [&](const M::Error&) { ++ran; });
            n.getStats();
        } catch (const std::exception& e) {
            R.violation("throws", std::string("an operation: ") + e.what());
        }
    };
    ops();
    const unsigned phase = r.below(4);
    if (phase > 0)
        n.BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
    const std::string script = std::string("OK ") + GUID + "\r\n" + (fds ? "AGREE_UNIX_FD\r\n" : "") + encode(callTo("/o", "i.f", "M", 3));
    size_t at = phase < 2 ? 0 : r.chance(1, 4) ? script.size() : r.below(script.size() + 1);
    for (auto& c : bridge::cuts(r, at))
        w.peer->sendRaw(script.data() + c.first, c.second);
    const unsigned loss = r.below(4);
    if (phase == 3 && r.chance(1, 2))
        faults::pause(r.below(400));
    switch (loss) {
    case 0:
        w.peer->closeNow();
        break;
    case 1:
        shutdown(w.peer->fd, SHUT_RDWR);
        break;
    case 2:
        shutdown(w.peer->fd, SHUT_WR);
        break;
    default:
        shutdown(w.peer->fd, SHUT_RD);
    }
    for (unsigned i = r.range(1, 4); i; --i)
        ops();
    // the call was received if all of the script was
    const unsigned due = phase >= 2 && at == script.size();
    if (due)
        for (int i = 0; i < 20000 && !ran; ++i)
            faults::pause(i < 200 ? 50 : 2000);
    else
        faults::pause(r.below(300));
    try {
        n.BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
    } catch (const std::exception& e) {
        R.violation("throws", std::string("BeginAuth: ") + e.what());
    }
    ops();
    w.native.reset();
    R.check(ran == due, "count", "phase " + std::to_string(phase) + ", " + std::to_string(at) + " of " + std::to_string(script.size()) + " bytes: " + std::to_string(ran) + " handlers ran instead of " + std::to_string(due));
    countFaults();
    R.eval(hashStr(script.substr(0, at), mix(mix(phase * 8 + loss) ^ index)), phase > 0);
    R.sample("phase " + std::to_string(phase) + ", " + std::to_string(at) + " bytes");
}

//--------------------------------------------------------------------------- C30

namespace {
// Values with which no message can be marshalled
std::vector<bridge::G> impossible(Rng& r, std::string* what)
{
    std::vector<bridge::G> v;
    for (unsigned i = r.below(4); i; --i)
        v.push_back(DBus::Type::Uint32(i));
    const std::string large(r.range(256, 300), 'y');
    switch (r.below(4)) {
    case 0:
        *what = "a signature of more than 255 characters as a value";
        v.push_back(DBus::Type::Signature(large));
        return v;
    case 1: {
        *what = "such a signature within a structure";
        DBus::Type::Struct s;
        s.add(DBus::Type::String("before"));
        s.add(DBus::Type::Variant(DBus::Type::Signature(large)));
        v.push_back(s);
        return v;
    }
    case 2: {
        *what = "such a signature in an array";
        DBus::Type::Array a;
        for (unsigned i = r.below(3); i; --i)
            a.add(DBus::Type::Signature("ai"));
        a.add(DBus::Type::Signature(large));
        v.push_back(a);
        return v;
    }
    }
    *what = "more than 255 characters of types";
    size_t n = r.range(256, 300);
    while (n) {
        if (n > 10 && r.chance(1, 3)) {
            DBus::Type::Struct s;
            for (unsigned i = 0; i < 8; ++i)
                s.add(DBus::Type::Byte((size_t)i));
            v.push_back(s);
            n -= 10;
        } else {
            v.push_back(DBus::Type::Uint32(7));
            --n;
        }
    }
    return v;
}
const char* const BADRULES[] = { "type", "=x", "path='/a',path_namespace='/b'", "member='A", "interface=a.b,=", "type='signal',member" };
}

// Operations that fail, among those that do not
PART(C30, failing)
{
    faultsFor(r);
    World w;
    w.addSync();
    DBus::Native& n = *w.native;
    const bool late = r.chance(1, 3); // authenticated in the end only
    if (!late)
        w.mustAuthenticate();
    auto token = std::make_shared<int>(1); // what the handlers given to operations hold
    std::atomic<unsigned> wrong { 0 };
    std::vector<std::string> want;
    uint64_t calls = 0, signals = 0, returns = 0, errors = 0, failed = 0;
    std::vector<uint32_t> failedSerials;
    std::string story;
    uint64_t h = 0;
    const unsigned total = r.range(4, 24);
    for (unsigned i = 0; i < total; ++i) {
        const unsigned op = r.below(6);
        const bool fail = r.chance(1, 2) || i == 0;
        const std::string t = "T" + std::to_string(i);
        h = mix(h ^ (op * 2 + fail));
        if (!fail) {
            switch (op) {
            case 0:
            case 1:
                n.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", t)), [](const M::MethodReturn&) {}, [](const M::Error&) {});
                ++calls;
                want.push_back(t);
                break;
            case 2:
            case 3: {
                M::Signal s(Id("/o", "i.f", t));
                s.addParameter(DBus::Type::String(t));
                n.broadcastSignal(s);
                ++signals;
                want.push_back(t);
                break;
            }
            case 4: {
                M::MethodReturn a(7);
                a.addParameter(DBus::Type::String(t));
                n.sendMethodReturn("d.e", a);
                ++returns;
                want.push_back("return " + t);
                break;
            }
            default:
                n.sendError("d.e", M::Error(9, "e.f", t));
                ++errors;
                want.push_back("error " + t);
            }
            continue;
        }
        std::string what;
        bool threw = false;
        const std::vector<bridge::G> bad = impossible(r, &what);
        const long uses = token.use_count();
        try {
            switch (op) {
            case 0:
            case 1: {
                M::MethodCallParametersIn in;
                for (auto& v : bad)
                    in.add(v);
                M::MethodCall c(Id("/o", "i.f", t), in);
                failedSerials.push_back(c.getSerial());
                what = "sendMethodCall with " + what;
                n.sendMethodCall("d.e", c, [&wrong, token](const M::MethodReturn&) { ++wrong; }, [&wrong, token](const M::Error&) { ++wrong; });
                break;
            }
            case 2: {
                M::Signal s(Id("/o", "i.f", t));
                for (auto& v : bad)
                    s.addParameter(v);
                what = "sendSignal with " + what;
                n.sendSignal("d.e", s);
                break;
            }
            case 3: {
                M::Signal s(Id("/o", "i.f", t));
                for (auto& v : bad)
                    s.addParameter(v);
                what = "broadcastSignal with " + what;
                n.broadcastSignal(s);
                break;
            }
            case 4: {
                M::MethodReturn a(7);
                for (auto& v : bad)
                    a.addParameter(v);
                what = "sendMethodReturn with " + what;
                n.sendMethodReturn("d.e", a);
                break;
            }
            default:
                what = std::string("callAddMatch(") + (what = BADRULES[r.below(6)]) + ")";
                n.callAddMatch(what.substr(13, what.size() - 14), [&wrong, token](const M::MethodReturn&) { ++wrong; }, [&wrong, token](const M::Error&) { ++wrong; }, [&wrong, token](const M::Signal&) { ++wrong; });
            }
        } catch (const std::exception& e) {
            threw = true;
        }
        story += what + "; ";
        R.check(threw, "accepted", what + " did not fail");
        R.check(token.use_count() == uses, "kept", what + " failed, but " + std::to_string(token.use_count() - uses) + " of its handlers are kept");
        ++failed;
        R.add(what);
    }
    if (late)
        w.mustAuthenticate();
    // answers to the calls that were never made, and signals that the rules that were refused would match
    std::string bytes;
    for (auto s : failedSerials)
        bytes += encode(replyTo(r.chance(1, 2), s, 5));
    for (const char* m : { "A", "B" })
        bytes += encode(signalTo("/a", "a.b", m, 6)) + encode(signalTo("/b", "x.y", m, 6));
    w.peer->sendCut(r, bytes);
    w.sync();
    w.flush();
    R.check(!wrong, "runs", std::to_string(wrong) + " handlers of operations that failed ran: " + story);
    std::vector<std::string> got;
    {
        std::lock_guard<std::mutex> l(w.peer->m);
        R.check(w.peer->broken.empty(), "stream", w.peer->broken + " after " + story);
        for (auto& raw : w.peer->messages) {
            const Msg x = decode(raw);
            if (x.text(F_INTERFACE) == "v.Flush")
                continue;
            const std::string text = x.body.size() == 1 && x.body[0].t == 's' ? x.body[0].s : "";
            got.push_back(x.type == RETURN ? "return " + text : x.type == ERROR ? "error " + text : x.text(F_MEMBER));
        }
    }
    R.check(got == want, "sent", "received " + std::to_string(got.size()) + " messages instead of " + std::to_string(want.size()) + " after " + story);
    const std::string t = n.getStats();
    auto stat = [&](const char* name, uint64_t value) {
        const long long v = statistic(t, name);
        R.check(v == (long long)value, "statistics", std::string(name) + " is " + std::to_string(v) + " instead of " + std::to_string(value) + " after " + story);
    };
    stat("count_sent_methodcalls", calls);
    stat("count_sent_signals", signals + 1);
    stat("count_sent_methodreturns", returns);
    stat("count_sent_errors", errors);
    countFaults();
    R.add("operations that failed", failed);
    R.eval(mix(h ^ hashStr(story)), failed > 0);
    R.sample(story);
}

//--------------------------------------------------------------------------- C31

namespace {
// Changes a copy of a value in every way there is
void spoil(const bridge::G& original)
{
    bridge::G g(original);
    const char t = DBus::Type::getMarshallingSignature(g)[0];
    auto read = [&](auto& v, const std::string& bytes) {
        DBus::MessageIStream in((const uint8_t*)bytes.data(), bytes.size(), false);
        try {
            v.unmarshall(in);
        } catch (const std::exception&) {
        }
    };
    switch (t) {
    case 'a': {
        auto& a = boost::any_cast<DBus::Type::Array&>(g);
        if (a.size() && DBus::Type::getMarshallingSignature(a.getContents()[0])[0] != 'a')
            bridge::addTo(a, a.getContents()[0], DBus::Type::getMarshallingSignature(a.getContents()[0])[0]);
        a.add(DBus::Type::Byte(1));
        DBus::Type::Array b(boost::any_cast<const DBus::Type::Array&>(original));
        b.setSignature("au");
        read(b, std::string("\x8\0\0\0abcdefgh", 12));
        break;
    }
    case '(': {
        auto& s = boost::any_cast<DBus::Type::Struct&>(g);
        s.add(DBus::Type::Uint32(7));
        DBus::Type::Struct c(boost::any_cast<const DBus::Type::Struct&>(original));
        c.clear();
        DBus::Type::Struct d(boost::any_cast<const DBus::Type::Struct&>(original));
        d.setSignature("(u)");
        read(d, std::string(8, 1));
        break;
    }
    case 'v':
        read(boost::any_cast<DBus::Type::Variant&>(g), std::string("\1y\0z", 4));
        break;
    case 's':
        read(boost::any_cast<DBus::Type::String&>(g), std::string("\1\0\0\0q\0", 6));
        break;
    case 'o':
        read(boost::any_cast<DBus::Type::ObjectPath&>(g), std::string("\1\0\0\0/\0", 6));
        break;
    case 'g':
        read(boost::any_cast<DBus::Type::Signature&>(g), std::string("\1x\0", 3));
        break;
    case 'u':
        read(boost::any_cast<DBus::Type::Uint32&>(g), "abcd");
        break;
    case 'y':
        read(boost::any_cast<DBus::Type::Byte&>(g), "a");
        break;
    default:
        break;
    }
    R.add("copies changed");
}

// Copies of what a handler was given, and what was to be seen in it then
struct Kept {
    std::vector<std::function<std::string()>> again; // says how it differs now
    size_t values = 0;

    void value(const bridge::G& g)
    {
        const Val v = bridge::fromLib(g);
        const std::string text = DBus::Type::toString(g), sig = DBus::Type::getMarshallingSignature(g);
        DBus::MessageOStream os;
        DBus::Type::marshallData(g, os);
        again.push_back([copy = g, v, text, sig, bytes = os.data]() -> std::string {
            DBus::MessageOStream now;
            DBus::Type::marshallData(copy, now);
            if (DBus::Type::getMarshallingSignature(copy) != sig)
                return "a value of type " + sig + " has type " + DBus::Type::getMarshallingSignature(copy);
            if (now.data != bytes)
                return "a value of type " + sig + " is marshalled as " + vh::hex(now.data) + " instead of " + vh::hex(bytes);
            if (DBus::Type::toString(copy) != text)
                return "a value of type " + sig + " is rendered as " + DBus::Type::toString(copy) + " instead of " + text;
            if (!same({ bridge::fromLib(copy) }, { v }, true))
                return "a value of type " + sig + " reads " + ref::show({ bridge::fromLib(copy) }) + " instead of " + ref::show({ v });
            return "";
        });
        ++values;
    }
    template <class X>
    void message(Rng& r, const X& x)
    {
        const Seen s = bridge::seen(x);
        switch (r.below(3)) {
        case 0:
            again.push_back([copy = x, s] { return bridge::compare(s, bridge::seen(copy)); });
            break;
        case 1: {
            // assigned over another
            auto other = std::make_shared<X>(x);
            *other = x;
            again.push_back([other, s] { return bridge::compare(s, bridge::seen(*other)); });
            break;
        }
        default: {
            // a copy of a copy, the first of which is gone
            std::unique_ptr<X> first(new X(x));
            again.push_back([copy = X(*first), s] { return bridge::compare(s, bridge::seen(copy)); });
        }
        }
        for (size_t i = 0; i < x.getParameterCount(); ++i) {
            if (r.chance(1, 2))
                value(x.getParameter(i));
            const std::string sig = DBus::Type::getMarshallingSignature(x.getParameter(i));
            // a part of a value
            if (sig[0] == 'v')
                value(DBus::Type::refVariant(x.getParameter(i)).getValue());
            else if (sig[0] == 'a' && DBus::Type::refArray(x.getParameter(i)).size())
                value(DBus::Type::refArray(x.getParameter(i)).getContents().back());
            else if (sig[0] == '(')
                value(DBus::Type::refStruct(x.getParameter(i))[0]);
        }
        spoiled(r, x);
    }
    // Another copy of the message, changed
    template <class X>
    void spoiled(Rng& r, const X& x)
    {
        X mine(x);
        if constexpr (std::is_same<X, M::MethodReturn>::value || std::is_same<X, M::Signal>::value) {
            for (unsigned i = r.range(1, 3); i--;)
                mine.addParameter(DBus::Type::String("another"));
            // over which a third is assigned
            X third(x);
            third.addParameter(DBus::Type::Uint32(3));
            mine = third;
        }
        for (size_t i = 0; i < x.getParameterCount(); ++i) {
            spoil(x.getParameter(i));
            const std::string sig = DBus::Type::getMarshallingSignature(x.getParameter(i));
            if (sig[0] == 'v')
                spoil(DBus::Type::refVariant(x.getParameter(i)).getValue());
            else if (sig[0] == 'a' && DBus::Type::refArray(x.getParameter(i)).size())
                spoil(DBus::Type::refArray(x.getParameter(i)).getContents().back());
            else if (sig[0] == '(')
                spoil(DBus::Type::refStruct(x.getParameter(i))[0]);
        }
    }
    std::string check() const
    {
        for (auto& f : again) {
            const std::string d = f();
            if (!d.empty())
                return d;
        }
        return "";
    }
};
Msg some(Rng& r, uint32_t serial, std::set<int> kinds = {})
{
    Gen g(r);
    g.bytes = r.chance(1, 8) ? 3000 : 200;
    g.budget = 20;
    g.maxDepth = 4;
    Msg m;
    do
        m = g.message();
    while (!kinds.empty() && !kinds.count(m.type));
    m.serial = serial;
    return m;
}
}

PART(C31, fed)
{
    Kept kept;
    std::unique_ptr<bridge::Receiver> rc(new bridge::Receiver);
    rc->protocol.setMethodCallHandler([&](const M::MethodCall& x) { kept.message(r, x); });
    rc->protocol.setMethodReturnHandler([&](const M::MethodReturn& x) { kept.message(r, x); });
    rc->protocol.setErrorHandler([&](const M::Error& x) { kept.message(r, x); });
    rc->protocol.setSignalHandler([&](const M::Signal& x) { kept.message(r, x); });
    uint64_t h = 0;
    const unsigned n = r.range(2, 8);
    auto look = [&](const char* when) {
        const std::string d = kept.check();
        R.check(d.empty(), "changed", std::string(when) + ": " + d);
    };
    for (unsigned i = 0; i < n; ++i) {
        const std::string b = encode(some(r, i + 1));
        h = hashStr(b, h);
        for (auto& c : bridge::cuts(r, b.size()))
            rc->feed(b.data() + c.first, c.second, r.below(16));
        look("after more messages");
        if (r.chance(1, 6)) {
            std::string kind;
            try {
                rc->feed(framingError(r, &kind));
            } catch (const std::exception&) {
            }
            rc->protocol.reset();
            look("after a framing error");
        }
    }
    rc.reset();
    look("after the end of the protocol");
    // in other hands
    Kept copy = kept;
    kept.again.clear();
    R.add("values", copy.values);
    const std::string d = copy.check();
    R.check(d.empty(), "changed", "copied once more: " + d);
    R.eval(h, copy.again.size() > 0);
    R.sample(std::to_string(n) + " messages, " + std::to_string(copy.again.size()) + " things kept");
}

// Kept by handlers of a connection, read on another thread while it goes on and after its end
PART(C31, live)
{
    faultsFor(r);
    Kept kept;
    std::mutex m;
    uint64_t h = 0;
    std::atomic<bool> stop { false };
    std::thread reader;
    Rng q(r.next()); // of the handlers
    unsigned n = r.range(2, 10);
    {
        World w;
        w.addSync();
        w.mustAuthenticate();
        DBus::Native& c = *w.native;
        auto keep = [&](const auto& x) {
            Kept k;
            k.message(q, x);
            std::lock_guard<std::mutex> l(m);
            for (auto& f : k.again)
                kept.again.push_back(f);
            kept.values += k.values;
        };
        reader = std::thread([&] {
            while (!stop) {
                Kept k;
                {
                    std::lock_guard<std::mutex> l(m);
                    k = kept;
                }
                const std::string d = k.check();
                if (!d.empty()) {
                    R.violation("changed", "on another thread: " + d);
                    return;
                }
                faults::pause(100);
            }
        });
        for (unsigned i = 0; i < n; ++i) {
            Msg x = some(r, i + 1);
            const std::string name = x.text(F_INTERFACE) + "." + x.text(F_MEMBER);
            if (x.type == CALL)
                c.registerMethodCallHandler(name, [&](const M::MethodCall& a) { keep(a); });
            else if (x.type == SIGNAL)
                c.registerSignalHandler(name, [&](const M::Signal& a) { keep(a); });
            else {
                M::MethodCall call(Id("/v", "v.Some", "Call"));
                x.set(F_REPLY_SERIAL, num('u', call.getSerial()));
                c.sendMethodCall("v.e", call, [&](const M::MethodReturn& a) { keep(a); }, [&](const M::Error& a) { keep(a); });
            }
            const std::string b = encode(x);
            h = hashStr(b, h);
            w.peer->sendCut(r, b);
        }
        w.sync();
        std::lock_guard<std::mutex> l(m);
        R.check(kept.again.size() >= n, "lost", std::to_string(kept.again.size()) + " of " + std::to_string(n) + " messages were delivered");
    }
    stop = true;
    reader.join();
    const std::string d = kept.check();
    R.check(d.empty(), "changed", "after the end of the connection: " + d);
    countFaults();
    R.add("values", kept.values);
    R.eval(h, kept.again.size() > 0);
    R.sample(std::to_string(n) + " messages, " + std::to_string(kept.again.size()) + " things kept");
}

//--------------------------------------------------------------------------- C14: for the thread sanitizer
static vh::Part C14_beside("C14", "beside", C28_beside);
static vh::Part C14_cut("C14", "cut", C29_cut);
static vh::Part C14_kept("C14", "kept", C31_live);
