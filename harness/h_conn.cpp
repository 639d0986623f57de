// C08 C10 C11 C18 C26: one connection, its peer under the control of the test.
#include "anylocale.h"
#include "conn.h"

using namespace conn;
using namespace ref;
using bridge::Seen;
namespace M = DBus::Message;

// Some arguments for a message to the client
static std::vector<Val> someArgs(Rng& r)
{
    if (r.chance(1, 3))
        return {};
    Gen g(r);
    g.budget = 12;
    g.bytes = r.chance(1, 10) ? 5000 : 200;
    g.maxDepth = 4;
    return g.args(3);
}

//--------------------------------------------------------------------------- C08

namespace {
struct Calls {
    struct One {
        uint32_t serial = 0;
        bool expects = true, callbacks = true, sent = false, throws = false, nests = false;
        const Msg* answer = nullptr; // the first one, if it was sent after the call
        std::vector<std::pair<bool, Seen>> ran; // error?, what
    };
    std::mutex m;
    std::deque<One> all;
    DBus::Native* native = nullptr;
    std::map<size_t, std::unique_ptr<M::MethodCall>> held;
    std::atomic<unsigned> nested { 0 };

    std::unique_ptr<M::MethodCall> make(Rng& r, size_t& index)
    {
        std::lock_guard<std::mutex> l(m);
        index = all.size();
        all.emplace_back();
        One& o = all.back();
        o.expects = !r.chance(1, 8);
        o.throws = r.chance(1, 10);
        o.nests = r.chance(1, 12);
        o.callbacks = !r.chance(1, 16);
        M::MethodCallParametersIn in;
        in.add((uint32_t)index);
        static const uint32_t flags[] = { 0, 2, 4, 6 };
        std::unique_ptr<M::MethodCall> c(new M::MethodCall(Id("/o", "i.f", "M" + std::to_string(index % 7)), in, flags[r.below(4)] | (o.expects ? 0 : 1)));
        o.serial = c->getSerial();
        return c;
    }
    void ran(size_t i, bool error, Seen s)
    {
        bool throws, nests;
        {
            std::lock_guard<std::mutex> l(m);
            One& o = all[i];
            o.ran.push_back({ error, std::move(s) });
            throws = o.throws;
            nests = o.nests && o.ran.size() == 1;
        }
        if (nests && nested < 30) {
            ++nested;
            Rng r(i * 31 + 7);
            size_t k;
            auto c = make(r, k);
            send(k, *c);
        }
        if (throws)
            vh::throwAnything(i);
    }
    void send(size_t i, const M::MethodCall& c)
    {
        bool callbacks;
        {
            std::lock_guard<std::mutex> l(m);
            all[i].sent = true;
            callbacks = all[i].callbacks;
        }
        if (callbacks)
            native->sendMethodCall(
                "d.e", c, [this, i](const M::MethodReturn& x) { ran(i, false, bridge::seen(x)); },
                [this, i](const M::Error& x) { ran(i, true, bridge::seen(x)); });
        else
            native->sendMethodCall("d.e", c);
    }
};
}

// Rounds of calls, and answers to them in any order: also twice, to calls that were never made, to calls
// that expect none, and before the call is sent
PART(C08, random)
{
    faultsFor(r);
    Calls calls;
    std::deque<Msg> sent; // all answers, for comparison
    {
        World w;
        calls.native = w.native.get();
        w.addSync();
        const bool early = r.chance(1, 4);
        if (!early)
            w.mustAuthenticate(r.chance(1, 2));
        std::set<uint32_t> used;
        const unsigned rounds = r.range(1, 4);
        for (unsigned round = 0; round < rounds; ++round) {
            // Calls whose serials are a power of two apart
            if (round && r.chance(1, 3)) {
                uint32_t from = 0;
                {
                    std::lock_guard<std::mutex> l(calls.m);
                    if (!calls.all.empty())
                        from = calls.all[r.below(calls.all.size())].serial;
                }
                const uint32_t apart = 1u << (r.chance(1, 3) ? 16 : r.chance(1, 60) ? 20 : 8 + r.below(7));
                for (uint32_t n = 0; from && n <= apart; ++n)
                    if ((M::MethodReturn(1).getSerial() + 1 - from) % apart == 0) {
                        R.add("apart");
                        break;
                    }
            }
            const unsigned threads = r.range(1, 3), each = r.chance(1, 60) ? r.range(300, 1500) : r.range(1, 12);
            std::vector<std::thread> ts;
            for (unsigned t = 0; t < threads; ++t)
                ts.emplace_back([&, s = r.next()] {
                    Rng q(s);
                    for (unsigned i = 0; i < each; ++i) {
                        size_t k;
                        auto c = calls.make(q, k);
                        if (q.chance(1, 8)) {
                            std::lock_guard<std::mutex> l(calls.m);
                            calls.held[k] = std::move(c);
                        } else
                            calls.send(k, *c);
                    }
                });
            // those held before may go now
            {
                std::map<size_t, std::unique_ptr<M::MethodCall>> go;
                {
                    std::lock_guard<std::mutex> l(calls.m);
                    for (auto it = calls.held.begin(); it != calls.held.end();)
                        if (r.chance(1, 2)) {
                            go[it->first] = std::move(it->second);
                            it = calls.held.erase(it);
                        } else
                            ++it;
                }
                for (auto& g : go)
                    calls.send(g.first, *g.second);
            }
            for (auto& t : ts)
                t.join();
            if (round == 0 && early)
                w.mustAuthenticate(r.chance(1, 2));
            std::vector<std::pair<uint32_t, bool>> plan;
            std::map<uint32_t, size_t> bySerial;
            {
                std::lock_guard<std::mutex> l(calls.m);
                for (size_t i = 0; i < calls.all.size(); ++i) {
                    auto& o = calls.all[i];
                    bySerial[o.serial] = i;
                    if (!o.answer && r.chance(3, 4))
                        plan.push_back({ o.serial, r.chance(1, 3) });
                    if (r.chance(1, 6))
                        plan.push_back({ o.serial, r.chance(1, 2) });
                }
            }
            for (unsigned i = r.below(5); i; --i)
                plan.push_back({ r.chance(1, 3) ? 0 : (uint32_t)r.next() | 0x80000000u, r.chance(1, 2) });
            // and to serials that differ from that of a call in a single bit (but not to those that calls made by
            // the callbacks may get)
            const uint32_t now = M::MethodReturn(1).getSerial();
            for (unsigned i = r.below(4); i && !bySerial.empty(); --i) {
                auto it = bySerial.begin();
                std::advance(it, r.below(bySerial.size()));
                const uint32_t near = it->first ^ (1u << r.below(32));
                if (near && near - now > 100000 && !bySerial.count(near))
                    plan.push_back({ near, r.chance(1, 2) });
            }
            r.shuffle(plan);
            std::string bytes;
            for (auto& p : plan) {
                sent.push_back(replyTo(p.second, p.first, 1 + (uint32_t)sent.size(), someArgs(r)));
                sent.back().be = r.chance(1, 4);
                sent.back().flags = r.chance(1, 3) ? 0 : 1;
                if (p.second && r.chance(1, 2))
                    sent.back().body.insert(sent.back().body.begin(), str("what went wrong"));
                if (p.first == 0)
                    for (auto& f : sent.back().fields)
                        if (f.first == F_REPLY_SERIAL)
                            f.second.u = 0;
                auto it = bySerial.find(p.first);
                if (it != bySerial.end()) {
                    std::lock_guard<std::mutex> l(calls.m);
                    auto& o = calls.all[it->second];
                    if (o.sent && !o.answer)
                        o.answer = &sent.back();
                }
                bytes += encode(sent.back());
            }
            w.peer->sendCut(r, bytes);
            w.sync();
        }
        R.add("answers_sent", sent.size());
    }
    uint64_t h = 0;
    for (size_t i = 0; i < calls.all.size(); ++i) {
        auto& o = calls.all[i];
        const bool should = o.answer && o.expects && o.callbacks;
        h = mix(h ^ (should ? 1 + (o.answer->type == ERROR) : 0) ^ (o.ran.size() << 8));
        const std::string what = "call " + std::to_string(i) + " serial " + std::to_string(o.serial) + (o.expects ? "" : " (expects no reply)");
        if (!R.check(o.ran.size() == (should ? 1u : 0u), "times", what + ": callbacks ran " + std::to_string(o.ran.size()) + " times instead of " + (should ? "1" : "0")))
            continue;
        if (!should)
            continue;
        R.check(o.ran[0].first == (o.answer->type == ERROR), "kind", what + ": answered by " + (o.answer->type == ERROR ? "an error" : "a return") + ", but the other callback ran");
        const std::string d = bridge::compare(bridge::expected(*o.answer), o.ran[0].second);
        R.check(d.empty(), "content", what + ": " + d);
        R.add("answered");
    }
    R.add("calls", calls.all.size());
    countFaults();
    R.eval(hashStr(std::to_string(h)), calls.all.size() > 1);
    R.sample(std::to_string(calls.all.size()) + " calls, " + std::to_string(sent.size()) + " answers");
}

// The peer answers at once, or in batches out of order, while several threads go on calling
PART(C08, live)
{
    faultsFor(r);
    const unsigned threads = r.range(1, 6), each = r.range(5, 60);
    std::vector<std::atomic<uint8_t>> success(threads * each), failure(threads * each);
    for (auto& x : success)
        x = 0;
    for (auto& x : failure)
        x = 0;
    std::atomic<uint64_t> wrong { 0 };
    Event all;
    std::string firstWrong;
    std::mutex wm;
    std::vector<uint64_t> order;
    {
        World w;
        const unsigned batch = r.chance(1, 2) ? 1 : r.range(2, 9);
        Rng pr(r.next());
        std::vector<std::string> waiting;
        uint64_t received = 0;
        w.peer->onMessage = [&](const std::string& raw) {
            Msg m = decode(raw);
            if (m.type != CALL || m.body.size() != 1)
                return;
            const uint32_t id = m.body[0].u;
            waiting.push_back(encode(replyTo(id % 3 == 0, m.serial, 5 + id, { num('u', id) })));
            if (id % 5 == 0) // twice
                waiting.push_back(encode(replyTo(id % 2, m.serial, 6 + id, { num('u', id) })));
            ++received;
            if (waiting.size() >= batch || received == threads * each) {
                pr.shuffle(waiting);
                std::string s;
                for (auto& x : waiting)
                    s += x;
                waiting.clear();
                w.peer->send(s);
            }
        };
        const bool early = r.chance(1, 3);
        if (!early)
            w.mustAuthenticate();
        std::vector<std::thread> ts;
        auto check = [&](uint32_t want, const M::Base& m) {
            Val v = bridge::fromLib(m.getParameter(0));
            if (v.t != 'u' || v.u != want) {
                ++wrong;
                std::lock_guard<std::mutex> l(wm);
                firstWrong = "call " + std::to_string(want) + " got the answer to " + std::to_string(v.u);
            }
            {
                std::lock_guard<std::mutex> l(wm);
                order.push_back(want);
            }
            all.hit();
        };
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back([&, t] {
                for (unsigned i = 0; i < each; ++i) {
                    const uint32_t id = t * each + i;
                    M::MethodCallParametersIn in;
                    in.add(id);
                    M::MethodCall c(Id("/o", "i.f", "M"), in);
                    w.native->sendMethodCall(
                        "d.e", c, [&, id](const M::MethodReturn& x) { ++success[id]; check(id, x); },
                        [&, id](const M::Error& x) { ++failure[id]; check(id, x); });
                }
            });
        if (early)
            w.mustAuthenticate();
        for (auto& t : ts)
            t.join();
        if (!all.wait(threads * each))
            giveUp("never", std::to_string(all.n) + " of " + std::to_string(threads * each) + " calls were completed");
        w.flush();
        w.sync();
    }
    for (unsigned i = 0; i < threads * each; ++i)
        R.check(success[i] + failure[i] == 1, "times", "call " + std::to_string(i) + ": success ran " + std::to_string(success[i]) + ", failure " + std::to_string(failure[i]) + " times");
    R.check(!wrong, "content", firstWrong);
    R.add("calls", threads * each);
    countFaults();
    R.eval(hashBytes(order.data(), order.size() * 8), threads * each > 1);
}

// The convenience methods send the right call to the bus and hand on its answer
PART(C08, busmethods)
{
    World w;
    w.mustAuthenticate();
    const unsigned n = r.range(3, 12);
    std::vector<std::string> want;
    std::vector<int> got(n, 0), kinds(n, 0);
    std::vector<uint32_t> values(n, 0);
    Event answered;
    DBus::Native& c = *w.native;
    w.peer->onMessage = [&](const std::string& raw) {
        Msg m = decode(raw);
        if (m.type == CALL && !(m.flags & 1)) {
            w.peer->send(encode(replyTo(m.serial % 3 == 0, m.serial, 9, { num('u', m.serial) })));
        }
    };
    for (unsigned i = 0; i < n; ++i) {
        auto ok = [&, i](const M::MethodReturn& x) { got[i]++; kinds[i] = 1; values[i] = bridge::fromLib(x.getParameter(0)).u; answered.hit(); };
        auto no = [&, i](const M::Error& x) { got[i]++; kinds[i] = 2; values[i] = bridge::fromLib(x.getParameter(0)).u; answered.hit(); };
        const std::string name = "n.a" + std::to_string(r.below(1000));
        const uint32_t flags = r.below(8);
        std::string member;
        std::vector<Val> args = { str(name) };
        switch (r.below(10)) {
        case 0:
            c.callHello(ok, no);
            member = "Hello";
            args.clear();
            break;
        case 1:
            c.callGetUnixProcessId(name, ok, no);
            member = "GetConnectionUnixProcessID";
            break;
        case 2:
            c.callGetConnectionUnixUser(name, ok, no);
            member = "GetConnectionUnixUser";
            break;
        case 3:
            c.callRequestName(name, flags, ok, no);
            member = "RequestName";
            args.push_back(num('u', flags));
            break;
        case 4:
            c.callReleaseName(name, ok, no);
            member = "ReleaseName";
            break;
        case 5:
            c.callListQueuedOwners(name, ok, no);
            member = "ListQueuedOwners";
            break;
        case 6:
            c.callListNames(ok, no);
            member = "ListNames";
            args.clear();
            break;
        case 7:
            c.callListActivatableNames(ok, no);
            member = "ListActivatableNames";
            args.clear();
            break;
        case 8:
            c.callNameHasOwner(name, ok, no);
            member = "NameHasOwner";
            break;
        default:
            c.callAddMatch("interface='" + name + "'", ok, no, [](const M::Signal&) {});
            member = "AddMatch";
            args = { str("interface='" + name + "'") };
        }
        want.push_back("/org/freedesktop/DBus org.freedesktop.DBus " + member + " " + sigOf(args) + show(args));
    }
    if (!answered.wait(n))
        giveUp("never", "an answer of the bus ran no callback");
    w.flush();
    w.sync();
    std::vector<Msg> seen;
    for (auto& m : w.peer->messages)
        seen.push_back(decode(m));
    R.check(seen.size() == n + 1, "calls", std::to_string(seen.size() - 1) + " calls instead of " + std::to_string(n));
    for (unsigned i = 0; i < n && i < seen.size(); ++i) {
        const Msg& m = seen[i];
        const std::string is = m.text(F_PATH) + " " + m.text(F_INTERFACE) + " " + m.text(F_MEMBER) + " " + sigOf(m.body) + show(m.body);
        R.check(is == want[i] && m.text(F_DESTINATION) == "org.freedesktop.DBus" && m.type == CALL, "bus-call", "sent " + is + " to " + m.text(F_DESTINATION) + " instead of " + want[i]);
        R.check(got[i] == 1 && kinds[i] == (m.serial % 3 == 0 ? 2 : 1) && values[i] == m.serial, "bus-answer",
            want[i] + ": callbacks ran " + std::to_string(got[i]) + " times, kind " + std::to_string(kinds[i]));
    }
    R.eval(hashStr(want.front() + want.back() + std::to_string(n)));
}

//--------------------------------------------------------------------------- outgoing messages with their bytes

namespace {
// A message that says who sent it: its first argument (or text) is "T<thread>:<number>:..."
struct Outgoing {
    std::string bytes;
    std::function<void(DBus::Native&)> send;
    int kind;
};
size_t size(Rng& r, bool large)
{
    switch (r.below(large ? 12 : 9)) {
    case 0:
        return 0;
    case 1:
        return r.range(900, 1100);
    case 2:
        return r.range(1000, 9000);
    case 9:
        return r.range(60000, 70000);
    case 10:
        return r.range(100000, 400000);
    case 11:
        return r.chance(1, 6) ? r.range(1000000, 3000000) : r.range(10000, 60000);
    default:
        return r.below(120);
    }
}
Outgoing outgoing(Rng& r, unsigned thread, unsigned n, bool large, int kind = 0)
{
    Outgoing o;
    std::string text = "T" + std::to_string(thread) + ":" + std::to_string(n) + ":";
    const size_t len = size(r, large);
    Rng q(thread * 1000003 + n);
    text.reserve(text.size() + len);
    for (size_t i = 0; i < len; ++i)
        text += (char)('!' + (q.s = q.s * 6364136223846793005ull + 1442695040888963407ull, (q.s >> 33) % 90));
    const std::string dest = r.chance(1, 3) ? "" : "d.e" + std::to_string(thread);
    o.kind = kind ? kind : (int)r.range(1, 5);
    switch (o.kind) {
    case 1: {
        M::MethodCallParametersIn in;
        in.add(text);
        auto m = std::make_shared<M::MethodCall>(Id("/o", "i.f", "M"), in, r.chance(1, 2) ? 1 : 0);
        o.bytes = m->marshall(dest);
        o.send = [m, dest](DBus::Native& c) { c.sendMethodCall(dest, *m); };
        break;
    }
    case 2: {
        auto m = std::make_shared<M::MethodReturn>((uint32_t)(1 + r.below(1000)));
        m->addParameter(DBus::Type::String(text));
        o.bytes = m->marshall(dest);
        o.send = [m, dest](DBus::Native& c) { c.sendMethodReturn(dest, *m); };
        break;
    }
    case 3: {
        auto m = std::make_shared<M::Error>((uint32_t)(1 + r.below(1000)), "e.f", text);
        o.bytes = m->marshall(dest);
        o.send = [m, dest](DBus::Native& c) { c.sendError(dest, *m); };
        break;
    }
    default: {
        auto m = std::make_shared<M::Signal>(Id("/o", "i.f", "S"));
        m->addParameter(DBus::Type::String(text));
        o.bytes = m->marshall(o.kind == 4 ? dest : "");
        if (o.kind == 4)
            o.send = [m, dest](DBus::Native& c) { c.sendSignal(dest, *m); };
        else
            o.send = [m](DBus::Native& c) { c.broadcastSignal(*m); };
    }
    }
    return o;
}

// Is what was received what was sent, each once, in each thread's order? The flush signal at the end does not count
void judgeStream(Peer& p, const std::vector<std::vector<std::string>>& sent, const std::string& prefix = "", bool busCalls = false)
{
    std::lock_guard<std::mutex> l(p.m);
    if (!R.check(p.broken.empty(), prefix + "not-messages", p.broken))
        return;
    R.check(p.rest.empty(), prefix + "partial", "bytes of an incomplete message at the end: " + vh::hex(p.rest));
    std::vector<size_t> next(sent.size(), 0);
    for (size_t i = 0; i < p.messages.size(); ++i) {
        const std::string& raw = p.messages[i];
        std::string who;
        try {
            Msg m = decode(raw);
            if (m.text(F_INTERFACE) == "v.Flush" || (busCalls && m.text(F_INTERFACE) == "org.freedesktop.DBus"))
                continue;
            who = m.body.empty() ? "" : m.body[0].s;
        } catch (const std::exception& e) {
            R.violation(prefix + "not-a-message", "message " + std::to_string(i) + ": " + e.what() + ": " + vh::hex(raw));
            return;
        }
        unsigned t = 0, n = 0;
        if (sscanf(who.c_str(), "T%u:%u:", &t, &n) != 2 || t >= sent.size() || n >= sent[t].size()) {
            R.violation(prefix + "unknown", "nobody sent this: " + conn::show(raw));
            return;
        }
        if (n != next[t]) {
            R.violation(prefix + (n < next[t] ? "repeated-or-late" : "order-or-lost"),
                "thread " + std::to_string(t) + ": message " + std::to_string(n) + " came where " + std::to_string(next[t]) + " was due");
            return;
        }
        next[t] = n + 1;
        if (sent[t][n] != raw) {
            R.violation(prefix + "altered", "message " + std::to_string(n) + " of thread " + std::to_string(t) + " is not what was sent: " + conn::show(raw));
            return;
        }
    }
    for (size_t t = 0; t < sent.size(); ++t)
        R.check(next[t] == sent[t].size(), prefix + "lost", "thread " + std::to_string(t) + ": received " + std::to_string(next[t]) + " of " + std::to_string(sent[t].size()));
}
uint64_t interleaving(Peer& p)
{
    uint64_t h = p.messages.size();
    for (auto& m : p.messages)
        h = hashBytes(m.data() + 8, 4, h); // the serial
    return h;
}
}

//--------------------------------------------------------------------------- C10

PART(C10, threads)
{
    faultsFor(r);
    const bool large = r.chance(1, 3);
    const unsigned threads = r.range(1, 5), each = large ? r.range(2, 14) : r.range(3, 60);
    const unsigned handlers = r.chance(1, 2) ? r.range(1, each) : 0; // sent from a handler
    std::vector<std::vector<std::string>> sent(threads + 1);
    {
        World w;
        w.addSync();
        std::vector<Outgoing> fromHandler;
        for (unsigned i = 0; i < handlers; ++i) {
            fromHandler.push_back(outgoing(r, threads, i, large));
            sent[threads].push_back(fromHandler.back().bytes);
        }
        size_t next = 0;
        w.native->registerMethodCallHandler("i.f.Go", [&](const M::MethodCall&) {
            if (next < fromHandler.size())
                fromHandler[next++].send(*w.native);
        });
        w.mustAuthenticate(r.chance(1, 4));
        // how the peer reads
        switch (r.below(5)) {
        case 0:
            break;
        case 1:
            w.peer->chunk = r.range(1, 300);
            w.peer->delayUs = large ? 0 : r.range(0, 80);
            break;
        case 2:
            w.peer->chunk = r.range(2000, 9000);
            w.peer->delayUs = r.range(0, 50);
            break;
        default:
            w.peer->paused = true;
        }
        if (large && w.peer->chunk < 2000)
            w.peer->chunk = 2000;
        std::vector<std::thread> ts;
        std::mutex sm;
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                std::vector<std::string> mine;
                for (unsigned i = 0; i < each; ++i) {
                    Outgoing o = outgoing(q, t, i, large);
                    mine.push_back(o.bytes);
                    o.send(*w.native);
                    if (q.chance(1, 8))
                        faults::pause(q.below(100));
                }
                std::lock_guard<std::mutex> l(sm);
                sent[t] = std::move(mine);
            });
        std::string go;
        for (unsigned i = 0; i < handlers; ++i)
            go += encode(callTo("/o", "i.f", "Go", 5 + i, {}, 1));
        w.peer->send(go);
        if (w.peer->paused) {
            faults::pause(r.below(20000));
            w.peer->paused = false;
        }
        for (auto& t : ts)
            t.join();
        w.sync();
        w.flush();
        judgeStream(*w.peer, sent);
        R.add("messages", w.peer->messages.size());
        R.add("bytes", w.peer->total.load());
        countFaults();
        R.eval(interleaving(*w.peer), threads + (handlers > 0) > 1);
        R.sample(std::to_string(threads) + " threads, " + std::to_string(w.peer->messages.size()) + " messages, " + std::to_string(w.peer->total) + " bytes");
    }
}

// One message after the other that the socket does not take at once, and others behind it
PART(C10, backlog)
{
    faults::off();
    faults::cfg.sndbuf = r.chance(1, 2) ? 4608 : 0;
    if (r.chance(1, 2)) {
        faults::cfg.shortWrite = 300;
        faults::cfg.maxWrite = 2000;
    }
    const unsigned threads = r.range(1, 4), each = r.range(3, 9);
    std::vector<std::vector<std::string>> sent(threads);
    {
        World w;
        w.mustAuthenticate();
        w.peer->paused = true;
        std::vector<std::thread> ts;
        std::mutex sm;
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                std::vector<std::string> mine;
                for (unsigned i = 0; i < each; ++i) {
                    // between large ones, small ones
                    Outgoing o = outgoing(q, t, i, q.chance(1, 2), 1 + q.below(5));
                    mine.push_back(o.bytes);
                    o.send(*w.native);
                }
                std::lock_guard<std::mutex> l(sm);
                sent[t] = std::move(mine);
            });
        for (auto& t : ts)
            t.join(); // the peer reads nothing, and nobody waits for it
        // now in bursts
        w.peer->paused = false;
        for (unsigned i = r.below(6); i; --i) {
            faults::pause(r.below(800));
            w.peer->paused = true;
            faults::pause(r.below(800));
            w.peer->paused = false;
        }
        w.flush();
        judgeStream(*w.peer, sent);
        R.add("messages", w.peer->messages.size());
        R.add("bytes", w.peer->total.load());
        countFaults();
        R.eval(interleaving(*w.peer), w.peer->total > 5000);
    }
    faults::off();
}

//--------------------------------------------------------------------------- C32

// A peer that reads nothing, for as long as it takes, but goes on sending
PART(C32, stalled)
{
    faultsFor(r);
    if (r.chance(1, 3))
        faults::off();
    if (r.chance(1, 3))
        faults::cfg.sndbuf = 4608;
    const unsigned threads = r.range(1, 4), each = r.chance(1, 20) ? r.range(200, 1500) : r.range(5, 40);
    const bool large = r.chance(1, 3) && each < 100, early = r.chance(1, 8);
    if (large && faults::cfg.maxWrite < 4000)
        faults::cfg.maxWrite = 4000;
    const unsigned arriving = r.range(1, 30), inHandler = r.chance(2, 3) ? r.range(1, 12) : 0;
    std::vector<std::vector<std::string>> sent(threads + 1);
    std::string story = std::to_string(threads) + " threads with " + std::to_string(each) + " operations each";
    {
        World w;
        DBus::Native& c = *w.native;
        w.addSync();
        std::vector<Outgoing> fromHandler;
        for (unsigned i = 0; i < inHandler; ++i) {
            fromHandler.push_back(outgoing(r, threads, i, large));
            sent[threads].push_back(fromHandler.back().bytes);
        }
        Event handled, answered;
        size_t next = 0;
        c.registerMethodCallHandler("i.f.Go", [&](const M::MethodCall&) {
            if (next < fromHandler.size())
                fromHandler[next++].send(c);
            handled.hit();
        });
        c.registerSignalHandler("i.f.Went", [&](const M::Signal&) { handled.hit(); });
        w.mustAuthenticate(r.chance(1, 4));
        // calls whose answers arrive while nothing can be sent
        std::vector<uint32_t> calls;
        for (unsigned i = 0; i < 4; ++i) {
            M::MethodCall m(Id("/o", "org.freedesktop.DBus", "GetId"));
            calls.push_back(m.getSerial());
            c.sendMethodCall("d.e", m, [&](const M::MethodReturn&) { answered.hit(); }, [&](const M::Error&) { answered.hit(); });
        }
        if (!w.peer->wait([&] { return w.peer->messages.size() >= calls.size(); }))
            giveUp("lost", "the calls were not received");
        w.peer->paused = true;
        faults::pause(1000);
        const uint64_t before = w.peer->total;
        std::vector<std::thread> ts;
        std::mutex sm;
        Event finished;
        std::atomic<uint64_t> bytes { 0 };
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                std::vector<std::string> mine;
                unsigned rules = 0;
                for (unsigned i = 0; i < each;) {
                    const std::string name = "i.g.T" + std::to_string(t);
                    switch (q.below(14)) {
                    case 0:
                        c.getStats();
                        break;
                    case 1:
                        c.registerMethodCallHandler(name, [](const M::MethodCall&) {});
                        break;
                    case 2:
                        c.unRegisterMethodCallHandler(name);
                        break;
                    case 3:
                        c.callAddMatch("member='R" + std::to_string(t) + "n" + std::to_string(rules++ % 5) + "'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [](const M::Signal&) {});
                        break;
                    case 4:
                        c.callRemoveMatch("member='R" + std::to_string(t) + "n" + std::to_string(q.below(5)) + "'");
                        break;
                    case 5:
                        c.registerSignalHandler(name, [](const M::Signal&) {});
                        c.unRegisterSignalHandler(name);
                        break;
                    default: {
                        Outgoing o = outgoing(q, t, i, large);
                        bytes += o.bytes.size();
                        mine.push_back(o.bytes);
                        o.send(c);
                        ++i;
                    }
                    }
                }
                {
                    std::lock_guard<std::mutex> l(sm);
                    sent[t] = std::move(mine);
                }
                finished.hit();
            });
        if (early && !finished.wait(threads))
            giveUp("waits", story + ": only " + std::to_string(finished.n) + " threads came back while the peer reads nothing");
        // what arrives meanwhile
        std::vector<std::string> in;
        for (unsigned i = 0; i < std::max(arriving, inHandler); ++i)
            in.push_back(encode(callTo("/o", "i.f", "Go", 5 + i, { str(std::string(r.below(r.chance(1, 8) ? 60000 : 100), 'x')) }, 1)));
        for (unsigned i = 0; i < arriving; ++i)
            in.push_back(encode(signalTo("/o", "i.f", "Went", 1000 + i, { str(std::string(r.below(100), 'x')) })));
        for (unsigned i = 0; i < calls.size(); ++i)
            in.push_back(encode(replyTo(i & 1, calls[i], 2000 + i, { str("answer") })));
        r.shuffle(in);
        std::string all;
        for (auto& x : in)
            all += x;
        w.peer->sendCut(r, all);
        const unsigned due = std::max(arriving, inHandler) + arriving;
        if (!handled.wait(due))
            giveUp("not-received", story + ": while the peer reads nothing, " + std::to_string(handled.n) + " of " + std::to_string(due) + " messages were handled");
        if (!answered.wait(calls.size()))
            giveUp("not-received", story + ": while the peer reads nothing, " + std::to_string(answered.n) + " of " + std::to_string(calls.size()) + " answers were handled");
        w.sync();
        if (!finished.wait(threads))
            giveUp("waits", story + ": only " + std::to_string(finished.n) + " threads came back while the peer reads nothing");
        for (auto& t : ts)
            t.join();
        R.check(w.peer->total - before <= 65536, "harness-not-paused", "the peer read");
        uint64_t total = 0;
        for (auto& t : sent)
            for (auto& m : t)
                total += m.size();
        R.maxOf("bytes waiting", total);
        R.add("messages handled while stalled", due + calls.size());
        const unsigned end = r.below(8);
        if (end < 6) {
            if (end == 1)
                w.peer->chunk = r.range(2000, 9000);
            w.peer->paused = false;
            if (end == 2)
                for (unsigned i = r.below(6); i; --i) {
                    faults::pause(r.below(800));
                    w.peer->paused = true;
                    // still no reason to wait
                    w.sync();
                    w.peer->paused = false;
                }
            w.flush();
            judgeStream(*w.peer, sent, "", true);
        } else {
            // it never reads again
            const auto t0 = std::chrono::steady_clock::now();
            w.native.reset();
            const double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            R.check(s < 15, "destroy", story + ": the destructor took " + std::to_string(s) + " s");
        }
        countFaults();
        R.eval(mix(r.s) ^ total, total > 5000);
        R.sample(story + ", " + std::to_string(total) + " bytes waiting, " + std::to_string(due) + " messages handled meanwhile");
    }
    faults::off();
}

//--------------------------------------------------------------------------- C11

namespace {
std::string otherLine(Rng& r)
{
    static const char* fixed[] = { "REJECTED EXTERNAL DBUS_COOKIE_SHA1 ANONYMOUS", "REJECTED", "DATA", "DATA 00ff", "AUTH EXTERNAL 30", "AUTH", "NEGOTIATE_UNIX_FD", "CANCEL",
        "BEGIN", "HELLO", "ok 0123", "", " ", " OK 0123", "XOK 0123", "REJECTED OK 0123", "O", "K", "AGREE", "ER", "OX 0123", "agree_unix_fd", "FOO\nOK 0123456789abcdef",
        "FOO\rOK 0123456789abcdef", "\rOK 0123", "0K", "EXTENSION_OK", "REJECTED ERROR AGREE_UNIX_FD", "DATA OK", "NEGOTIATE_UNIX_FD AGREE_UNIX_FD" };
    switch (r.below(8)) {
    case 0: {
        std::string s = "Z";
        for (unsigned i = r.below(60); i; --i)
            s += (char)r.range(32, 126);
        return s;
    }
    case 1: {
        std::string s = "Z";
        for (unsigned i = r.below(60); i; --i) {
            const char c = (char)r.below(256);
            if (c != '\r' && c != '\n')
                s += c;
        }
        return s;
    }
    case 2:
        return "Z" + std::string(r.chance(1, 10) ? r.range(1000, 40000) : r.range(1, 3000), r.chance(1, 3) ? '\n' : 'x');
    default:
        return fixed[r.below(sizeof fixed / sizeof *fixed)];
    }
}
}

// Any server, while threads send. The messages of these go out after BEGIN.
PART(C11, sessions)
{
    faultsFor(r);
    faults::cfg.fakeUid = r.chance(1, 2);
    static const uint32_t uids[] = { 0, 1, 9, 10, 1000, 65534, 4294967294u };
    faults::cfg.uid = r.chance(1, 3) ? (uint32_t)r.next() : uids[r.below(7)];
    const unsigned threads = r.below(4), each = r.chance(1, 60) ? r.range(200, 2000) : r.range(1, 12);
    const bool authenticated = !r.chance(1, 5);
    std::vector<std::vector<std::string>> sent(threads + 1);
    std::string expected(1, '\0'), script;
    bool begun = false;
    unsigned handled = 0, signalsSent = 0;
    uint64_t h = 0;
    {
        World w(true, r.chance(1, 4));
        w.addSync();
        w.native->registerSignalHandler("i.f.After", [&](const M::Signal&) { ++handled; });
        std::vector<std::thread> ts;
        std::mutex sm;
        std::vector<std::atomic<unsigned>> progress(threads + 1);
        for (auto& p : progress)
            p = 0;
        auto run = [&](unsigned t, uint64_t s) {
            Rng q(s);
            std::vector<std::string> mine;
            for (unsigned i = 0; i < each; ++i) {
                Outgoing o = outgoing(q, t, i, false);
                mine.push_back(o.bytes);
                o.send(*w.native);
                ++progress[t];
                if (q.chance(1, 4))
                    faults::pause(q.below(300));
            }
            std::lock_guard<std::mutex> l(sm);
            sent[t] = std::move(mine);
        };
        // some are done before anything else happens
        if (r.chance(1, 2))
            run(threads, r.next());
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back(run, t, r.next());

        enum { NONE,
            OK,
            AGREE } state = NONE;
        bool fds = false;
        uint64_t toClient = 0;
        std::string pending;
        auto push = [&] {
            if (pending.empty())
                return;
            w.peer->sendCut(r, pending);
            toClient += pending.size();
            pending.clear();
        };
        auto request = [&] {
            push();
            awaitAuthBytes(*w.native, toClient);
            fds = r.chance(1, 2);
            w.native->BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
            expected += authLine();
            script += fds ? "|request fds" : "|request";
            state = OK;
            h = mix(h ^ 1 ^ fds);
        };
        auto line = [&](const std::string& s) {
            pending += s + "\r\n";
            script += "|" + s.substr(0, 30);
            h = hashStr(s, h);
            const bool ok = s.compare(0, 3, "OK ") == 0 || s == "OK";
            const bool agree = s == "AGREE_UNIX_FD" || s.compare(0, 6, "ERROR ") == 0 || s == "ERROR";
            if (state == OK && ok) {
                if (fds) {
                    expected += "NEGOTIATE_UNIX_FD\r\n";
                    state = AGREE;
                } else
                    begun = true;
            } else if (state == AGREE && agree)
                begun = true;
            if (begun)
                expected += "BEGIN\r\n";
        };
        auto any = [&] {
            switch (r.below(6)) {
            case 0:
                return std::string("OK ") + GUID;
            case 1:
                return std::string("AGREE_UNIX_FD");
            case 2:
                return std::string(r.chance(1, 2) ? "ERROR" : "ERROR \"no such command\"");
            default:
                return otherLine(r);
            }
        };
        for (unsigned steps = r.below(14); steps && !begun; --steps) {
            if (r.chance(1, 4))
                request();
            else {
                const std::string s = any();
                // unauthenticated ones must not get that far
                if (!authenticated && ((state == OK && !fds && s.compare(0, 2, "OK") == 0) || (state == AGREE && (s[0] == 'A' || s[0] == 'E'))))
                    continue;
                line(s);
                if (r.chance(1, 3))
                    push();
            }
        }
        if (authenticated) {
            while (!begun) {
                if (state == NONE || r.chance(1, 5))
                    request();
                if (r.chance(1, 4))
                    line(otherLine(r));
                else
                    line(state == AGREE ? r.chance(1, 2) ? "AGREE_UNIX_FD" : "ERROR" : r.chance(1, 4) ? "OK" : std::string("OK ") + GUID);
            }
            // messages right behind
            for (unsigned i = r.below(4); i; --i) {
                Msg m = signalTo("/o", "i.f", "After", 1 + i, someArgs(r));
                m.be = r.chance(1, 3);
                pending += encode(m);
                ++signalsSent;
            }
        }
        push();
        if (begun) {
            if (!w.peer->wait([&] { return w.peer->begun; }))
                giveUp("no-begin", "no BEGIN: " + script + "; received " + vh::hex(w.peer->handshake));
            w.sync();
            for (auto& t : ts)
                t.join();
            w.flush();
        } else {
            awaitAuthBytes(*w.native, toClient);
            for (auto& t : ts)
                t.join();
            // what the socket did not take is lost when the client goes
            w.peer->wait([&] { return w.peer->handshake.size() >= expected.size(); });
            faults::pause(2000);
        }
        // all that was written can be read when the client has gone
        w.native.reset();
        if (!w.peer->wait([&] { return w.peer->eof; }))
            giveUp("harness no end of the stream", "");
        std::string got;
        {
            std::lock_guard<std::mutex> l(w.peer->m);
            got = w.peer->handshake;
        }
        R.check(got == expected, "handshake", script + ": the client sent " + vh::hex(got, 800) + " instead of " + vh::hex(expected, 800));
        if (begun && got == expected) {
            judgeStream(*w.peer, sent);
            R.check(handled == signalsSent, "after", std::to_string(handled) + " of " + std::to_string(signalsSent) + " messages behind the handshake were handled");
        }
        R.add(begun ? "begun" : "not_begun");
        R.add("messages", w.peer->messages.size());
        h = mix(h ^ interleaving(*w.peer));
    }
    faults::cfg.fakeUid = false;
    countFaults();
    R.eval(h, script.size() > 20);
    R.sample(script);
}

// Every division of a short handshake into two or three pieces
PART(C11, everycut)
{
    faults::off();
    const bool fds = index % 2;
    const std::string one = std::string("OK ") + "12ab" + "\r\n", two = fds ? (index % 4 == 1 ? "AGREE_UNIX_FD\r\n" : "ERROR x\r\n") : "";
    const std::string junk = r.chance(1, 2) ? "" : otherLine(r).substr(0, 12) + "\r\n";
    World w;
    unsigned handled = 0;
    w.native->registerSignalHandler("i.f.After", [&](const M::Signal&) { ++handled; });
    w.addSync();
    const std::string after = encode(signalTo("/o", "i.f", "After", 3, { num('u', 7) })) + w.mark();
    const std::string all = junk + one + two + after;
    w.native->sendSignal("a.b", M::Signal(Id("/o", "i.f", "Queued")));
    w.native->BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
    std::string expected = std::string(1, '\0') + authLine() + (fds ? "NEGOTIATE_UNIX_FD\r\n" : "") + "BEGIN\r\n";
    size_t a = 1 + (index / 4) % (all.size() - 1), b = a + 1 + r.below(all.size() - a);
    // each piece is taken in by itself, as far as it belongs to the handshake
    w.peer->send(all.substr(0, a));
    const size_t hs = junk.size() + one.size() + two.size();
    awaitAuthBytes(*w.native, std::min(a, hs));
    w.peer->send(all.substr(a, b - a));
    if (b < hs)
        awaitAuthBytes(*w.native, b);
    else
        faults::pause(100);
    w.peer->send(all.substr(b));
    if (!w.synced.wait(1))
        giveUp("lost", "messages behind the handshake were not handled; cut at " + std::to_string(a) + " and " + std::to_string(b) + " of " + vh::hex(all));
    w.flush();
    std::lock_guard<std::mutex> l(w.peer->m);
    R.check(w.peer->handshake == expected, "handshake", "cut at " + std::to_string(a) + " and " + std::to_string(b) + ": " + vh::hex(w.peer->handshake));
    R.check(handled == 1, "after", "the signal behind the handshake was handled " + std::to_string(handled) + " times");
    R.check(w.peer->messages.size() == 2 && w.peer->messages[0].find("Queued") != std::string::npos, "queued", std::to_string(w.peer->messages.size()) + " messages instead of 2");
    R.eval(hashStr(all + std::to_string(a) + "/" + std::to_string(b)));
}

//--------------------------------------------------------------------------- C18

// So many of a kind that a counter might end
PART(C18, many)
{
    World w;
    w.addSync();
    w.mustAuthenticate();
    const int kind = index % 4;
    const unsigned n = 65536 + r.below(3000), threads = r.range(1, 3);
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < threads; ++t)
        ts.emplace_back([&, t] {
            for (unsigned i = t; i < n; i += threads)
                switch (kind) {
                case 0:
                    w.native->sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "M"), {}, 1));
                    break;
                case 1:
                    w.native->sendMethodReturn("d.e", M::MethodReturn(1 + i));
                    break;
                case 2:
                    w.native->sendError("d.e", M::Error(1 + i, "e.f", ""));
                    break;
                default:
                    w.native->broadcastSignal(M::Signal(Id("/o", "i.f", "S")));
                }
        });
    std::string bytes;
    for (unsigned i = 0; i < n; ++i)
        bytes += encode(kind == 0 ? callTo("/o", "i.f", "M", 1 + i, {}) : kind == 3 ? signalTo("/o", "i.f", "S", 1 + i, {}) : replyTo(kind == 2, 1 + i, 1 + i, {}));
    w.peer->sendCut(r, bytes);
    for (auto& t : ts)
        t.join();
    w.sync();
    w.flush();
    static const char* names[] = { "methodcalls", "methodreturns", "errors", "signals" };
    const std::string s = w.native->getStats();
    for (int k = 0; k < 4; ++k)
        for (const char* dir : { "count_sent_", "count_receive_" }) {
            const std::string name = std::string(dir) + names[k];
            long long want = k == kind ? n : 0;
            if ((name == "count_sent_signals") || name == "count_receive_methodcalls")
                ++want; // the synchronisation
            R.check(statistic(s, name.c_str()) == want, "statistic " + name, "after " + std::to_string(n) + " " + names[kind] + ": " + name + " is " + std::to_string(statistic(s, name.c_str())) + " instead of " + std::to_string(want));
            R.add("comparisons");
        }
    R.eval(mix(n * 4 + kind));
}

PART(C18, traffic)
{
    faultsFor(r);
    World w;
    w.addSync();
    const unsigned threads = r.range(1, 4), early = r.below(2) * r.range(1, 10), each = r.range(1, 20);
    std::vector<std::vector<std::string>> sent(threads);
    std::map<int, unsigned> kinds;
    std::mutex km;
    unsigned queued = 0;
    const bool fds = r.chance(1, 3);
    uint64_t bytesTo = 0;
    std::string trace;
    auto statsOf = [&] { return w.native->getStats(); };
    auto check = [&](const char* when) {
        auto is = [&, when, s = statsOf()](const char* name, long long want, long long orElse = -2) {
            const long long v = statistic(s, name);
            R.check(v == want || v == orElse, std::string("statistic ") + name, std::string(when) + ": " + name + " is " + std::to_string(v) + " instead of " + std::to_string(want) + " (" + trace + ")");
            R.add("comparisons");
        };
        return is;
    };
    auto sendSome = [&](unsigned n, unsigned offset) {
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                for (unsigned i = 0; i < n; ++i) {
                    Outgoing o = outgoing(q, t, offset + i, q.chance(1, 10));
                    o.send(*w.native);
                    std::lock_guard<std::mutex> l(km);
                    ++kinds[o.kind];
                    sent[t].push_back(o.bytes);
                }
            });
        for (auto& t : ts)
            t.join();
    };
    // a message that is refused is not sent
    auto refuse = [&] {
        const std::string big(300, 'y');
        auto fill = [](auto& m) {
            for (int i = 0; i < 300; ++i)
                m.addParameter(DBus::Type::Byte(1));
        };
        try {
            switch (r.below(4)) {
            case 0: {
                M::Signal m(Id("/o", "i.f", "S"));
                fill(m);
                w.native->broadcastSignal(m);
                break;
            }
            case 1: {
                M::Signal m(Id("/o", "i.f", "S"));
                fill(m);
                w.native->sendSignal("d.e", m);
                break;
            }
            case 2: {
                M::MethodReturn m(3);
                fill(m);
                w.native->sendMethodReturn("d.e", m);
                break;
            }
            default: {
                M::MethodCallParametersIn in;
                for (int i = 0; i < 300; ++i)
                    in.add((uint8_t)1);
                w.native->sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "S"), in));
            }
            }
            R.violation("not-refused", "a message with a signature of 300 characters was accepted");
        } catch (const std::exception&) {
            R.add("refused");
        }
    };
    {
        auto is = check("at first");
        for (auto k : { "count_sent_methodcalls", "count_sent_methodreturns", "count_sent_errors", "count_sent_signals", "count_receive_methodcalls", "count_receive_methodreturns",
                 "count_receive_errors", "count_receive_signals", "bytes_auth", "bytes_message", "count_messages_queued", "count_messages_pumped", "bytes_read" })
            is(k, 0);
    }
    sendSome(early, 0);
    queued = early * threads;
    if (r.chance(1, 3))
        refuse();
    {
        auto is = check("before authentication");
        is("count_messages_queued", queued);
        is("count_messages_pumped", 0);
        is("bytes_sent", 0, 1);
    }
    // handshake
    w.native->BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
    std::string lines;
    for (unsigned i = r.below(3); i; --i)
        lines += otherLine(r) + "\r\n";
    const std::string ok = std::string("OK ") + GUID + "\r\n";
    lines += ok;
    if (fds)
        lines += "AGREE_UNIX_FD\r\n";
    std::vector<Msg> in;
    unsigned received[5] = { 0, 0, 0, 0, 0 };
    std::string behind;
    auto add = [&](const Msg& m) {
        behind += encode(m);
        ++received[m.type];
    };
    auto some = [&](unsigned n) {
        for (; n; --n) {
            const uint32_t s = 1 + r.below(1000);
            switch (r.below(4)) {
            case 0:
                add(callTo("/o", "i.f", r.chance(1, 2) ? "Known" : "Unknown", s, someArgs(r)));
                break;
            case 1:
                add(replyTo(false, r.below(50), s, someArgs(r)));
                break;
            case 2:
                add(replyTo(true, r.below(50), s, someArgs(r)));
                break;
            default:
                add(signalTo("/o", "i.f", r.chance(1, 2) ? "Known" : "Unknown", s, someArgs(r)));
            }
        }
    };
    w.native->registerMethodCallHandler("i.f.Known", [&](const M::MethodCall& c) {
        // sent from a handler
        M::MethodReturn m(c.getSerial());
        m.addParameter(DBus::Type::String("T0:999999:"));
        w.native->sendMethodReturn("d.e", m);
        std::lock_guard<std::mutex> l(km);
        ++kinds[2];
    });
    w.native->registerSignalHandler("i.f.Known", [&](const M::Signal& m) {
        if (m.getSerial() & 1)
            vh::throwAnything(m.getSerial() / 2);
    });
    some(r.below(6)); // right behind the handshake
    w.peer->sendCut(r, lines + behind);
    uint64_t bytesMessage = behind.size();
    behind.clear();
    if (!w.peer->wait([&] { return w.peer->begun; }))
        giveUp("no-begin", "no BEGIN");
    // messages sent right after BEGIN may still be queued
    bytesMessage += w.mark().size();
    w.sync();
    ++received[CALL];
    const unsigned rounds = r.range(1, 4);
    for (unsigned k = 0; k < rounds; ++k) {
        some(r.below(40));
        std::thread other([&, s = r.next()] {
            Rng q(s);
            w.peer->sendCut(q, behind);
        });
        sendSome(each, early + k * each);
        if (r.chance(1, 4))
            refuse();
        // the statistics may be read at any time
        if (r.chance(1, 2))
            statsOf();
        other.join();
        bytesMessage += behind.size();
        behind.clear();
        bytesMessage += w.mark().size();
        w.sync();
        ++received[CALL];
        w.flush();
        std::lock_guard<std::mutex> l(km);
        ++kinds[5];
        trace = "round " + std::to_string(k);
        auto is = check("after traffic");
        is("count_sent_methodcalls", kinds[1]);
        is("count_sent_methodreturns", kinds[2]);
        is("count_sent_errors", kinds[3]);
        is("count_sent_signals", kinds[4] + kinds[5]);
        is("count_receive_methodcalls", received[CALL]);
        is("count_receive_methodreturns", received[RETURN]);
        is("count_receive_errors", received[ERROR]);
        is("count_receive_signals", received[SIGNAL]);
        is("count_messages_queued", queued);
        is("count_messages_pumped", queued);
        is("bytes_auth", lines.size());
        is("bytes_message", bytesMessage);
        is("bytes_read", lines.size() + bytesMessage);
        std::lock_guard<std::mutex> pl(w.peer->m);
        // the first octet may or may not count
        is("bytes_sent", w.peer->total - 1, w.peer->total);
    }
    (void)bytesTo;
    countFaults();
    R.eval(mix(received[1] * 1000003 + received[2] * 10007 + received[3] * 101 + received[4]) ^ mix(kinds[1] * 31 + kinds[2] * 37 + kinds[3] * 41 + kinds[4] + queued * 1009));
    R.sample(statsOf().substr(0, 500));
}

//--------------------------------------------------------------------------- C26

PART(C26, order)
{
    faultsFor(r);
    World w;
    const unsigned n = r.range(10, 120);
    std::atomic<int> inside { 0 };
    std::atomic<unsigned> overlaps { 0 };
    std::mutex lm;
    std::vector<uint32_t> log; // serials of the messages in the order of the handlers
    std::atomic<bool> stop { false };
    const unsigned slow = r.chance(1, 2) ? r.range(1, 300) : 0;
    auto handle = [&](const M::Base& m, Rng& q) {
        if (inside.fetch_add(1) != 0)
            ++overlaps;
        if (slow && q.chance(1, 3))
            faults::pause(q.below(slow));
        {
            std::lock_guard<std::mutex> l(lm);
            log.push_back(m.getSerial());
        }
        const bool t = q.chance(1, 12);
        if (q.chance(1, 6))
            w.native->broadcastSignal(M::Signal(Id("/o", "i.f", "FromHandler")));
        inside.fetch_sub(1);
        if (t)
            vh::throwAnything(q.below(7));
    };
    Rng hr(r.next());
    w.native->registerMethodCallHandler("i.f.Call", [&](const M::MethodCall& m) { handle(m, hr); });
    w.native->registerSignalHandler("i.f.Sig", [&](const M::Signal& m) { handle(m, hr); });
    w.addSync();
    w.mustAuthenticate();
    w.native->callAddMatch("interface='i.g'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal& m) { handle(m, hr); });
    std::vector<uint32_t> calls;
    for (unsigned i = 0; i < n; ++i) {
        M::MethodCall c(Id("/o", "i.f", "M"));
        calls.push_back(c.getSerial());
        w.native->sendMethodCall("d.e", c, [&](const M::MethodReturn& m) { handle(m, hr); }, [&](const M::Error& m) { handle(m, hr); });
    }
    r.shuffle(calls);
    std::string bytes;
    std::vector<uint32_t> want;
    size_t answered = 0;
    for (unsigned i = 0; i < n; ++i) {
        const uint32_t s = 1000 + i;
        Msg m;
        switch (r.below(5)) {
        case 0:
            m = callTo("/o", "i.f", "Call", s, someArgs(r));
            break;
        case 1:
            m = signalTo("/o", "i.f", "Sig", s, someArgs(r));
            break;
        case 2:
            m = signalTo("/o", "i.g", "Sig", s, someArgs(r));
            break;
        default:
            m = replyTo(r.chance(1, 2), calls[answered++], s, someArgs(r));
        }
        m.be = r.chance(1, 5);
        want.push_back(s);
        bytes += encode(m);
    }
    // meanwhile
    std::vector<std::thread> ts;
    for (unsigned t = r.below(3); t; --t)
        ts.emplace_back([&, s = r.next()] {
            Rng q(s);
            while (!stop) {
                switch (q.below(4)) {
                case 0:
                    w.native->registerMethodCallHandler("i.h.X" + std::to_string(q.below(5)), [&](const M::MethodCall&) {});
                    break;
                case 1:
                    w.native->unRegisterMethodCallHandler("i.h.X" + std::to_string(q.below(5)));
                    break;
                case 2:
                    w.native->broadcastSignal(M::Signal(Id("/o", "i.f", "Other")));
                    break;
                default:
                    w.native->getStats();
                }
                faults::pause(q.below(100));
            }
        });
    w.peer->sendCut(r, bytes);
    w.sync();
    stop = true;
    for (auto& t : ts)
        t.join();
    R.check(!overlaps, "overlap", std::to_string(overlaps) + " handlers started while another was running");
    std::string d;
    for (size_t i = 0; i < std::max(log.size(), want.size()) && d.empty(); ++i)
        if (i >= log.size() || i >= want.size() || log[i] != want[i])
            d = "at place " + std::to_string(i) + ": " + (i < log.size() ? std::to_string(log[i]) : "nothing") + " instead of " + (i < want.size() ? std::to_string(want[i]) : "nothing");
    R.check(d.empty(), "order", d);
    R.add("handlers_run", log.size());
    countFaults();
    R.eval(hashStr(bytes), n > 1);
}

//--------------------------------------------------------------------------- C14: for the thread sanitizer
static vh::Part C14_calls("C14", "calls", C08_live);
static vh::Part C14_answers("C14", "answers", C08_random);
static vh::Part C14_senders("C14", "senders", C10_threads);
static vh::Part C14_backlog("C14", "backlog", C10_backlog);
static vh::Part C14_sessions("C14", "sessions", C11_sessions);
static vh::Part C14_order("C14", "order", C26_order);
static vh::Part C14_traffic("C14", "traffic", C18_traffic);
static vh::Part C14_stalled("C14", "stalled", C32_stalled);

//--------------------------------------------------------------------------- C34
IN_ANY_LOCALE(calls, C08_random);
IN_ANY_LOCALE(sessions, C11_sessions);
IN_ANY_LOCALE(statistics, C18_traffic);
