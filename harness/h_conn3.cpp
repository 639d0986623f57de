// C27 the memory of a connection, C05 hostile peers: through a socket.
#include "alloc.h"
#include "conn.h"
#include <sys/resource.h>

using namespace conn;
using namespace ref;
namespace M = DBus::Message;

namespace {
double cpu()
{
    rusage u;
    getrusage(RUSAGE_SELF, &u);
    return u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) * 1e-6;
}

// A connection whose memory is measured: the peer's thread is not counted, and it keeps nothing
struct Measured {
    std::unique_ptr<Listener> listener;
    std::unique_ptr<Peer> peer;
    std::unique_ptr<DBus::Native> native;
    Event marks, flushes;
    uint64_t marked = 0, flushed = 0;
    std::atomic<bool> answering { true };
    std::atomic<unsigned> answered { 0 };
    std::atomic<bool> errors { false };
    long atFirst = 0;

    Measured()
    {
        faults::off();
        listener.reset(new Listener);
        alloc::start();
        native.reset(new DBus::Native(listener->name));
        peer.reset(new Peer(listener->accept()));
        peer->keep = false;
        peer->onMessage = [this](const std::string& raw) {
            Msg m = decode(raw);
            const std::string member = m.text(F_MEMBER);
            if (member == "Flush")
                flushes.hit();
            if (m.type == CALL && !(m.flags & 1) && answering) {
                const unsigned k = answered++;
                peer->send(encode(replyTo(errors ? true : member == "Fail", m.serial, 1 + k, { str("an answer") })));
            }
        };
        peer->th = std::thread([this] {
            alloc::ignore = true;
            peer->run();
        });
    }
    void begin()
    {
        native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        if (!peer->wait([&] { return peer->handshake.find("\r\n") != std::string::npos; }))
            giveUp("harness-no-auth", "no request to authenticate");
        peer->send(std::string("OK ") + GUID + "\r\n");
        if (!peer->wait([&] { return peer->begun; }))
            giveUp("no-begin", "no BEGIN");
        native->registerMethodCallHandler("v.Sync.Mark", [this](const M::MethodCall&) { marks.hit(); });
    }
    // Everything sent in either direction has been handled
    void settle()
    {
        const std::string mark = encode(callTo("/v", "v.Sync", "Mark", 7, {}, 1));
        for (int i = 0; i < 2; ++i) {
            peer->send(mark);
            if (!marks.wait(++marked))
                giveUp("lost", "a call sent after all the others was not handled");
            native->broadcastSignal(M::Signal(Id("/v", "v.Flush", "Flush")));
            if (!flushes.wait(++flushed))
                giveUp("lost", "a signal sent after all the others was not received");
        }
    }
    // The memory in use when all is done; not more than this, if that takes a moment
    long use(long limit)
    {
        if (!limit) { // once it does not change
            long last = alloc::live;
            for (int same = 0, i = 0; same < 8 && i < 500; ++i) {
                faults::pause(2000);
                const long l = alloc::live;
                same = l == last ? same + 1 : 0;
                last = l;
            }
            return last;
        }
        long l = alloc::live;
        for (int i = 0; i < 400 && l > limit; ++i) {
            faults::pause(5000);
            l = alloc::live;
        }
        return l;
    }
    ~Measured()
    {
        native.reset();
        peer->join();
        peer.reset();
        alloc::stop();
    }
};

const char* const HISTORIES[] = { "calls answered", "calls answered by errors", "throwing callbacks", "calls without reply", "calls received", "signals received", "throwing handlers",
    "handlers registered and removed", "rules added and removed", "stalled peer", "bad messages received", "framing errors", "stray replies", "refused messages", "refused rules", "large messages",
    "calls of the bus", "received values sent on", "returns and errors sent", "mixture" };
const unsigned NHISTORIES = sizeof HISTORIES / sizeof *HISTORIES;

std::string framingError(Rng& r)
{
    std::string s(16, '\0');
    s[0] = 'l';
    s[1] = 1;
    s[3] = 1;
    s[15] = (char)(r.range(8, 127)); // the size of the fields
    return s;
}

void history(Measured& c, unsigned kind, unsigned n, Rng& r)
{
    DBus::Native& native = *c.native;
    auto ok = [](const M::MethodReturn&) {};
    auto no = [](const M::Error&) {};
    auto batch = [&](auto make) {
        std::string b;
        for (unsigned i = 0; i < n; ++i) {
            b += make(i);
            if (b.size() > 4000) {
                c.peer->send(b);
                b.clear();
            }
        }
        c.peer->send(b);
    };
    switch (kind) {
    case 0:
        for (unsigned i = 0; i < n; ++i)
            native.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "M")), ok, no);
        break;
    case 1:
        for (unsigned i = 0; i < n; ++i)
            native.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "Fail")), ok, no);
        break;
    case 2:
        for (unsigned i = 0; i < n; ++i)
            native.sendMethodCall(
                "d.e", M::MethodCall(Id("/o", "i.f", i % 2 ? "M" : "Fail")), [i](const M::MethodReturn&) { vh::throwAnything(i); },
                [i](const M::Error&) { vh::throwAnything(i); });
        break;
    case 3:
        for (unsigned i = 0; i < n; ++i)
            native.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "M"), M::MethodCallParametersIn(), 1), ok, no);
        break;
    case 4:
        batch([&](unsigned i) { return encode(callTo("/o", "i.f", i % 3 ? "Known" : "Unknown" + std::to_string(i), 1 + i, { str("text"), num('u', i) })); });
        break;
    case 5:
        batch([&](unsigned i) { return encode(signalTo("/o", i % 2 ? "i.f" : "i.g", "S" + std::to_string(i % 5), 1 + i, { str("text") })); });
        break;
    case 6:
        batch([&](unsigned i) { return encode(i % 2 ? callTo("/o", "i.f", "Throws", 1 + i) : signalTo("/o", "i.f", "Throws", 1 + i)); });
        break;
    case 7:
        for (unsigned i = 0; i < n; ++i) {
            const std::string name = "a.b.N" + std::to_string(r.next());
            native.registerMethodCallHandler(name, [](const M::MethodCall&) {});
            native.registerSignalHandler(name, [](const M::Signal&) {});
            native.unRegisterMethodCallHandler(name);
            native.unRegisterSignalHandler(name);
        }
        break;
    case 8:
        for (unsigned i = 0; i < n; ++i) {
            const std::string rule = "interface='a.b" + std::to_string(r.next()) + "'";
            native.callAddMatch(rule, ok, no, [](const M::Signal&) {});
            native.callRemoveMatch(rule);
        }
        break;
    case 9:
        c.peer->paused = true;
        for (unsigned i = 0; i < n; ++i) {
            M::Signal s(Id("/o", "i.f", "S"));
            s.addParameter(DBus::Type::String(std::string(i % 20 == 7 ? 100000 : 3000, 'x')));
            native.broadcastSignal(s);
        }
        c.peer->paused = false;
        break;
    case 10:
        batch([&](unsigned i) {
            const std::string sig = i % 2 ? "as" : "a{sv}", body(r.range(1, 9), '\x11');
            return encode(callTo("/o", "i.f", "Known", 1 + i), &sig, &body);
        });
        break;
    case 11:
        for (unsigned i = 0; i < n; ++i) {
            // ends with its read
            std::string bad = framingError(r);
            c.peer->send(bad);
            faults::pause(300);
        }
        break;
    case 12:
        batch([&](unsigned i) { return encode(replyTo(i % 2, r.chance(1, 2) ? (uint32_t)r.next() : i, 1 + i, { str("nobody asked") })); });
        break;
    case 13:
        for (unsigned i = 0; i < n; ++i) {
            M::MethodCallParametersIn in;
            for (int k = 0; k < 260; ++k)
                in.add((uint8_t)k);
            M::MethodCall m(Id("/o", "i.f", "M"), in);
            try {
                native.sendMethodCall("d.e", m, ok, no);
            } catch (const std::exception&) {
            }
        }
        break;
    case 14:
        for (unsigned i = 0; i < n; ++i)
            try {
                native.callAddMatch("interface='a.b" + std::to_string(i), ok, no, [](const M::Signal&) {});
            } catch (const std::exception&) {
            }
        break;
    case 15:
        c.peer->send(encode(callTo("/o", "i.f", "Known", 5, { str(std::string(r.range(500000, 4000000), 'x')) })));
        for (unsigned i = 0; i < n; ++i)
            c.peer->send(encode(callTo("/o", "i.f", "Known", 5, { str("x") })));
        break;
    case 16:
        for (unsigned i = 0; i < n; ++i) {
            native.callNameHasOwner("a.b", ok, no);
            native.callListNames(ok, no);
        }
        break;
    case 17:
        batch([&](unsigned i) {
            Rng q(i);
            Gen g(q);
            g.budget = 12;
            g.bytes = 200;
            return encode(callTo("/o", "i.f", "Echo", 1 + i, g.args(4)));
        });
        break;
    case 18:
        for (unsigned i = 0; i < n; ++i) {
            M::MethodReturn ret(i + 1);
            ret.addParameter(DBus::Type::String("text"));
            native.sendMethodReturn("d.e", ret);
            native.sendError("d.e", M::Error(i + 1, "e.f", "text"));
        }
        break;
    }
}
}

// The longer the history the more memory? After any of it, what is in use is what was before
PART(C27, history)
{
    const unsigned kind = index % NHISTORIES;
    const bool mixed = kind == NHISTORIES - 1;
    Measured c;
    c.begin();
    DBus::Native& native = *c.native;
    native.registerMethodCallHandler("i.f.Known", [&](const M::MethodCall& m) { native.sendMethodReturn(m.getHeaderSender(), M::MethodReturn(m.getSerial())); });
    native.registerMethodCallHandler("i.f.Echo", [&](const M::MethodCall& m) {
        M::MethodReturn ret(m.getSerial());
        for (size_t i = 0; i < m.getParameterCount(); ++i)
            ret.addParameter(m.getParameter(i));
        native.sendMethodReturn(m.getHeaderSender(), ret);
    });
    native.registerMethodCallHandler("i.f.Throws", [&](const M::MethodCall& c) { vh::throwAnything(c.getSerial()); });
    native.registerSignalHandler("i.f.S1", [&](const M::Signal&) {});
    native.registerSignalHandler("i.f.Throws", [&](const M::Signal& s) { vh::throwAnything(s.getSerial()); });
    native.callAddMatch("interface='i.g'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [](const M::Signal&) {});
    c.settle();
    auto one = [&](unsigned n) {
        if (!mixed) {
            history(c, kind, n, r);
            if (kind != 11)
                c.settle();
        } else
            for (unsigned i = 0; i < 6; ++i) {
                unsigned k;
                do
                    k = r.below(NHISTORIES - 1);
                while (k == 11 || k == 9 || k == 15);
                history(c, k, n / 6 + 1, r);
                if (r.chance(1, 2))
                    c.settle();
            }
        if (kind != 11)
            c.settle();
    };
    const long fresh = c.use(0);
    one(r.range(20, 60));
    const long before = c.use(fresh + 4096);
    const unsigned n = kind == 15 ? r.range(1, 5) : kind == 11 ? 40 : kind == 9 ? r.range(100, 400) : r.range(400, 1500);
    one(n);
    const long allowed = std::max(fresh, before) + 16384 + (kind == 11 ? 4096 : 0);
    const long after = c.use(allowed);
    const std::string what = HISTORIES[kind];
    R.check(after <= allowed, "grows", what + ": from " + std::to_string(before) + " to " + std::to_string(after) + " bytes in use after " + std::to_string(n) + " more");
    // nothing is kept of the first ones either, but for buffers
    const long kept = fresh + 16384 + 65536 + (kind == 11 ? 4096 : 0);
    R.check(before <= kept && after <= kept, "keeps", what + ": " + std::to_string(fresh) + " bytes in use at first, then " + std::to_string(before) + ", then " + std::to_string(after));
    R.add("operations", n);
    R.add("history: " + what);
    R.maxOf("bytes_more: " + what, after > fresh ? after - fresh : 0);
    R.eval(hashStr(what + std::to_string(n)));
    R.sample(what + ": " + std::to_string(fresh) + " bytes in use, after some " + std::to_string(before) + ", after " + std::to_string(n) + " more " + std::to_string(after));
}

// What was queued before the authentication, or can not be sent, is not kept
PART(C27, queue)
{
    Measured c;
    const unsigned n = r.range(10, 6000), size = r.below(300);
    DBus::Native& native = *c.native;
    const long fresh = c.use(0);
    uint64_t bytes = 0;
    auto fill = [&](unsigned k) {
        for (unsigned i = 0; i < k; ++i) {
            M::Signal s(Id("/o", "i.f", "S"));
            s.addParameter(DBus::Type::String(std::string(size, 'x')));
            native.broadcastSignal(s);
            bytes += size + 150;
        }
    };
    switch (index % 3) {
    case 0: { // queued, then sent
        fill(n);
        const long queued = alloc::live;
        R.check(queued <= fresh + 65536 + 4 * (long)bytes, "queued", std::to_string(queued) + " bytes in use for " + std::to_string(n) + " queued messages");
        c.begin();
        c.settle();
        const long allowed = fresh + 32768, after = c.use(allowed);
        R.check(after <= allowed, "queue-kept", "after " + std::to_string(n) + " queued messages were sent, " + std::to_string(after) + " bytes are in use, " + std::to_string(fresh) + " at first");
        R.maxOf("bytes_more_after_queue", after > fresh ? after - fresh : 0);
        break;
    }
    case 1: { // a peer that does not understand
        c.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        awaitAuthBytes(*c.native, 0);
        std::string s;
        for (unsigned i = 0; i < n; ++i) {
            static const char* const lines[] = { "REJECTED EXTERNAL\r\n", "ERROR\r\n", "UNKNOWN thing\r\n", "DATA 00\r\n", "\r\n", "AGREE_UNIX_FD\r\n" };
            s += lines[r.below(6)];
        }
        c.peer->send(s);
        awaitAuthBytes(*c.native, s.size());
        const long allowed = fresh + 32768 + (long)s.capacity(), after = c.use(allowed);
        R.check(after <= allowed, "lines-kept", "after " + std::to_string(n) + " lines of the handshake, " + std::to_string(after) + " bytes are in use, " + std::to_string(fresh) + " at first");
        break;
    }
    default: { // nobody there any more
        c.begin();
        c.settle();
        c.peer->closeNow();
        fill(20);
        faults::pause(2000);
        const long before = c.use(fresh + 32768);
        fill(n);
        const long allowed = before + 32768, after = c.use(allowed);
        R.check(after <= allowed, "dead-kept", "after " + std::to_string(n) + " messages that can not be sent, " + std::to_string(after) + " bytes are in use, " + std::to_string(before) + " before");
    }
    }
    R.add("messages", n);
    R.eval(mix(index * 10007 + n));
    R.sample("kind " + std::to_string(index % 3) + ", " + std::to_string(n) + " messages of " + std::to_string(size));
}

//--------------------------------------------------------------------------- C05

namespace {
void mutate(std::string& b, Rng& r, unsigned n)
{
    while (n-- && !b.empty()) {
        const size_t at = r.below(b.size());
        switch (r.below(6)) {
        case 0:
            b[at] = (char)r.next();
            break;
        case 1:
            b.erase(at, 1 + r.below(8));
            break;
        case 2:
            b.insert(at, 1 + r.below(40), (char)r.next());
            break;
        case 3: {
            const size_t o = at & ~(size_t)3;
            static const uint32_t v[] = { 0, 1, 7, 255, 256, 0x10000, 0x4000000, 0x4000001, 0x8000000, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff };
            const uint32_t x = r.chance(1, 2) ? v[r.below(13)] : (uint32_t)r.below(300);
            for (size_t i = 0; i < 4 && o + i < b.size(); ++i)
                b[o + i] = (char)(x >> (8 * i));
            break;
        }
        case 4:
            b[at] = "ybnqiuxtdsogha(){}vrem"[r.below(22)];
            break;
        default:
            b[at] ^= 1 << r.below(8);
        }
    }
}
std::string hostileLine(Rng& r)
{
    static const std::vector<std::string> words = { "OK", "OK ", "ERROR", "REJECTED", "REJECTED ", "AGREE_UNIX_FD", "DATA", "DATA ", "AUTH", "NEGOTIATE_UNIX_FD", "CANCEL", "BEGIN", "", "O", "ok" };
    static const std::vector<std::string> ends = { "\r\n", "\r\n", "\r\n", "\n", "\r", "\n\r", "\r\r\n", "\r\n\r\n", "" };
    std::string s = r.pick(words);
    if (s.substr(0, 2) == "OK" && r.chance(1, 2))
        s = "OX";
    if (r.chance(1, 2)) {
        const size_t n = r.chance(1, 20) ? r.below(20000) : r.below(40);
        const unsigned mode = r.below(4);
        for (size_t i = 0; i < n; ++i)
            s += mode == 0 ? (char)r.next() : mode == 1 ? "0123456789abcdefABCDEF"[r.below(22)] : mode == 2 ? '%' : "nsdx%\0 g"[r.below(8)];
    }
    if (r.chance(1, 5))
        mutate(s, r, 2);
    return s + r.pick(ends);
}
}

// Whatever comes before and after the authentication, the process lives, the memory is bounded, messages can
// still be sent while the connection stands, and it can be destroyed
PART(C05, sessions)
{
    faultsFor(r);
    std::string seen;
    uint64_t handled = 0, h = 0;
    {
        World w;
        DBus::Native& n = *w.native;
        std::atomic<uint64_t> runs { 0 };
        auto look = [&](const M::Base& m) {
            ++runs;
            bridge::Seen s;
            s.base(m);
        };
        n.registerMethodCallHandler("i.f.M", [&](const M::MethodCall& m) {
            look(m);
            M::MethodReturn ret(m.getSerial());
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                ret.addParameter(m.getParameter(i));
            n.sendMethodReturn(m.getHeaderSender(), ret);
        });
        n.registerSignalHandler("i.f.S", [&](const M::Signal& m) { look(m); });
        auto ask = [&] {
            for (unsigned i = r.below(4); i; --i)
                n.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "M")), [&](const M::MethodReturn& m) { look(m); }, [&](const M::Error& m) { look(m); });
        };
        std::string before;
        for (unsigned i = r.chance(1, 2) ? 0 : r.below(12); i; --i)
            before += hostileLine(r);
        const bool asked = r.chance(2, 3);
        ask();
        if (asked)
            n.BeginAuth(r.chance(1, 3) ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        w.peer->sendCut(r, before);
        h = hashStr(before);
        seen = vh::hex(before, 120);
        if (r.chance(3, 4)) {
            // on to the messages
            if (!asked)
                n.BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            w.peer->send(std::string("\r\nOK ") + GUID + "\r\nAGREE_UNIX_FD\r\nERROR\r\n");
            if (r.chance(1, 2))
                w.peer->wait([&] { return w.peer->begun; }, 1);
            Gen g(r);
            g.bytes = 1500;
            std::string s;
            for (unsigned i = r.range(1, 10); i; --i) {
                g.budget = 30;
                Msg m = r.chance(1, 2) ? g.message() : r.chance(1, 2) ? callTo("/o", "i.f", "M", 3, g.args(3)) : signalTo("/o", "i.f", "S", 3, g.args(3));
                if (r.chance(1, 4)) {
                    m.type = (uint8_t)r.range(2, 3);
                    m.set(F_REPLY_SERIAL, num('u', r.below(1000)));
                    m.set(F_ERROR_NAME, str("e.f"));
                }
                std::string b;
                try {
                    b = encode(m);
                } catch (const Bad&) {
                    continue;
                }
                if (r.chance(2, 3))
                    mutate(b, r, r.range(1, 4));
                s += b;
                if (r.chance(1, 3)) {
                    w.peer->sendCut(r, s);
                    h = hashStr(s, h);
                    s.clear();
                    faults::pause(r.below(500));
                }
            }
            w.peer->sendCut(r, s);
            h = hashStr(s, h);
        }
        if (r.chance(1, 2))
            faults::pause(r.below(3000));
        ask();
        n.getStats();
        w.native.reset();
        handled = runs;
    }
    R.add("handlers_run", handled);
    countFaults();
    R.eval(h);
    R.sample(seen);
}

// A handshake that does not end costs time and memory in proportion to its bytes, and no more
PART(C05, handshake)
{
    faults::off();
    const size_t size = r.range(100000, R.thorough ? 4000000 : 1200000);
    static const char* const kinds[] = { "line ends", "one endless line", "short lines", "carriage returns", "unknown words", "data", "almost a line", "hex" };
    const unsigned kind = index % 8;
    std::string s;
    s.reserve(size + 100);
    const std::string unit = kind == 0 ? "\n" : kind == 1 ? "x" : kind == 2 ? "\r\n" : kind == 3 ? "\r" : kind == 4 ? "WHAT\r\n" : kind == 5 ? "DATA 0011\r\n" : kind == 6 ? "OK\n\r" : "REJECTED 31\r\n";
    while (s.size() < size)
        s += unit;
    double spent;
    long peak, held;
    {
        Measured c;
        if (r.chance(1, 2))
            c.native->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        const double t0 = cpu();
        const size_t step = r.range(500, 70000);
        for (size_t o = 0; o < s.size(); o += step) {
            std::lock_guard<std::mutex> l(c.peer->sendMx);
            if (!c.peer->sendRaw(s.data() + o, std::min(step, s.size() - o)))
                break;
            ++R.beat;
        }
        for (int i = 0; i < 100000 && statistic(c.native->getStats(), "bytes_read") < (long long)s.size(); ++i)
            faults::pause(1000);
        R.check(statistic(c.native->getStats(), "bytes_read") == (long long)s.size(), "stuck", std::string(kinds[kind]) + ": " + std::to_string(s.size()) + " bytes of a handshake were sent, " + c.native->getStats());
        spent = cpu() - t0;
        peak = alloc::peak;
        held = c.use(262144);
    }
    const std::string what = std::string(kinds[kind]) + ", " + std::to_string(s.size()) + " bytes";
    R.check(peak <= 262144 + 16 * (long)s.size(), "memory", what + ": at most " + std::to_string(peak) + " bytes in use");
    R.check(held <= 262144 + 4 * (long)s.size(), "memory-held", what + ": " + std::to_string(held) + " bytes in use afterwards");
    // measured: at most 3 s per MB, on a loaded machine; what is quadratic takes minutes
    R.check(spent < 10 + 25 * s.size() / 1e6, "time", what + ": took " + std::to_string(spent) + " s of processor time");
    R.maxOf(std::string("ms_per_MB: ") + kinds[kind], (uint64_t)(spent * 1000 / (s.size() / 1e6)));
    R.eval(mix(kind * 1000003 + size));
    R.sample(what);
}
