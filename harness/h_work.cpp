// C33: how the processor time grows with the size of what is handled, and with what happened before.
#include "capture.h"
#include "conn.h"
#include "dbus_introspectable.h"
#include "dbus_matchrule.h"
#include "dbus_utils.h"
#include <ctime>

using namespace conn;
using namespace ref;
namespace M = DBus::Message;
namespace T = DBus::Type;

namespace {
double clockOf(clockid_t c)
{
    timespec t;
    clock_gettime(c, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
struct Timer {
    clockid_t c;
    double t0;
    explicit Timer(bool wholeProcess = false)
        : c(wholeProcess ? CLOCK_PROCESS_CPUTIME_ID : CLOCK_THREAD_CPUTIME_ID)
        , t0(clockOf(c))
    {
    }
    double operator()() const { return clockOf(c) - t0; }
};
// Does it, for a size, and says how long the library took
typedef std::function<double(size_t)> Work;

const unsigned TIMES = 16;

void judge(const std::string& what, size_t n, size_t max, double enough, const Work& measured, uint64_t variant)
{
    const Work work = [&](size_t size) {
        ++R.beat;
        return measured(size);
    };
    double small = work(n);
    while (small < enough && n * 2 * TIMES <= max)
        small = work(n *= 2);
    double big = 0;
    char b[200];
    // first at a smaller size, so that what is far too slow is not measured for minutes
    for (unsigned times : { 4u, TIMES }) {
        big = work(n * times);
        auto bad = [&](double beyond = 1) { return big > beyond * ((times == TIMES ? 4 : 3) * times * small + 0.3); };
        // an accident of this machine does not happen each time
        for (unsigned i = bad(4) ? 3 : 0; i < 4 && bad(); ++i) {
            small = std::max(small, work(n));
            big = std::min(big, work(n * times));
        }
        snprintf(b, sizeof b, "%zu took %.1f ms, %zu took %.1f ms", n, small * 1e3, n * times, big * 1e3);
        if (!R.check(!bad(), "grows", what + ": " + b))
            break;
    }
    R.add(what.substr(0, what.find(':')));
    R.eval(hashStr(what, variant), big > enough);
    R.maxOf("growth in percent of proportional, where 20 ms or more", big > 0.02 && small > 0.002 ? (uint64_t)(100 * big / (TIMES * small)) : 0);
    R.sample(what + ": " + b, 40);
}

// The elements of an array that takes no more than some bytes for each
const char* const ELEMENTS[] = { "y", "b", "n", "u", "t", "d", "s", "o", "g", "v", "(us)", "(y(ys))", "{sv}", "{us}", "(yyyy)", "as", "a{sv}", "aau", "(sv)" };
Val element(const std::string& sig, size_t i)
{
    switch (sig[0]) {
    case 's':
        return str("s" + std::to_string(i % 1000));
    case 'o':
        return str("/o/p" + std::to_string(i % 1000), 'o');
    case 'g':
        return str("u", 'g');
    case 'v':
        return variant(i % 2 ? num('u', i) : str("text"));
    case 'a':
        return array(sig.substr(1), { element(sig.substr(1), i), element(sig.substr(1), i + 1) });
    case '(':
    case '{': {
        Val v;
        v.t = sig[0];
        for (auto& s : splitSig(sig.substr(1, sig.size() - 2)))
            v.k.push_back(element(s, i));
        return v;
    }
    case 'b':
        return num('b', i & 1);
    case 'y':
        return num('y', i & 255);
    case 'n':
        return num('n', i & 0x7fff);
    default:
        return num(sig[0], i);
    }
}
Val elements(const std::string& sig, size_t n)
{
    Val a = array(sig);
    a.k.reserve(n);
    for (size_t i = 0; i < n; ++i)
        a.k.push_back(element(sig, i));
    return a;
}
std::string textOf(size_t n)
{
    std::string s;
    s.reserve(n);
    for (size_t i = 0; i < n; ++i)
        s += (char)('a' + i * 7 % 26);
    return s;
}
double fed(const std::string& bytes, size_t piece, size_t* delivered = nullptr)
{
    DBus::MessageProtocol p;
    size_t got = 0;
    p.setMethodCallHandler([&](const M::MethodCall&) { ++got; });
    p.setSignalHandler([&](const M::Signal&) { ++got; });
    std::vector<uint8_t> b(bytes.begin(), bytes.end());
    Timer t;
    for (size_t i = 0; i < b.size(); i += piece) {
        DBus::OctetBuffer ob(b.data() + i, std::min(piece, b.size() - i));
        p.onReceiveData(ob);
    }
    const double s = t();
    if (delivered)
        *delivered = got;
    return s;
}
// A message received, kept
std::unique_ptr<M::Signal> received(const Val& v)
{
    std::unique_ptr<M::Signal> m;
    DBus::MessageProtocol p;
    p.setSignalHandler([&](const M::Signal& s) { m.reset(new M::Signal(s)); });
    std::string bytes = encode(signalTo("/o", "i.f", "S", 1, { v }));
    DBus::OctetBuffer ob((uint8_t*)&bytes[0], bytes.size());
    p.onReceiveData(ob);
    if (!m) {
        R.violation("not-delivered", "an array of " + std::to_string(v.k.size()));
        m.reset(new M::Signal(Id("/o", "i.f", "S")));
    }
    return m;
}
const size_t PIECES[] = { 1, 7, 16, 64, 333, 1024, 4096, 65536, ~(size_t)0 };
}

PART(C33, values)
{
    const double enough = 0.015;
    const size_t piece = PIECES[r.below(9)];
    const std::string sig = ELEMENTS[r.below(sizeof ELEMENTS / sizeof *ELEMENTS)];
    const std::string in = piece == ~(size_t)0 ? "in one read" : "in reads of " + std::to_string(piece);
    switch (index % 19) {
    case 0:
        return judge("body received: bytes, " + in, 5000, 50000000, enough, [&](size_t n) {
            size_t d;
            const double s = fed(encode(signalTo("/o", "i.f", "S", 1, { str(textOf(n)) })), piece, &d);
            R.check(d == 1, "not-delivered", "a message of " + std::to_string(n));
            return s; }, piece);
    case 1:
        return judge("header received: bytes, " + in, 5000, 30000000, enough, [&](size_t n) {
            size_t d;
            const double s = fed(encode(signalTo("/" + textOf(n), "i.f", "S", 1)), piece, &d);
            R.check(d == 1, "not-delivered", "a message with a path of " + std::to_string(n));
            return s; }, piece);
    case 2: {
        const size_t body = r.below(200);
        return judge("messages received: messages, " + in, 100, 400000, enough, [&](size_t n) {
            std::string s;
            for (size_t i = 0; i < n; ++i)
                s += encode(signalTo("/o", "i.f", "S", 1 + i, { str(textOf(body)) }));
            size_t d;
            const double t = fed(s, piece, &d);
            R.check(d == n, "not-delivered", std::to_string(d) + " of " + std::to_string(n));
            return t; }, mix(piece) + body);
    }
    case 3:
        return judge("array received: elements " + sig + " " + in, 500, 500000, enough, [&](size_t n) {
            size_t d;
            const double s = fed(encode(signalTo("/o", "i.f", "S", 1, { elements(sig, n) })), piece, &d);
            R.check(d == 1, "not-delivered", "an array of " + std::to_string(n));
            return s; }, piece);
    case 4: // and looked at
        return judge("array read: elements " + sig, 500, 500000, enough, [&](size_t n) {
            auto m = received(elements(sig, n));
            Timer t;
            const T::Array& a = T::refArray(m->getParameter(0));
            size_t k = 0;
            for (auto& x : a.getContents())
                k += T::asString(x).size();
            (void)k;
            return t(); }, 0);
    case 5:
        return judge("array shown: elements " + sig, 500, 400000, enough, [&](size_t n) {
            auto m = received(elements(sig, n));
            Timer t;
            std::string s = T::toString(m->getParameter(0), "");
            return t(); }, 0);
    case 6:
        return judge("array sent on: elements " + sig, 500, 500000, enough, [&](size_t n) {
            auto m = received(elements(sig, n));
            M::Signal out(Id("/o", "i.f", "S"));
            Timer t;
            out.addParameter(m->getParameter(0));
            std::string s = out.marshall("d.e");
            return t(); }, 0);
    case 7: {
        static const char* const B[] = { "y", "u", "d", "s", "o", "v", "(us)", "{sv}", "(yyyy)" };
        const std::string e = B[r.below(9)];
        return judge("array built: elements " + e, 500, 500000, enough, [&](size_t n) {
            const Val v = elements(e, n);
            Timer t;
            M::Signal out(Id("/o", "i.f", "S"));
            out.addParameter(bridge::toLib(v));
            std::string s = out.marshall("d.e");
            return t(); }, 0);
    }
    case 8:
        return judge("message copied: elements " + sig, 500, 500000, enough, [&](size_t n) {
            auto m = received(elements(sig, n));
            Timer t;
            M::Signal copy(*m);
            M::Signal again(copy);
            return t(); }, 0);
    case 9:
        return judge("to hexadecimal: bytes", 5000, 30000000, enough, [&](size_t n) {
            const std::string s = textOf(n);
            std::string out;
            Timer t;
            DBus::Utils::ConvertBinaryToHexString(out, s);
            return t(); }, 0);
    case 10:
        return judge("from hexadecimal: bytes", 2000, 8000000, enough, [&](size_t n) {
            std::string s, out;
            for (size_t i = 0; i < n; ++i)
                s += "0123456789abcdef"[i * 7 % 16], s += "0123456789ABCDEF"[i * 5 % 16];
            Timer t;
            DBus::Utils::ConvertHexStringToBinary(out, s);
            return t(); }, 0);
    case 11: {
        const unsigned what = r.below(4);
        return judge("introspection: " + std::to_string(what), 50, 100000, enough, [&](size_t n) {
            namespace I = DBus::Introspectable;
            Timer t;
            I::Introspection all;
            I::Interface one("i.f");
            for (size_t i = 0; i < n; ++i) {
                const std::string name = "N" + std::to_string(i);
                if (what == 0)
                    one.addMethod(I::Method(name, "sa{sv}u", "as(uu)"));
                else if (what == 1)
                    one.addSignal(I::Signal(name, "sa{sv}u"));
                else if (what == 2)
                    one.addProperty(I::Property(name, "a{sv}", I::Property::PROPERTY_READ));
                else {
                    I::Interface more("i." + name);
                    more.addMethod(I::Method("M", "s", "u"));
                    all.addInterface(more);
                }
            }
            all.addInterface(one);
            std::string s = all.serialize();
            return t(); }, what);
    }
    case 12: {
        const unsigned what = r.below(4);
        return judge("match rule: " + std::to_string(what), 2000, 8000000, enough, [&](size_t n) {
            std::string s;
            if (what == 0)
                s = "type='signal',member='" + textOf(n) + "',path='/o'";
            else if (what == 1)
                for (size_t i = 0; s.size() < n; ++i)
                    s += (i ? ",arg" : "arg") + std::to_string(i % 64) + "='v" + std::to_string(i) + "'";
            else if (what == 2) {
                s = "member='";
                while (s.size() < n)
                    s += "'\\''a'";
                s += "'";
            } else
                s = "member=M" + std::string(n, ' ');
            Timer t;
            try {
                DBus::MatchRule m(s, [](const M::Signal&) {});
            } catch (const std::exception&) {
            }
            return t(); }, what);
    }
    case 13: // each is refused, or its handler fails
        return judge("bad messages received: messages, " + in, 100, 200000, enough, [&](size_t n) {
            std::string s;
            const std::string bad = encode(signalTo("/o", "i.f", "S", 1, { str("xxxx") }), nullptr, nullptr);
            const std::string body("\xff\xff\xff\x7f" "abc\0", 8), sg = "s";
            for (size_t i = 0; i < n; ++i)
                s += encode(signalTo("/o", "i.f", "S", 1 + i, {}), &sg, &body);
            return fed(s, piece); }, piece);
    case 14:
        return judge("string sent: bytes", 5000, 60000000, enough, [&](size_t n) {
            M::Signal out(Id("/o", "i.f", "S"));
            const std::string text = textOf(n);
            Timer t;
            out.addParameter(T::String(text));
            std::string s = out.marshall("d.e");
            return t(); }, 0);
    case 15: { // the same message again and again
        const unsigned what = r.below(3);
        return judge("message marshalled again: " + std::to_string(what), 500, 2000000, enough, [&](size_t n) {
            M::Signal out(Id("/o", "i.f", "S"));
            out.addParameter(bridge::toLib(elements(what ? "v" : "u", 5)));
            auto got = received(elements("s", 5));
            Timer t;
            size_t k = 0;
            for (size_t i = 0; i < n; ++i)
                k += what == 2 ? T::toString(got->getParameter(0), "").size() : out.marshall("d.e").size();
            (void)k;
            return t(); }, what);
    }
    case 16: {
        const unsigned what = r.below(3);
        return judge("messages made: " + std::to_string(what), 500, 1000000, enough, [&](size_t n) {
            Timer t;
            for (size_t i = 0; i < n; ++i)
                switch (what) {
                case 0: {
                    M::MethodCallParametersIn in;
                    in.add(std::string("x"));
                    M::MethodCall m(Id("/o", "i.f", "M"), in, 0);
                    break;
                }
                case 1: {
                    M::MethodReturn m(1 + i);
                    m.marshall("d.e");
                    break;
                }
                default:
                    M::Error(1 + i, "e.f", "text").marshall("");
                }
            return t(); }, what);
    }
    case 17:
        return judge("bytes logged: " + std::to_string(piece & 0xffff), 500, 200000, enough, [&](size_t n) {
            const std::string s = textOf(n), prefix = r.chance(1, 2) ? "" : "prefix";
            Capture c;
            DBus::Log::setLevel(0);
            Timer t;
            DBus::Log::writeHex(DBus::Log::ERROR, prefix, s);
            const double s2 = t();
            DBus::Log::setLevel(100);
            return s2; }, 0);
    default: // nested as deeply as is allowed, many times
        return judge("nested array read, shown and sent on: elements", 2, 10000, enough, [&](size_t n) {
            std::string s = "u";
            for (unsigned i = 0; i < 14; ++i)
                s = i % 2 ? "a" + s : "(" + s + ")";
            auto m = received(elements(s, n));
            M::Signal out(Id("/o", "i.f", "S"));
            Timer t;
            std::string x = T::toString(m->getParameter(0), "");
            out.addParameter(m->getParameter(0));
            std::string y = out.marshall("d.e");
            return t(); }, 0);
    }
}

//--------------------------------------------------------------------------- on a connection

namespace {
// Waits until the peer has this many messages, without looking at them
void await(World& w, uint64_t n)
{
    if (!w.peer->wait([&] { return w.peer->count >= n || !w.peer->broken.empty() || w.peer->eof; }) || w.peer->count < n)
        giveUp("lost", std::to_string(w.peer->count) + " of " + std::to_string(n) + " messages were received; " + w.peer->broken);
}
void send(World& w, std::string& s, bool force = false)
{
    if (s.size() > 60000 || force) {
        if (!w.peer->send(s))
            giveUp("closed", "the connection was closed");
        s.clear();
    }
}
}

PART(C33, connection)
{
    faults::off();
    const double enough = 0.1;
    const unsigned order = r.below(3);
    const std::string how = order == 0 ? "in order" : order == 1 ? "last first" : "shuffled";
    auto orderOf = [order, s = r.next()](size_t n) {
        std::vector<size_t> v(n);
        for (size_t i = 0; i < n; ++i)
            v[i] = order == 1 ? n - 1 - i : i;
        if (order == 2) {
            Rng q(s);
            q.shuffle(v);
        }
        return v;
    };
    switch (index % 12) {
    case 0: // calls that wait for answers
        return judge("calls answered: " + how, 1000, 64000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            w.mustAuthenticate();
            Event done;
            std::vector<uint32_t> serials;
            Timer t(true);
            for (size_t i = 0; i < n; ++i) {
                M::MethodCall m(Id("/o", "i.f", "M"));
                serials.push_back(m.getSerial());
                w.native->sendMethodCall("d.e", m, [&](const M::MethodReturn&) { done.hit(); }, [&](const M::Error&) { done.hit(); });
            }
            await(w, n);
            std::string s;
            for (size_t i : orderOf(n)) {
                s += encode(replyTo(i % 3 == 0, serials[i], 1 + i));
                send(w, s);
            }
            send(w, s, true);
            if (!done.wait(n))
                giveUp("lost", "answers were not handled");
            return t(); }, order);
    case 1: // answers that nobody waits for, and calls that are never answered
        return judge("calls never answered: " + how, 1000, 64000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            w.mustAuthenticate();
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                w.native->sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "M")), [&](const M::MethodReturn&) {}, [&](const M::Error&) {});
            await(w, n);
            std::string s;
            for (size_t i = 0; i < n; ++i) {
                s += encode(replyTo(i % 3 == 0, 0xf0000000u + i, 1 + i));
                send(w, s);
            }
            send(w, s, true);
            w.sync();
            return t(); }, order);
    case 2: // many handlers
        return judge("handlers of calls: " + how, 1000, 64000, enough, [&](size_t n) {
            World w;
            w.mustAuthenticate();
            Event done;
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                w.native->registerMethodCallHandler("i.f.N" + std::to_string(i), [&](const M::MethodCall&) { done.hit(); });
            std::string s;
            for (size_t i : orderOf(n)) {
                s += encode(callTo("/o", "i.f", "N" + std::to_string(i), 1 + i, {}, 1));
                send(w, s);
            }
            send(w, s, true);
            if (!done.wait(n))
                giveUp("lost", "calls were not handled");
            for (size_t i : orderOf(n))
                w.native->unRegisterMethodCallHandler("i.f.N" + std::to_string(i));
            return t(); }, order);
    case 3:
        return judge("handlers of signals: " + how, 1000, 64000, enough, [&](size_t n) {
            World w;
            w.mustAuthenticate();
            Event done;
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                w.native->registerSignalHandler("i.f.N" + std::to_string(i), [&](const M::Signal&) { done.hit(); });
            std::string s;
            for (size_t i : orderOf(n)) {
                s += encode(signalTo("/o", "i.f", "N" + std::to_string(i), 1 + i));
                send(w, s);
            }
            send(w, s, true);
            if (!done.wait(n))
                giveUp("lost", "signals were not handled");
            for (size_t i : orderOf(n))
                w.native->unRegisterSignalHandler("i.f.N" + std::to_string(i));
            return t(); }, order);
    case 4: // before the authentication
        return judge("messages queued before the authentication: messages", 1000, 96000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                w.native->broadcastSignal(M::Signal(Id("/o", "i.f", "S")));
            w.mustAuthenticate();
            await(w, n);
            return t(); }, 0);
    case 5: { // while the peer does not read
        const bool small = r.chance(1, 2);
        return judge(std::string("messages waiting for the peer: messages") + (small ? ", small buffers" : ""), 1000, 96000, enough, [&](size_t n) {
            faults::cfg.sndbuf = small ? 4608 : 0;
            World w;
            faults::cfg.sndbuf = 0;
            w.peer->keep = false;
            w.mustAuthenticate();
            w.peer->paused = true;
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                w.native->broadcastSignal(M::Signal(Id("/o", "i.f", "S")));
            w.peer->paused = false;
            await(w, n);
            return t(); }, small);
    }
    case 6: // received, and answered
        return judge("calls received: calls", 1000, 64000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            w.mustAuthenticate();
            w.native->registerMethodCallHandler("i.f.M", [&](const M::MethodCall& c) { w.native->sendMethodReturn(c.getHeaderSender(), M::MethodReturn(c.getSerial())); });
            Timer t(true);
            std::string s;
            for (size_t i = 0; i < n; ++i) {
                s += encode(callTo("/o", "i.f", i % 8 ? "M" : "Unknown", 1 + i));
                send(w, s);
            }
            send(w, s, true);
            w.sync();
            await(w, n - (n + 7) / 8);
            return t(); }, 0);
    case 7: // rules come and go
        return judge("rules added and removed: " + how, 500, 24000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            w.mustAuthenticate();
            Event hit;
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                w.native->callAddMatch("interface='i.f',member='N" + std::to_string(i) + "'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal&) { hit.hit(); });
            w.peer->send(encode(signalTo("/o", "i.f", "N" + std::to_string(n / 2), 1)));
            if (!hit.wait(1))
                giveUp("lost", "the signal was not handled");
            for (size_t i : orderOf(n))
                w.native->callRemoveMatch("interface='i.f',member='N" + std::to_string(i) + "'");
            await(w, n);
            return t(); }, order);
    case 8: { // one large message, not taken at once
        const bool small = r.chance(1, 2);
        return judge(std::string("large message sent: bytes") + (small ? ", small buffers" : ""), 500000, 100000000, enough, [&](size_t n) {
            faults::cfg.sndbuf = small ? 4608 : 0;
            World w;
            faults::cfg.sndbuf = 0;
            w.peer->keep = false;
            w.mustAuthenticate();
            M::Signal m(Id("/o", "i.f", "S"));
            m.addParameter(T::String(std::string(n, 'x')));
            Timer t(true);
            w.native->broadcastSignal(m);
            await(w, 1);
            return t(); }, small);
    }
    case 9: {
        const size_t piece = 500 + r.below(3) * 5000;
        return judge("large message received: bytes", 300000, 60000000, enough, [&](size_t n) {
            World w;
            w.mustAuthenticate();
            Event hit;
            w.native->registerSignalHandler("i.f.S", [&](const M::Signal&) { hit.hit(); });
            const std::string s = encode(signalTo("/o", "i.f", "S", 1, { str(std::string(n, 'x')) }));
            Timer t(true);
            for (size_t i = 0; i < s.size(); i += piece)
                w.peer->send(s.substr(i, piece));
            if (!hit.wait(1))
                giveUp("lost", "the signal was not handled");
            return t(); }, piece);
    }
    case 10: // one after the other
        return judge("calls one after the other: calls", 500, 32000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            w.mustAuthenticate();
            Event done;
            w.peer->onMessage = [&](const std::string& raw) { w.peer->send(encode(replyTo(false, decode(raw).serial, 1))); };
            Timer t(true);
            for (size_t i = 0; i < n; ++i) {
                w.native->sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", "M")), [&](const M::MethodReturn&) { done.hit(); }, [&](const M::Error&) { done.hit(); });
                if (i % 16 == 15 && !done.wait(i - 8))
                    giveUp("lost", "an answer was not handled");
            }
            if (!done.wait(n))
                giveUp("lost", "an answer was not handled");
            return t(); }, 0);
    default: { // the same name and rule again and again
        const unsigned what = r.below(3);
        return judge("registered again and again: " + std::to_string(what), 1000, 64000, enough, [&](size_t n) {
            World w;
            w.peer->keep = false;
            w.mustAuthenticate();
            Timer t(true);
            for (size_t i = 0; i < n; ++i)
                switch (what) {
                case 0:
                    w.native->registerMethodCallHandler("i.f.M", [](const M::MethodCall&) {});
                    break;
                case 1:
                    w.native->registerSignalHandler("i.f.M", [](const M::Signal&) {});
                    break;
                default:
                    w.native->callAddMatch("member='M'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [](const M::Signal&) {});
                    w.native->callRemoveMatch("member='M'");
                }
            std::string s;
            for (size_t i = 0; i < n; ++i) {
                s += i % 2 ? encode(signalTo("/o", "i.f", "M", 1 + i)) : encode(callTo("/o", "i.f", "M", 1 + i, {}, 1));
                send(w, s);
            }
            send(w, s, true);
            w.sync();
            return t(); }, what);
    }
    }
}
