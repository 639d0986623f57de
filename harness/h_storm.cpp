// C14: one connection used from many threads at once. The thread sanitizer decides; this program
// itself synchronises its threads as little as it can, so as not to hide anything from it.
#include "conn.h"

using namespace conn;
using namespace ref;
namespace M = DBus::Message;
namespace T = DBus::Type;

namespace {
std::atomic<uint64_t> opsDone { 0 }, handled { 0 };
void count(std::atomic<uint64_t>& n) { n.fetch_add(1, std::memory_order_relaxed); }

// What every thread does with library objects of its own: only what is static could be shared
uint64_t alone(Rng& q, const std::vector<std::string>& wire)
{
    uint64_t h = 0;
    switch (q.below(7)) {
    case 0: {
        bridge::Receiver rec;
        rec.onMessage = [&](const M::Base& m, int) {
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                h += T::toString(m.getParameter(i)).size();
        };
        try {
            rec.feed(q.pick(wire));
        } catch (const std::exception&) {
        }
        break;
    }
    case 1: {
        Gen g(q);
        g.constructible = true;
        g.budget = 15;
        g.bytes = 200;
        M::MethodReturn m(7);
        for (auto& v : g.args(3))
            m.addParameter(bridge::toLib(v));
        h = m.marshall("d.e").size();
        break;
    }
    case 2: {
        DBus::MatchRule rule("type='signal',interface='a.b',path_namespace='/a'", [](const M::Signal&) {});
        M::Signal s(Id("/a/b", "a.b", "M"));
        h = rule.isMatched(s);
        break;
    }
    case 3: {
        namespace I = DBus::Introspectable;
        I::Introspection s;
        I::Interface i("a.b");
        i.addMethod(I::Method("M", "sa{sv}", "i"));
        i.addSignal(I::Signal("S", "i"));
        s.addInterface(i);
        h = s.serialize().size();
        break;
    }
    case 4:
        h = DBus::Platform::getSystemBus("unix:path=/a,guid=1").size() + DBus::Platform::getSessionBus("unix:abstract=b").size() + DBus::Platform::getUID();
        break;
    case 5: {
        std::string a, b;
        DBus::Utils::ConvertBinaryToHexString(a, "some bytes");
        DBus::Utils::ConvertHexStringToBinary(b, a);
        h = b.size();
        break;
    }
    default: {
        T::Struct s;
        s.setSignature("(ya{sv}(ii)as)");
        h = T::extractSignature("a{sv}i", 0).size() + T::getAlignment("x") + s.getSignature().size();
    }
    }
    return h;
}
}

PART(C14, storm)
{
    static int null = -1;
    if (null < 0) {
        // rendered messages are written here
        null = open("/dev/null", O_WRONLY);
        fflush(stderr);
        dup2(null, 2);
    }
    faultsFor(r);
    const bool traced = r.chance(1, 5);
    const unsigned threads = r.range(2, 6), each = traced ? r.range(3, 8) : r.range(10, 50);
    std::vector<std::string> wire;
    {
        Gen g(r);
        g.bytes = 300;
        for (int i = 0; i < 12; ++i) {
            g.budget = 12;
            wire.push_back(encode(g.message()));
        }
    }
    // built once, sent by all
    M::MethodCall sharedCall(Id("/o", "i.f", "Shared"), M::MethodCallParametersIn(std::string("text")), 1);
    M::Signal sharedSignal(Id("/o", "i.f", "Shared"));
    {
        Gen g(r);
        g.constructible = true;
        g.budget = 20;
        g.bytes = 300;
        for (auto& v : g.args(4))
            sharedSignal.addParameter(bridge::toLib(v));
    }
    M::MethodReturn sharedReturn(77);
    M::Error sharedError(78, "e.f", "text");

    // received values on their way to another thread
    std::mutex handMx;
    std::vector<T::Generic> hand;

    std::vector<uint8_t> order;
    {
        World w;
        DBus::Native& n = *w.native;
        w.peer->keep = false;
        std::atomic<bool> over { false };
        uint32_t answers = 0;
        w.peer->onMessage = [&](const std::string& raw) {
            Msg m;
            try {
                m = decode(raw);
            } catch (const std::exception&) {
                return;
            }
            const std::string member = m.text(F_MEMBER);
            if (member[0] == 'T')
                order.push_back((uint8_t)member[1]);
            if (m.type == CALL && !(m.flags & 1) && !over.load(std::memory_order_relaxed)) {
                ++answers;
                w.peer->send(encode(replyTo(answers % 4 == 0, m.serial, answers, { str("answer"), num('u', answers) })));
            }
        };
        const bool early = r.chance(1, 3), fds = r.chance(1, 2);
        auto see = [&](const M::Base& m) {
            count(handled);
            if (m.getParameterCount() && handled.load(std::memory_order_relaxed) % 3 == 0) {
                std::lock_guard<std::mutex> l(handMx);
                if (hand.size() < 20)
                    hand.push_back(m.getParameter(0));
            }
        };
        n.registerMethodCallHandler("i.f.M", [&](const M::MethodCall& m) {
            see(m);
            M::MethodReturn ret(m.getSerial());
            if (m.getParameterCount())
                ret.addParameter(m.getParameter(0));
            n.sendMethodReturn(m.getHeaderSender(), ret);
        });
        n.registerSignalHandler("i.f.S", [&](const M::Signal& m) {
            see(m);
            n.broadcastSignal(sharedSignal);
        });
        auto begin = [&] {
            if (r.chance(1, 2))
                n.callAddMatch("interface='i.g'", [&](const M::MethodReturn& m) { see(m); }, [&](const M::Error& m) { see(m); }, [&](const M::Signal& m) { see(m); });
            if (r.chance(1, 2))
                n.callHello([&](const M::MethodReturn& m) { see(m); }, [&](const M::Error& m) { see(m); });
            n.BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        };
        auto finish = [&] {
            w.peer->send(std::string("OK ") + GUID + "\r\n");
            if (!fds)
                return;
            if (r.chance(1, 2))
                w.peer->wait([&] { return w.peer->handshake.find("NEGOTIATE") != std::string::npos; });
            w.peer->send("AGREE_UNIX_FD\r\n");
        };
        if (!early) {
            n.BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            if (!w.finishAuth())
                giveUp("no-begin", "no BEGIN");
        }
        // what the peer sends
        std::string traffic;
        {
            Gen g(r);
            g.bytes = 500;
            for (int i = 0; i < 24; ++i) {
                g.budget = 10;
                std::vector<Val> body = g.args(3);
                switch (r.below(5)) {
                case 0:
                    traffic += encode(callTo("/o", "i.f", "M", 1 + i, body));
                    break;
                case 1:
                    traffic += encode(signalTo("/o", "i.f", "S", 1 + i, body));
                    break;
                case 2:
                    traffic += encode(signalTo("/o", "i.g", "S", 1 + i, body));
                    break;
                case 3:
                    traffic += encode(callTo("/o", "r.r", "M" + std::to_string(r.below(4)), 1 + i, body));
                    break;
                default:
                    traffic += encode(replyTo(r.chance(1, 3), (uint32_t)r.below(4000), 1 + i, body));
                }
            }
        }
        std::vector<std::thread> ts;
        std::atomic<unsigned> running { threads };
        for (unsigned t = 0; t < threads; ++t)
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                const std::string name = "T" + std::to_string(t);
                for (unsigned i = 0; i < each; ++i) {
                    const std::string k = std::to_string(q.below(4));
                    auto ok = [&](const M::MethodReturn& m) { see(m); };
                    auto no = [&](const M::Error& m) { see(m); };
                    switch (q.below(24)) {
                    case 0:
                    case 1:
                    case 2: {
                        M::MethodCallParametersIn in;
                        in.add(i);
                        n.sendMethodCall("d.e", M::MethodCall(Id("/o", "i.f", name), in), ok, no);
                        break;
                    }
                    case 3: {
                        M::MethodReturn m(5);
                        m.addParameter(T::String(std::string(q.below(3000), 'x')));
                        n.sendMethodReturn("d.e", m);
                        break;
                    }
                    case 4:
                        n.sendError("d.e", M::Error(5, "e.f", "text"));
                        break;
                    case 5:
                    case 6:
                        n.broadcastSignal(M::Signal(Id("/o", "i.f", name)));
                        break;
                    case 7:
                        n.sendSignal("d.e", M::Signal(Id("/o", "i.f", name)));
                        break;
                    case 8:
                        n.registerMethodCallHandler("r.r.M" + k, [&](const M::MethodCall& m) { see(m); });
                        break;
                    case 9:
                        n.unRegisterMethodCallHandler("r.r.M" + k);
                        break;
                    case 10:
                        n.registerSignalHandler("i.g.S", [&](const M::Signal& m) { see(m); });
                        break;
                    case 11:
                        n.unRegisterSignalHandler("i.g.S");
                        break;
                    case 12:
                        n.callAddMatch("interface='i.g',member='" + std::string(q.chance(1, 2) ? "S'" : "X" + k + "'"), ok, no, [&](const M::Signal& m) { see(m); });
                        break;
                    case 13:
                        n.callRemoveMatch("interface='i.g',member='S'");
                        break;
                    case 14:
                    case 15:
                        (void)n.getStats();
                        break;
                    case 16:
                        n.sendMethodCall("d.e", sharedCall);
                        break;
                    case 17:
                        n.broadcastSignal(sharedSignal);
                        break;
                    case 18:
                        if (q.chance(1, 2))
                            n.sendMethodReturn("d.e", sharedReturn);
                        else
                            n.sendError("d.e", sharedError);
                        break;
                    case 19: {
                        std::vector<T::Generic> got;
                        {
                            std::lock_guard<std::mutex> l(handMx);
                            got.swap(hand);
                        }
                        M::Signal m(Id("/o", "i.f", name));
                        for (auto& g : got) {
                            m.addParameter(g);
                            (void)T::toString(g);
                        }
                        if (got.size() < 3)
                            n.broadcastSignal(m);
                        break;
                    }
                    case 20:
                        n.callNameHasOwner("a.b", ok, no);
                        break;
                    case 21:
                        DBus::Log::setLevel(traced && q.chance(1, 2) ? q.below(4) : q.range(2, 5));
                        break;
                    default:
                        alone(q, wire);
                    }
                    count(opsDone);
                    if (q.chance(1, 4))
                        faults::pause(q.below(q.chance(1, 4) ? 300 : 40));
                }
                running.fetch_sub(1, std::memory_order_relaxed);
            });
        // the peer, all the while
        std::thread flood([&, s = r.next()] {
            faults::exempt = true;
            Rng q(s);
            // the handshake is in the way until it is over
            while (!over.load(std::memory_order_relaxed)) {
                {
                    std::lock_guard<std::mutex> l(w.peer->m);
                    if (w.peer->begun)
                        break;
                }
                faults::pause(200);
            }
            while (running.load(std::memory_order_relaxed) && w.peer->sendCut(q, traffic))
                faults::pause(q.below(2000));
        });
        // and other connections come and go
        std::thread other([&, s = r.next()] {
            Rng q(s);
            do {
                World v;
                v.peer->keep = false;
                if (q.chance(2, 3))
                    v.authenticate();
                v.native->broadcastSignal(M::Signal(Id("/o", "i.f", "Other")));
                faults::pause(q.below(500));
            } while (running.load(std::memory_order_relaxed));
        });
        if (early) {
            faults::pause(r.below(1000));
            begin();
            finish();
        }
        for (auto& t : ts)
            t.join();
        flood.join();
        other.join();
        over = true;
        if (r.chance(1, 2)) // otherwise it is destroyed with the rest on its way
            w.sync();
        w.native.reset();
    }
    DBus::Log::setLevel(100);
    R.add("operations", opsDone.exchange(0));
    R.add("handlers_run", handled.exchange(0));
    countFaults();
    R.eval(hashBytes(order.data(), order.size()), order.size() > 2);
    R.sample(std::to_string(threads) + " threads, " + std::to_string(each) + " operations each, order at the peer " + std::string(order.begin(), order.begin() + std::min<size_t>(60, order.size())));
}
