// C36: the process ends while connections are in use. Each case starts this program again as the client,
// which ends in one way or another while the peer - here - keeps it busy.
#define CHILD_MAIN childMain
#include "conn.h"
#include "dbus_platform.h"
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <spawn.h>
#include <sstream>
#include <sys/wait.h>

using namespace vh;
using namespace ref;
using namespace conn;
namespace M = DBus::Message;
namespace T = DBus::Type;

namespace {
// Things whose destruction takes a while; the connection is used meanwhile
struct Slow {
    unsigned ms;
    explicit Slow(unsigned n)
        : ms(n)
    {
    }
    ~Slow()
    {
        if (ms)
            faults::pause(ms * 1000);
    }
};
// destroyed after everything else of static storage
Slow last __attribute__((init_priority(101)))(0);
std::unique_ptr<DBus::Native> global;

enum Place { LEAKED,
    OF_MAIN,
    STATIC,
    GLOBAL,
    SEVERAL,
    PLACES };
const char* const PLACE_NAMES[] = { "never destroyed", "of main", "static in a function", "global", "several" };
enum Way { RETURN_FROM_MAIN,
    EXIT,
    EXIT_IN_HANDLER,
    EXIT_ON_THREAD,
    WAYS };
const char* const WAY_NAMES[] = { "return from main", "exit", "exit in a handler", "exit on another thread" };
const int STATUS = 7;

std::atomic<uint64_t> received { 0 };
std::atomic<bool> exiting { false };
std::atomic<uint64_t> exitAt { ~0ull };

void got()
{
    if (++received >= exitAt && !exiting.exchange(true))
        exit(STATUS);
}

void look(const M::Base& m)
{
    for (size_t i = 0; i < m.getParameterCount(); ++i) {
        const auto& g = m.getParameter(i);
        (void)T::asString(g).size();
        (void)T::toString(g).size();
        (void)T::getMarshallingSignature(g).size();
        try {
            (void)T::asUint32(g);
        } catch (const std::exception&) {
        }
    }
    got();
}

void equip(DBus::Native& n, Rng& r)
{
    DBus::Native* p = &n;
    n.registerSignalHandler("e.x.S", look);
    n.registerMethodCallHandler("e.x.M", [p](const M::MethodCall& m) {
        M::MethodReturn a(m.getSerial());
        for (size_t i = 0; i < m.getParameterCount(); ++i)
            a.addParameter(m.getParameter(i));
        p->sendMethodReturn(m.getHeaderSender(), a);
        look(m);
    });
    if (r.chance(1, 2))
        n.callAddMatch("type='signal',interface='e.x',path_namespace='/e'", [](const M::MethodReturn& m) { look(m); }, [](const M::Error& m) { look(m); }, look);
    if (r.chance(9, 10))
        n.BeginAuth(r.chance(1, 4) ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
    else
        exitAt = 0;
}

// What other threads do until the end
void work(DBus::Native& n, uint64_t seed)
{
    Rng r(seed);
    for (unsigned i = 0;; ++i) {
        switch (r.below(8)) {
        case 0:
        case 1: {
            M::Signal s(M::MethodCallIdentifier("/e", "e.x", "T"));
            s.addParameter(std::string("text"));
            s.addParameter(T::Uint32(i));
            n.broadcastSignal(s);
            break;
        }
        case 2:
        case 3: {
            M::MethodCall c(M::MethodCallIdentifier("/e", "e.x", "N"), M::MethodCallParametersIn(std::string("a"), i));
            n.sendMethodCall("e.y", c, [](const M::MethodReturn& m) { look(m); }, [](const M::Error& m) { look(m); });
            break;
        }
        case 4:
            n.callListNames([](const M::MethodReturn& m) { look(m); }, [](const M::Error& m) { look(m); });
            break;
        case 5:
            (void)n.getStats().size();
            break;
        case 6: {
            T::Array a;
            a.add(T::Struct());
            (void)T::toString(a).size();
            (void)DBus::Platform::getSessionBus().size();
            (void)DBus::Platform::getSystemBus().size();
            break;
        }
        default:
            n.registerSignalHandler("e.x.U", look);
            n.unRegisterSignalHandler("e.x.U");
        }
        faults::pause(r.below(300));
    }
}
}

int childMain(int, char** argv)
{
    const unsigned place = atoi(argv[2]), way = atoi(argv[3]);
    Rng r(strtoull(argv[4], nullptr, 10));
    const std::string path = argv[5];
    static const size_t levels[] = { 100, 100, 100, 0, 3 };
    DBus::Log::setLevel(levels[r.below(5)]);
    const unsigned ms = 15;
    if (r.chance(1, 2))
        last.ms = ms;
    if (r.chance(1, 2))
        atexit([] { faults::pause(15000); });
    const uint64_t want = r.below(30);
    if (way == EXIT_IN_HANDLER)
        exitAt = want;
    DBus::Native* n = nullptr;
    std::unique_ptr<DBus::Native> own;
    bool destroyed = false;
    switch (place) {
    case OF_MAIN:
        own.reset(n = new DBus::Native(path));
        destroyed = way == RETURN_FROM_MAIN;
        break;
    case STATIC: {
        static DBus::Native s(path);
        static Slow between(15);
        n = &s;
        destroyed = true;
        break;
    }
    case GLOBAL:
        global.reset(n = new DBus::Native(path));
        destroyed = true;
        break;
    default:
        n = new DBus::Native(path);
    }
    equip(*n, r);
    if (place == SEVERAL)
        for (unsigned i = r.range(1, 2); i; --i)
            equip(*new DBus::Native(path), r);
    // what is destroyed is not used by others
    if (!destroyed)
        for (unsigned i = r.below(4); i; --i)
            std::thread([n, s = r.next()] { work(*n, s); }).detach();
    for (unsigned i = 0; i < 20000 && received < want && exitAt && !exiting; ++i)
        faults::pause(300);
    if (r.chance(1, 3))
        faults::pause(r.below(2000));
    if (exiting.exchange(true))
        for (;;)
            faults::pause(1000000);
    if (way == EXIT_ON_THREAD) {
        std::thread([] { exit(STATUS); }).detach();
        for (;;)
            faults::pause(1000000);
    }
    if (way == RETURN_FROM_MAIN)
        return STATUS;
    exit(STATUS);
}

PART(C36, ends)
{
    faults::off();
    faults::exempt = true;
    const unsigned place = index % PLACES, way = (index / PLACES) % WAYS;
    // a handler can not wait for its own end
    if (way == EXIT_IN_HANDLER && (place == STATIC || place == GLOBAL)) {
        R.eval(0, false);
        return;
    }
    Listener listener(false, 16);
    const std::string log = "log" + std::to_string(index);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 2, log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
    const std::string a[] = { "/proc/self/exe", "--child", std::to_string(place), std::to_string(way), std::to_string(r.next()), listener.name };
    char* args[7] = {};
    for (unsigned i = 0; i < 6; ++i)
        args[i] = (char*)a[i].c_str();
    pid_t pid;
    if (posix_spawn(&pid, "/proc/self/exe", &fa, nullptr, args, environ)) {
        perror("spawn");
        _exit(3);
    }
    posix_spawn_file_actions_destroy(&fa);
    fcntl(listener.fd, F_SETFL, O_NONBLOCK);

    Gen g(r);
    g.bytes = 200;
    std::vector<std::unique_ptr<Peer>> peers;
    std::vector<bool> begun;
    uint32_t serial = 1;
    uint64_t sent = 0;
    int status = 0;
    bool ended = false;
    const auto started = std::chrono::steady_clock::now();
    auto seconds = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count(); };
    auto over = [&] { return ended || (ended = waitpid(pid, &status, WNOHANG) == pid) || seconds() > 90; };
    while (!over()) {
        const int c = accept4(listener.fd, nullptr, nullptr, SOCK_CLOEXEC);
        if (c >= 0) {
            timeval t { 0, 20000 };
            setsockopt(c, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t);
            peers.emplace_back(new Peer(c));
            begun.push_back(false);
            Peer* p = peers.back().get();
            p->keep = false;
            p->onMessage = [p](const std::string& bytes) {
                Msg m;
                try {
                    m = decode(bytes);
                } catch (const std::exception&) {
                    return;
                }
                if (m.type != CALL || (m.flags & 1))
                    return;
                Msg a;
                a.type = m.serial % 5 ? RETURN : ERROR;
                a.serial = m.serial + 1000000;
                a.set(F_REPLY_SERIAL, num('u', m.serial));
                if (a.type == ERROR)
                    a.set(F_ERROR_NAME, str("e.x.E"));
                a.body = { str("answer"), num('u', m.serial) };
                p->send(encode(a));
            };
            p->start();
        }
        std::string b;
        for (unsigned i = r.range(1, 3); i; --i) {
            Msg m;
            g.budget = 12;
            do
                m = g.message();
            while (m.type != CALL && m.type != SIGNAL);
            m.serial = serial++;
            m.flags &= ~1;
            m.set(F_PATH, str("/e/x", 'o'));
            m.set(F_INTERFACE, str("e.x"));
            m.set(F_MEMBER, str(m.type == CALL ? "M" : "S"));
            b += encode(m);
        }
        for (size_t i = 0; i < peers.size(); ++i) {
            Peer& p = *peers[i];
            std::string hs;
            bool done;
            {
                std::lock_guard<std::mutex> l(p.m);
                hs = p.handshake;
                done = p.begun;
            }
            if (!done) {
                if (!begun[i] && hs.find("\r\n") != hs.npos) {
                    begun[i] = true;
                    p.send(std::string("OK ") + GUID + "\r\n");
                } else if (hs.find("NEGOTIATE_UNIX_FD\r\n") != hs.npos)
                    p.send("AGREE_UNIX_FD\r\n");
                continue;
            }
            std::lock_guard<std::mutex> l(p.sendMx);
            // not waiting: what fits goes, and what does not go ends this connection's stream
            if (p.stop)
                continue;
            size_t at = 0;
            while (at < b.size()) {
                const ssize_t k = faults::rawSend(p.fd, b.data() + at, b.size() - at, MSG_NOSIGNAL);
                if (k <= 0) {
                    if (k < 0 && (errno == EAGAIN || errno == EINTR) && !over())
                        continue;
                    break;
                }
                at += k;
            }
            sent += at;
        }
        faults::pause(r.below(300));
        R.beat = R.beat + 1;
    }
    if (!ended) {
        kill(pid, SIGKILL);
        waitpid(pid, &status, 0);
    }
    peers.clear();
    std::string text;
    {
        std::ifstream f(log);
        std::stringstream ss;
        ss << f.rdbuf();
        text = ss.str();
    }
    unlink(log.c_str());
    const std::string what = std::string(PLACE_NAMES[place]) + ", " + WAY_NAMES[way] + ": ";
    if (!ended)
        R.violation("hang", what + "the process has not ended after 90 s");
    else if (!WIFEXITED(status) || WEXITSTATUS(status) != STATUS) {
        // what was said about it
        std::string why;
        for (const char* k : { "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "runtime error:", "terminate called", "what():", "SUMMARY:" }) {
            const size_t i = text.find(k);
            if (i != text.npos)
                why += text.substr(i, text.find('\n', i) - i) + "; ";
        }
        for (size_t i = text.find("#"), k = 0; i != text.npos && k < 40; i = text.find("\n    #", i + 1), ++k) {
            const size_t f = text.find("DBus::", i), e = text.find('\n', i + 1);
            if (f != text.npos && f < e)
                why += text.substr(f, e - f) + "; ";
        }
        R.violation("status", what + (WIFSIGNALED(status) ? "signal " + std::to_string(WTERMSIG(status)) : "status " + std::to_string(WEXITSTATUS(status))) + " instead of " + std::to_string(STATUS) + ": " + why.substr(0, 2500) + (why.empty() ? text.substr(text.size() - std::min<size_t>(text.size(), 600)) : ""));
    }
    R.add(std::string("ended: ") + PLACE_NAMES[place] + ", " + WAY_NAMES[way]);
    R.add("bytes_sent_to_the_end", sent);
    R.maxOf("milliseconds", (uint64_t)(seconds() * 1000));
    R.eval(mix(r.next() ^ index), sent > 0);
}
