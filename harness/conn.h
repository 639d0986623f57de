// A peer of a real connection, in this process: the bytes it received, and what it sends.
#pragma once
#include "bridge.h"
#include "faults.h"
#include "parts.h"
#include <condition_variable>
#include <dirent.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace conn {
using vh::R;
using vh::Rng;
using ref::Msg;
using vh::hashBytes;
using vh::hashStr;
using vh::mix;

const unsigned PATIENCE = 40; // seconds after which what ought to happen counts as not happening

// The case can not go on (something hangs): report what there is and end the process
[[noreturn]] inline void giveUp(const std::string& key, const std::string& detail)
{
    R.violation(key, detail);
    R.finish();
    fflush(nullptr);
    _exit(0);
}

struct Listener {
    int fd = -1;
    std::string name;
    bool abstract = false;
    explicit Listener(bool abs = false, int backlog = 16)
        : abstract(abs)
    {
        static std::atomic<unsigned> n { 0 };
        const std::string base = "s" + std::to_string(getpid()) + "." + std::to_string(n++);
        sockaddr_un a;
        memset(&a, 0, sizeof a);
        a.sun_family = AF_UNIX;
        socklen_t len;
        if (abs) {
            name = std::string(1, '\0') + "dbus-asio-verif-" + base;
            memcpy(a.sun_path, name.data(), name.size());
            len = offsetof(sockaddr_un, sun_path) + name.size();
        } else {
            name = base; // relative: the current directory is the scratch directory of the job
            memcpy(a.sun_path, name.data(), name.size());
            len = sizeof a;
        }
        faults::exempt = true;
        fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        faults::exempt = false;
        if (fd < 0 || bind(fd, (sockaddr*)&a, len) || listen(fd, backlog)) {
            perror("listen");
            _exit(3);
        }
    }
    int accept()
    {
        const int c = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
        if (c < 0) {
            perror("accept");
            _exit(3);
        }
        return c;
    }
    ~Listener()
    {
        close(fd);
        if (!abstract)
            unlink(name.c_str());
    }
    Listener(const Listener&) = delete;
};

// May be set while it is in use
struct Callback {
    std::mutex m;
    std::shared_ptr<std::function<void(const std::string&)>> f;
    template <class F>
    void operator=(F x)
    {
        auto n = std::make_shared<std::function<void(const std::string&)>>(std::move(x));
        std::lock_guard<std::mutex> l(m);
        f = n;
    }
    std::shared_ptr<std::function<void(const std::string&)>> get()
    {
        std::lock_guard<std::mutex> l(m);
        return f;
    }
};

// Receives everything on a thread of its own
struct Peer {
    int fd = -1;
    std::mutex m;
    std::condition_variable cv;
    std::string handshake; // all bytes up to and including BEGIN\r\n
    std::vector<std::string> messages; // complete ones, raw
    std::string rest; // of an incomplete one
    std::string broken; // why this is not a stream of messages
    bool begun = false, eof = false;
    std::atomic<uint64_t> total { 0 };
    std::atomic<bool> stop { false }, paused { false };
    std::atomic<unsigned> chunk { 65536 }, delayUs { 0 };
    // called on the peer's thread, without the lock
    Callback onMessage;
    std::atomic<bool> keep { true }; // record messages
    uint64_t count = 0;
    std::thread th;
    std::mutex sendMx;

    explicit Peer(int f)
        : fd(f)
    {
    }
    void start()
    {
        th = std::thread([this] { run(); });
    }
    void run()
    {
        faults::exempt = true;
        std::string buf(1 << 16, '\0');
        size_t off = 0; // into rest
        while (!stop) {
            if (paused) {
                faults::pause(500);
                continue;
            }
            pollfd p = { fd, POLLIN, 0 };
            const int k = poll(&p, 1, 5);
            if (k <= 0)
                continue;
            const ssize_t n = faults::rawRecv(fd, &buf[0], std::min<size_t>(chunk, buf.size()), 0);
            if (n <= 0) {
                if (n < 0 && errno == EINTR)
                    continue;
                std::lock_guard<std::mutex> l(m);
                eof = true;
                cv.notify_all();
                return;
            }
            std::vector<std::string> fresh;
            {
                std::lock_guard<std::mutex> l(m);
                total += n;
                if (!begun) {
                    handshake.append(buf.data(), n);
                    const size_t b = handshake.find("\r\nBEGIN\r\n");
                    if (b != std::string::npos) {
                        begun = true;
                        rest = handshake.substr(b + 9);
                        handshake.resize(b + 9);
                        off = 0;
                    }
                } else
                    rest.append(buf.data(), n);
                while (begun && broken.empty() && rest.size() - off >= 16) {
                    size_t s;
                    try {
                        s = ref::messageSize(rest.data() + off, rest.size() - off);
                        if (rest[off + 3] != 1)
                            throw ref::Bad("version");
                    } catch (const std::exception& e) {
                        broken = std::string(e.what()) + ": no message starts after message " + std::to_string(count) + ": " + vh::hex(rest.substr(off, 200));
                        break;
                    }
                    if (s > rest.size() - off)
                        break;
                    fresh.push_back(rest.substr(off, s));
                    if (keep)
                        messages.push_back(fresh.back());
                    ++count;
                    off += s;
                }
                if (off > (1 << 16) || off == rest.size()) {
                    rest.erase(0, off);
                    off = 0;
                }
                cv.notify_all();
            }
            if (auto f = onMessage.get())
                for (auto& x : fresh)
                    (*f)(x);
            if (delayUs)
                faults::pause(delayUs);
        }
    }
    template <class F>
    bool wait(F f, unsigned seconds = PATIENCE)
    {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_for(l, std::chrono::seconds(seconds), f);
    }
    // Everything, in the pieces given; false when the other side is gone
    bool sendRaw(const char* p, size_t n)
    {
        while (n) {
            const ssize_t k = faults::rawSend(fd, p, n, MSG_NOSIGNAL);
            if (k < 0 && errno == EINTR)
                continue;
            if (k <= 0)
                return false;
            p += k;
            n -= k;
        }
        return true;
    }
    bool send(const std::string& s)
    {
        std::lock_guard<std::mutex> l(sendMx);
        return sendRaw(s.data(), s.size());
    }
    bool sendCut(Rng& r, const std::string& s)
    {
        std::lock_guard<std::mutex> l(sendMx);
        for (auto& c : bridge::cuts(r, s.size())) {
            if (!sendRaw(s.data() + c.first, c.second))
                return false;
            if (r.chance(1, 4))
                faults::pause(r.below(60));
        }
        return true;
    }
    void closeNow()
    {
        join();
        if (fd >= 0)
            close(fd);
        fd = -1;
    }
    void join()
    {
        stop = true;
        if (th.joinable())
            th.join();
    }
    ~Peer() { closeNow(); }
};

inline std::string show(const std::string& m)
{
    try {
        Msg d = ref::decode(m);
        return "type " + std::to_string(d.type) + " serial " + std::to_string(d.serial) + " " + d.text(ref::F_INTERFACE) + "." + d.text(ref::F_MEMBER) + " " + ref::show(d.body);
    } catch (const std::exception& e) {
        return std::string("(") + e.what() + ") " + vh::hex(m, 200);
    }
}

inline std::string authLine()
{
    const std::string uid = std::to_string(faults::cfg.fakeUid ? faults::cfg.uid.load() : (uint32_t)getuid());
    return "AUTH EXTERNAL " + vh::hex(uid) + "\r\n";
}
const char* const GUID = "0123456789abcdef0123456789abcdef";

// Waits for a number of events
struct Event {
    std::mutex m;
    std::condition_variable cv;
    uint64_t n = 0;
    void hit()
    {
        std::lock_guard<std::mutex> l(m);
        ++n;
        cv.notify_all();
    }
    bool wait(uint64_t want, unsigned seconds = PATIENCE)
    {
        std::unique_lock<std::mutex> l(m);
        return cv.wait_for(l, std::chrono::seconds(seconds), [&] { return n >= want; });
    }
};

// A connection and its peer
struct World {
    Listener listener;
    std::unique_ptr<Peer> peer;
    std::unique_ptr<DBus::Native> native;
    Event synced;
    uint64_t syncs = 0;
    bool haveSync = false;
    uint32_t nextSerial = 1000000;

    explicit World(bool startPeer = true, bool abstract = false)
        : listener(abstract)
    {
        native.reset(new DBus::Native(listener.name));
        peer.reset(new Peer(listener.accept()));
        if (startPeer)
            peer->start();
    }
    bool authenticate(bool fds = false)
    {
        native->BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        return finishAuth(fds);
    }
    bool finishAuth(bool fds = false)
    {
        auto has = [this](const char* s) { return peer->handshake.find(s) != std::string::npos; };
        if (!peer->wait([&] { return has("\r\n"); }))
            return false;
        peer->send(std::string("OK ") + GUID + "\r\n");
        if (fds) {
            if (!peer->wait([&] { return has("NEGOTIATE_UNIX_FD\r\n"); }))
                return false;
            peer->send("AGREE_UNIX_FD\r\n");
        }
        return peer->wait([&] { return peer->begun; });
    }
    void mustAuthenticate(bool fds = false)
    {
        if (!authenticate(fds))
            giveUp("no-begin", "no BEGIN after OK; received: " + vh::hex(peer->handshake));
    }
    void addSync()
    {
        haveSync = true;
        native->registerMethodCallHandler("v.Sync.Mark", [this](const DBus::Message::MethodCall&) { synced.hit(); });
    }
    std::string mark()
    {
        Msg m;
        m.type = ref::CALL;
        m.flags = 1;
        m.serial = nextSerial++;
        m.set(ref::F_PATH, ref::str("/v", 'o'));
        m.set(ref::F_INTERFACE, ref::str("v.Sync"));
        m.set(ref::F_MEMBER, ref::str("Mark"));
        return ref::encode(m);
    }
    // All that was sent to the client before has been handled
    void sync()
    {
        if (!haveSync)
            addSync();
        peer->send(mark());
        if (!synced.wait(++syncs))
            giveUp("lost", "a call sent after all the others was not handled");
    }
    // All that the client sent before has been received: ends with a signal of this name
    void flush()
    {
        static std::atomic<unsigned> n { 0 };
        const std::string name = "The_flush_" + std::to_string(n++);
        native->broadcastSignal(DBus::Message::Signal(DBus::Message::MethodCallIdentifier("/v", "v.Flush", name)));
        if (!peer->wait([&] {
                if (!peer->broken.empty() || peer->eof)
                    return true;
                // it is among the last
                for (size_t i = peer->messages.size(); i-- > 0;)
                    if (peer->messages[i].find("v.Flush") != std::string::npos && peer->messages[i].find(name + std::string(1, '\0')) != std::string::npos)
                        return true;
                return false;
            }))
            giveUp("lost", "a signal sent after everything else was not received; " + std::to_string(peer->messages.size()) + " messages were, rest " + vh::hex(peer->rest));
    }
    ~World()
    {
        native.reset();
        peer->join();
        peer.reset();
    }
};

// Messages to the client
inline Msg toClient(int type, uint32_t serial)
{
    Msg m;
    m.type = type;
    m.serial = serial;
    return m;
}
inline Msg replyTo(bool error, uint32_t to, uint32_t serial, std::vector<ref::Val> body = {})
{
    Msg m = toClient(error ? ref::ERROR : ref::RETURN, serial);
    m.flags = 1;
    if (error)
        m.set(ref::F_ERROR_NAME, ref::str("v.Error.Some"));
    m.set(ref::F_REPLY_SERIAL, ref::num('u', to));
    m.set(ref::F_SENDER, ref::str(":1.7"));
    m.body = std::move(body);
    return m;
}
inline Msg callTo(const std::string& path, const std::string& iface, const std::string& member, uint32_t serial, std::vector<ref::Val> body = {}, uint8_t flags = 0)
{
    Msg m = toClient(ref::CALL, serial);
    m.flags = flags;
    m.set(ref::F_PATH, ref::str(path, 'o'));
    if (!iface.empty())
        m.set(ref::F_INTERFACE, ref::str(iface));
    m.set(ref::F_MEMBER, ref::str(member));
    m.set(ref::F_SENDER, ref::str(":1.7"));
    m.body = std::move(body);
    return m;
}
inline Msg signalTo(const std::string& path, const std::string& iface, const std::string& member, uint32_t serial, std::vector<ref::Val> body = {})
{
    Msg m = toClient(ref::SIGNAL, serial);
    m.flags = 1;
    m.set(ref::F_PATH, ref::str(path, 'o'));
    m.set(ref::F_INTERFACE, ref::str(iface));
    m.set(ref::F_MEMBER, ref::str(member));
    m.set(ref::F_SENDER, ref::str(":1.7"));
    m.body = std::move(body);
    return m;
}

// The number after "name: " in a text of statistics; -1 if it is not there once
inline long long statistic(const std::string& text, const std::string& name)
{
    const std::string key = " " + name + ": ";
    const size_t p = text.find(key);
    if (p == std::string::npos || text.find(key, p + 1) != std::string::npos)
        return -1;
    return atoll(text.c_str() + p + key.size());
}

// Waits until the client has taken in this many bytes of the handshake, as far as its statistics tell
inline void awaitAuthBytes(DBus::Native& n, uint64_t bytes)
{
    // the statistics may be wrong, but that is for C18
    static std::atomic<bool> useless { false };
    for (int i = 0; i < (useless ? 200 : 20000); ++i) {
        if (statistic(n.getStats(), "bytes_auth") >= (long long)bytes)
            return;
        faults::pause(i < 200 ? 50 : 500);
    }
    useless = true;
}

inline unsigned threadCount()
{
    unsigned n = 0;
    DIR* d = opendir("/proc/self/task");
    while (dirent* e = readdir(d))
        n += e->d_name[0] != '.';
    closedir(d);
    return n;
}
inline unsigned fdCount()
{
    unsigned n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (dirent* e = readdir(d))
        n += e->d_name[0] != '.';
    closedir(d);
    return n;
}

typedef DBus::Message::MethodCallIdentifier Id;

inline void faultsFor(Rng& r) { faults::choose(r.next()); }
inline void countFaults()
{
    R.add("faults_short_writes", faults::counts.shortWrites.exchange(0));
    R.add("faults_short_reads", faults::counts.shortReads.exchange(0));
    R.add("faults_interruptions", faults::counts.interrupts.exchange(0));
    R.add("faults_delays", faults::counts.delays.exchange(0) + faults::counts.lockDelays.exchange(0));
}

} // namespace conn
