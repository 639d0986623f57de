// C22: against a real bus, with libdbus as the other client.
#include "conn.h"
#include "dbuslib.h"
#include "rules.h"
#include <algorithm>
#include <fcntl.h>
#include <future>
#include <sstream>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace conn;
using namespace ref;
using bridge::Seen;
namespace M = DBus::Message;

namespace {
const char* const DAEMON = "org.freedesktop.DBus";

//--------------------------------------------------------------------------- the bus

struct Bus {
    pid_t pid = -1;
    std::string path, address;
    Bus()
    {
        char cwd[512];
        if (!getcwd(cwd, sizeof cwd))
            fail("getcwd");
        // the name of a socket is short
        path = std::string(cwd) + "/bus";
        if (path.size() > 100)
            path = "bus";
        address = "unix:path=" + path;
        FILE* f = fopen("bus.conf", "w");
        if (!f)
            fail("bus.conf");
        fprintf(f,
            "<!DOCTYPE busconfig PUBLIC \"-//freedesktop//DTD D-Bus Bus Configuration 1.0//EN\" \"http://www.freedesktop.org/standards/dbus/1.0/busconfig.dtd\">\n"
            "<busconfig><type>session</type><listen>%s</listen><auth>EXTERNAL</auth>\n"
            "<policy context=\"default\"><allow send_destination=\"*\" eavesdrop=\"true\"/><allow eavesdrop=\"true\"/><allow own=\"*\"/><allow user=\"*\"/></policy>\n"
            "<limit name=\"max_incoming_bytes\">1000000000</limit><limit name=\"max_outgoing_bytes\">1000000000</limit><limit name=\"max_message_size\">134217728</limit>\n"
            "<limit name=\"auth_timeout\">240000</limit><limit name=\"max_completed_connections\">100000</limit><limit name=\"max_incomplete_connections\">10000</limit>\n"
            "<limit name=\"max_connections_per_user\">100000</limit><limit name=\"max_names_per_connection\">50000</limit>\n"
            "<limit name=\"max_match_rules_per_connection\">50000</limit><limit name=\"max_replies_per_connection\">50000</limit></busconfig>\n",
            address.c_str());
        fclose(f);
        int ready[2];
        if (pipe2(ready, 0))
            fail("pipe");
        const std::string fd = "--print-address=" + std::to_string(ready[1]);
        const pid_t parent = getpid();
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent)
                _exit(1);
            close(ready[0]);
            execlp("dbus-daemon", "dbus-daemon", "--config-file=bus.conf", "--nofork", "--nopidfile", "--nosyslog", fd.c_str(), nullptr);
            _exit(1);
        }
        close(ready[1]);
        std::string got;
        char buf[256];
        ssize_t n;
        pollfd p = { ready[0], POLLIN, 0 };
        while (got.find('\n') == std::string::npos && poll(&p, 1, 60000) == 1 && (n = read(ready[0], buf, sizeof buf)) > 0)
            got.append(buf, n);
        close(ready[0]);
        if (got.find('\n') == std::string::npos)
            fail("the bus does not start");
    }
    [[noreturn]] static void fail(const char* what)
    {
        fprintf(stderr, "%s\n", what);
        _exit(3);
    }
    void mustRun()
    {
        int st;
        if (waitpid(pid, &st, WNOHANG) == pid) {
            R.violation("harness bus", "the bus ended");
            R.finish();
            fflush(nullptr);
            _exit(0);
        }
    }
    ~Bus()
    {
        kill(pid, SIGKILL);
        waitpid(pid, nullptr, 0);
        unlink(path.c_str());
    }
};
Bus& bus()
{
    static Bus b;
    b.mustRun();
    return b;
}

//--------------------------------------------------------------------------- clients

struct Answer {
    int kind = 0; // 0: none
    std::vector<Val> args;
    std::string sender, errorText, unreadable;
    std::string show() const
    {
        return kind == RETURN ? "return " + ref::show(args) : kind == ERROR ? "error '" + errorText + "'" : "nothing";
    }
};
typedef std::function<void(const Answer&)> OnAnswer;

struct Got {
    int kind = 0;
    uint32_t serial = 0;
    std::string path, interface, member, sender, destination;
    bool replyExpected = false;
    std::vector<Val> args;
    std::string unreadable;
};

struct Client {
    std::string unique;
    std::string kind;
    // on a thread of the client
    std::function<void(const Got&, const std::string& via)> onGot;
    virtual ~Client() {}
    virtual void call(const std::string& dest, const std::string& path, const std::string& iface, const std::string& member, const std::vector<Val>& args, bool reply, OnAnswer done) = 0;
    virtual void signal(const std::string& dest, const std::string& path, const std::string& iface, const std::string& member, const std::vector<Val>& args) = 0;
    virtual void addMatch(const std::string& rule, OnAnswer done) = 0;
    virtual void removeMatch(const std::string& rule) = 0;
    // Calls of the bus' own methods
    virtual void ask(const std::string& method, const std::vector<Val>& args, OnAnswer done)
    {
        call(DAEMON, "/org/freedesktop/DBus", DAEMON, method, args, true, std::move(done));
    }
    virtual bool constructibleOnly() const { return false; }
    // accept calls and signals
    virtual void serve() = 0;
    Answer wait(const std::function<void(OnAnswer)>& f)
    {
        auto p = std::make_shared<std::promise<Answer>>();
        auto fut = p->get_future();
        auto once = std::make_shared<std::atomic<unsigned>>(0);
        f([p, once](const Answer& a) {
            if ((*once)++)
                R.violation("answered-twice", "a call was answered twice, then by " + a.show());
            else
                p->set_value(a);
        });
        if (fut.wait_for(std::chrono::seconds(PATIENCE)) != std::future_status::ready)
            return Answer();
        return fut.get();
    }
    Answer askNow(const std::string& method, const std::vector<Val>& args = {})
    {
        return wait([&](OnAnswer d) { ask(method, args, d); });
    }
};

// By the library under test
struct Own : Client {
    std::unique_ptr<DBus::Native> n;

    static Answer answer(const M::MethodReturn& m)
    {
        const Seen s = bridge::seen(m);
        return { RETURN, s.args, s.sender, "", s.unreadable };
    }
    static Answer answer(const M::Error& m)
    {
        const Seen s = bridge::seen(m);
        return { ERROR, s.args, s.sender, s.errorText, s.unreadable };
    }
    template <class Msg>
    static Got got(const Msg& m)
    {
        const Seen s = bridge::seen(m);
        return { s.kind, s.serial, s.path, s.interface, s.member, s.sender, s.destination, s.replyExpected, s.args, s.unreadable };
    }
    explicit Own(Rng& r)
    {
        kind = "own";
        Bus& b = bus();
        const unsigned how = r.below(4);
        std::string address = b.path;
        if (how == 1)
            address = DBus::Platform::getSessionBus((b.address + (r.chance(1, 2) ? ",guid=0123456789abcdef0123456789abcdef" : "")).c_str());
        else if (how > 1) {
            setenv(how == 2 ? "DBUS_SESSION_BUS_ADDRESS" : "DBUS_SYSTEM_BUS_ADDRESS", b.address.c_str(), 1);
            address = how == 2 ? DBus::Platform::getSessionBus() : DBus::Platform::getSystemBus();
        }
        n.reset(new DBus::Native(address));
        const bool fds = r.chance(1, 3);
        n->BeginAuth(fds ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        const Answer a = wait([&](OnAnswer d) {
            n->callHello([d](const M::MethodReturn& m) { d(answer(m)); }, [d](const M::Error& m) { d(answer(m)); });
        });
        if (a.kind != RETURN || a.args.size() != 1 || a.args[0].t != 's' || a.args[0].s.compare(0, 1, ":"))
            giveUp("hello", "no unique name after connecting to " + address + ": " + a.show());
        unique = a.args[0].s;
    }
    M::MethodCallParametersIn params(const std::vector<Val>& args)
    {
        M::MethodCallParametersIn p;
        for (auto& v : args)
            p.add(bridge::toLib(v));
        return p;
    }
    void call(const std::string& dest, const std::string& path, const std::string& iface, const std::string& member, const std::vector<Val>& args, bool reply, OnAnswer done) override
    {
        M::MethodCall m(Id(path, iface, member), params(args), reply ? 0 : M::Header::FLAGS_NO_REPLY_EXPECTED);
        n->sendMethodCall(dest, m, [done](const M::MethodReturn& x) { done(answer(x)); }, [done](const M::Error& x) { done(answer(x)); });
    }
    void signal(const std::string& dest, const std::string& path, const std::string& iface, const std::string& member, const std::vector<Val>& args) override
    {
        M::Signal s(Id(path, iface, member));
        for (auto& v : args)
            s.addParameter(bridge::toLib(v));
        if (dest.empty())
            n->broadcastSignal(s);
        else
            n->sendSignal(dest, s);
    }
    void addMatch(const std::string& rule, OnAnswer done) override
    {
        n->callAddMatch(rule, [done](const M::MethodReturn& x) { done(answer(x)); }, [done](const M::Error& x) { done(answer(x)); },
            [this, rule](const M::Signal& s) { onGot(got(s), rule); });
    }
    void removeMatch(const std::string& rule) override { n->callRemoveMatch(rule); }
    void ask(const std::string& method, const std::vector<Val>& a, OnAnswer d) override
    {
        auto ok = [d](const M::MethodReturn& m) { d(answer(m)); };
        auto bad = [d](const M::Error& m) { d(answer(m)); };
        if (method == "Hello")
            n->callHello(ok, bad);
        else if (method == "GetConnectionUnixProcessID")
            n->callGetUnixProcessId(a.at(0).s, ok, bad);
        else if (method == "GetConnectionUnixUser")
            n->callGetConnectionUnixUser(a.at(0).s, ok, bad);
        else if (method == "RequestName")
            n->callRequestName(a.at(0).s, a.at(1).u, ok, bad);
        else if (method == "ReleaseName")
            n->callReleaseName(a.at(0).s, ok, bad);
        else if (method == "ListQueuedOwners")
            n->callListQueuedOwners(a.at(0).s, ok, bad);
        else if (method == "ListNames")
            n->callListNames(ok, bad);
        else if (method == "ListActivatableNames")
            n->callListActivatableNames(ok, bad);
        else if (method == "NameHasOwner")
            n->callNameHasOwner(a.at(0).s, ok, bad);
        else
            Client::ask(method, a, d);
    }
    bool constructibleOnly() const override { return true; }
    void serve() override
    {
        n->registerMethodCallHandler("v.Echo.Return", [this](const M::MethodCall& m) {
            onGot(got(m), "");
            if (!m.isReplyExpected())
                return;
            M::MethodReturn x(m.getSerial());
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                x.addParameter(m.getParameter(i));
            n->sendMethodReturn(m.getHeaderSender(), x);
        });
        n->registerMethodCallHandler("v.Echo.Fail", [this](const M::MethodCall& m) {
            const Got g = got(m);
            onGot(g, "");
            if (m.isReplyExpected())
                n->sendError(g.sender, M::Error(m.getSerial(), "v.Error.Asked", g.args.at(1).s));
        });
        n->registerSignalHandler("v.Direct.Sig", [this](const M::Signal& m) { onGot(got(m), ""); });
    }
};

// By libdbus
struct Other : Client {
    std::unique_ptr<dbl::Client> c;
    std::mutex m;
    std::map<uint32_t, OnAnswer> pending;
    std::map<uint32_t, Msg> early;
    bool serving = false;
    std::atomic<bool> ready { false };

    Other()
    {
        kind = "other";
        std::string error;
        c = dbl::client(bus().address, [this](const Msg& x) { handle(x); }, error);
        if (!c) {
            fprintf(stderr, "libdbus: %s\n", error.c_str());
            _exit(3);
        }
        unique = c->unique;
        ready = true;
    }
    void handle(const Msg& x)
    {
        while (!ready)
            faults::pause(100);
        if (x.type == RETURN || x.type == ERROR) {
            OnAnswer f;
            {
                std::lock_guard<std::mutex> l(m);
                auto it = pending.find(x.field(F_REPLY_SERIAL)->u);
                if (it == pending.end()) {
                    // to what was sent, but not yet noted; or not to be answered
                    early[x.field(F_REPLY_SERIAL)->u] = x;
                    return;
                }
                f = std::move(it->second);
                pending.erase(it);
            }
            f({ x.type, x.body, x.text(F_SENDER), x.body.empty() ? "" : x.body[0].s, "" });
            return;
        }
        const Got g { x.type, x.serial, x.text(F_PATH), x.text(F_INTERFACE), x.text(F_MEMBER), x.text(F_SENDER), x.text(F_DESTINATION), !(x.flags & 1), x.body, "" };
        if (onGot)
            onGot(g, "");
        if (x.type == CALL && serving && !(x.flags & 1)) {
            const bool fail = g.member == "Fail";
            Msg a;
            a.type = fail ? ERROR : RETURN;
            a.flags = 1;
            a.set(F_REPLY_SERIAL, num('u', x.serial));
            a.set(F_DESTINATION, str(g.sender));
            if (fail) {
                a.set(F_ERROR_NAME, str("v.Error.Asked"));
                a.body = { g.args.at(1) };
            } else
                a.body = x.body;
            c->send(a);
        }
    }
    void call(const std::string& dest, const std::string& path, const std::string& iface, const std::string& member, const std::vector<Val>& args, bool reply, OnAnswer done) override
    {
        Msg x;
        x.type = CALL;
        x.flags = reply ? 0 : 1;
        x.set(F_PATH, str(path, 'o'));
        x.set(F_INTERFACE, str(iface));
        x.set(F_MEMBER, str(member));
        x.set(F_DESTINATION, str(dest));
        x.body = args;
        std::lock_guard<std::mutex> l(m);
        const uint32_t s = c->send(x);
        if (reply)
            pending[s] = std::move(done);
    }
    void signal(const std::string& dest, const std::string& path, const std::string& iface, const std::string& member, const std::vector<Val>& args) override
    {
        Msg x;
        x.type = SIGNAL;
        x.flags = 1;
        x.set(F_PATH, str(path, 'o'));
        x.set(F_INTERFACE, str(iface));
        x.set(F_MEMBER, str(member));
        if (!dest.empty())
            x.set(F_DESTINATION, str(dest));
        x.body = args;
        c->send(x);
    }
    void addMatch(const std::string& rule, OnAnswer done) override { ask("AddMatch", { str(rule) }, done); }
    void removeMatch(const std::string& rule) override
    {
        wait([&](OnAnswer d) { ask("RemoveMatch", { str(rule) }, d); });
    }
    void serve() override { serving = true; }
};

std::string nameOf(const Val& v) { return v.s; }

// Everything that was sent from one to the other before has been handled
void fence(Client& from, Client& to)
{
    std::vector<Val> a { num('u', 0xffffffff) };
    const Answer x = from.wait([&](OnAnswer d) { from.call(to.unique, "/v", "v.Echo", "Return", a, true, d); });
    if (x.kind != RETURN)
        giveUp("fence", "a call from " + from.kind + " to " + to.kind + " was answered by " + x.show());
}

//--------------------------------------------------------------------------- a model of the names

struct Names {
    struct Owner {
        std::string who;
        uint32_t flags;
    };
    std::map<std::string, std::vector<Owner>> q;
    std::vector<std::vector<std::string>> changes; // name, old, new
    void changed(const std::string& name, const std::string& before)
    {
        const std::string now = q[name].empty() ? "" : q[name][0].who;
        if (now != before)
            changes.push_back({ name, before, now });
        if (q[name].empty())
            q.erase(name);
    }
    std::string owner(const std::string& name) { return q.count(name) ? q[name][0].who : ""; }
    unsigned request(const std::string& name, const std::string& who, uint32_t f)
    {
        const std::string before = owner(name);
        auto& o = q[name];
        if (o.empty()) {
            o.push_back({ who, f });
            changed(name, before);
            return 1;
        }
        if (o[0].who == who) {
            o[0].flags = f;
            return 4;
        }
        const bool takes = (f & 2) && (o[0].flags & 1);
        auto me = std::find_if(o.begin(), o.end(), [&](const Owner& x) { return x.who == who; });
        if (!takes && (f & 4)) {
            if (me != o.end())
                o.erase(me);
            return 3;
        }
        if (me != o.end() && (f & 2))
            o.erase(me), me = o.end();
        if (!takes) {
            if (me != o.end())
                me->flags = f;
            else if (f & 2)
                o.insert(o.begin() + 1, { who, f });
            else
                o.push_back({ who, f });
            return 2;
        }
        if (me != o.end())
            o.erase(me);
        if (o[0].flags & 4)
            o.erase(o.begin());
        o.insert(o.begin(), { who, f });
        changed(name, before);
        return 1;
    }
    unsigned release(const std::string& name, const std::string& who)
    {
        if (!q.count(name))
            return 2;
        auto& o = q[name];
        auto me = std::find_if(o.begin(), o.end(), [&](const Owner& x) { return x.who == who; });
        if (me == o.end())
            return 3;
        const std::string before = owner(name);
        o.erase(me);
        changed(name, before);
        return 1;
    }
};
}

// Random operations on the bus, by several clients, against a model and against libdbus
PART(C22, names)
{
    faultsFor(r);
    Bus& b = bus();
    (void)b;
    std::mutex m;
    std::vector<std::vector<std::string>> seenByOther, seenByOwn;
    Other watcher;
    auto record = [&](std::vector<std::vector<std::string>>& to) {
        return [&](const Got& g, const std::string&) {
            if (g.kind != SIGNAL || g.member != "NameOwnerChanged" || g.sender != DAEMON)
                return;
            std::lock_guard<std::mutex> l(m);
            std::vector<std::string> c;
            for (auto& v : g.args)
                c.push_back(v.s);
            if (c.size() == 3 && c[0].compare(0, 1, ":"))
                to.push_back(c);
            if (!g.unreadable.empty())
                R.violation("unreadable", g.unreadable);
        };
    };
    watcher.onGot = record(seenByOther);
    const std::string rule = "type='signal',sender='org.freedesktop.DBus',interface='org.freedesktop.DBus',member='NameOwnerChanged'";
    std::vector<std::unique_ptr<Client>> cs;
    for (unsigned i = r.range(1, 3); i; --i)
        cs.emplace_back(new Own(r));
    cs[0]->onGot = record(seenByOwn);
    for (Client* c : { (Client*)&watcher, cs[0].get() }) {
        const Answer a = c->wait([&](OnAnswer d) { c->addMatch(rule, d); });
        if (a.kind != RETURN)
            giveUp("add-match", "the bus answered AddMatch by " + a.show());
    }
    if (r.chance(1, 2))
        cs.emplace_back(new Other);
    Names model;
    static std::atomic<unsigned> counter { 0 };
    const std::string prefix = "v.n" + std::to_string(counter++) + ".x";
    const unsigned names = r.range(1, 3);
    uint64_t h = 0;
    std::string history;
    unsigned ownOps = 0;
    for (unsigned i = r.range(5, 25); i; --i) {
        const size_t k = r.below(cs.size());
        Client& c = *cs[k];
        const std::string name = prefix + std::to_string(r.below(names));
        const unsigned op = r.below(14);
        std::string method;
        std::vector<Val> args, want;
        int wantKind = RETURN;
        bool likeOther = false, sorted = false;
        switch (op) {
        case 0:
        case 1:
        case 2:
        case 3: {
            const uint32_t f = r.below(8);
            method = "RequestName";
            args = { str(name), num('u', f) };
            want = { num('u', model.request(name, c.unique, f)) };
            break;
        }
        case 4:
        case 5:
            method = "ReleaseName";
            args = { str(name) };
            want = { num('u', model.release(name, c.unique)) };
            break;
        case 6:
            method = "NameHasOwner";
            args = { str(r.chance(1, 4) ? r.pick(cs)->unique : r.chance(1, 8) ? std::string(DAEMON) : name) };
            want = { num('b', args[0].s != name || !model.owner(name).empty()) };
            break;
        case 7: {
            method = "ListQueuedOwners";
            args = { str(name) };
            likeOther = true;
            if (model.q.count(name)) {
                std::vector<Val> o;
                for (auto& x : model.q[name])
                    o.push_back(str(x.who));
                want = { array("s", o) };
            } else
                wantKind = ERROR;
            break;
        }
        case 8:
            method = "ListNames";
            likeOther = sorted = true;
            break;
        case 9:
            method = "ListActivatableNames";
            likeOther = sorted = true;
            break;
        case 10:
            method = r.chance(1, 2) ? "GetConnectionUnixProcessID" : "GetConnectionUnixUser";
            args = { str(r.chance(1, 2) ? r.pick(cs)->unique : name) };
            if (args[0].s == name && model.owner(name).empty())
                wantKind = ERROR;
            else
                want = { num('u', method == "GetConnectionUnixUser" ? getuid() : getpid()) };
            likeOther = true;
            break;
        case 11:
            // what the bus refuses
            method = r.pick(std::vector<std::string> { "RequestName", "ReleaseName", "NameHasOwner", "ListQueuedOwners", "GetConnectionUnixUser" });
            args = { str(r.pick(std::vector<std::string> { "", "nodots", ":1.9999", "a..b", "org.freedesktop.DBus", "v.1a" })) };
            if (method == "RequestName")
                args.push_back(num('u', 0));
            likeOther = true;
            wantKind = 0;
            break;
        case 12: {
            // one leaves, another one comes
            if (k == 0)
                continue;
            const std::string who = c.unique;
            history += who + " leaves; ";
            cs[k].reset();
            for (auto& q : std::map<std::string, std::vector<Names::Owner>>(model.q))
                model.release(q.first, who);
            // the bus has noticed
            for (unsigned t = 0;; ++t) {
                const Answer a = watcher.askNow("NameHasOwner", { str(who) });
                if (a.kind == RETURN && !a.args.empty() && !a.args[0].u)
                    break;
                if (t > 4000)
                    giveUp("leave", "a destroyed client is still on the bus");
                faults::pause(t < 100 ? 200 : 10000);
            }
            if (r.chance(1, 2))
                cs[k].reset(new Own(r));
            else
                cs[k].reset(new Other);
            continue;
        }
        default:
            method = "Hello";
            likeOther = true;
            wantKind = ERROR;
        }
        if (c.kind == "own")
            ++ownOps;
        const Answer a = c.askNow(method, args);
        history += c.unique + " " + method + ref::show(args) + " -> " + a.show() + "; ";
        h = hashStr(c.kind + method + (wantKind == RETURN && !want.empty() ? ref::show(want) : ""), h);
        const std::string where = c.kind + " client: " + method + ref::show(args) + " was answered by " + a.show();
        if (!a.kind)
            giveUp("no-answer", where + " after " + history);
        if (!a.unreadable.empty())
            R.violation("unreadable", where + ": " + a.unreadable);
        if (a.sender != DAEMON)
            R.violation("sender", where + " from '" + a.sender + "'");
        if (wantKind && a.kind != wantKind)
            R.violation("answer", where + ", which the model does not expect, after " + history);
        else if (!want.empty() && !same(a.args, want))
            R.violation("answer", where + " instead of " + ref::show(want) + " after " + history);
        if (likeOther) {
            Answer o = watcher.askNow(method, args), mine = a;
            for (Answer* x : { &o, &mine })
                if (sorted && x->args.size() == 1)
                    std::sort(x->args[0].k.begin(), x->args[0].k.end(), [](const Val& p, const Val& q) { return nameOf(p) < nameOf(q); });
            // some texts name who asked
            auto anonymous = [](std::string& t, const std::string& who) {
                for (size_t p; (p = t.find("\"" + who + "\"")) != std::string::npos;)
                    t.replace(p, who.size() + 2, "ME");
            };
            anonymous(mine.errorText, c.unique);
            anonymous(o.errorText, watcher.unique);
            if (o.kind == ERROR && mine.kind == ERROR)
                o.args = mine.args = {};
            if (mine.kind != o.kind || mine.errorText != o.errorText || !same(mine.args, o.args))
                R.violation("other", where + ", but to libdbus by " + o.show() + " " + o.errorText);
            R.add("compared_with_libdbus");
        }
        R.add("op: " + method);
    }
    // nobody was disconnected
    for (auto& c : cs) {
        const Answer a = watcher.askNow("NameHasOwner", { str(c->unique) });
        if (a.kind != RETURN || !a.args.at(0).u)
            R.violation("disconnected", "the " + c->kind + " client " + c->unique + " is not on the bus any more, after " + history);
    }
    // both have seen all the changes: the bus sends them before it answers
    watcher.askNow("GetId");
    cs[0]->askNow("GetId");
    {
        std::lock_guard<std::mutex> l(m);
        auto text = [](const std::vector<std::vector<std::string>>& v) {
            std::string s;
            for (auto& c : v)
                s += c[0] + ":" + c[1] + ">" + c[2] + " ";
            return s;
        };
        std::vector<std::vector<std::string>> mine, theirs;
        for (auto& c : seenByOwn)
            if (c[0].compare(0, prefix.size(), prefix) == 0)
                mine.push_back(c);
        for (auto& c : seenByOther)
            if (c[0].compare(0, prefix.size(), prefix) == 0)
                theirs.push_back(c);
        if (mine != theirs)
            R.violation("changes", "changes of owners seen: " + text(mine) + "; by libdbus: " + text(theirs) + " after " + history);
        // in which order the bus takes the names of one that leaves is its own affair
        auto byName = [](std::vector<std::vector<std::string>> v) {
            std::stable_sort(v.begin(), v.end(), [](const std::vector<std::string>& x, const std::vector<std::string>& y) { return x[0] < y[0]; });
            return v;
        };
        if (byName(theirs) != byName(model.changes))
            R.violation("changes", "changes of owners: " + text(theirs) + "; expected: " + text(model.changes) + " after " + history);
        R.add("owner_changes_seen", mine.size());
    }
    cs.clear();
    R.eval(h, ownOps > 1);
    R.sample(history);
    countFaults();
}

namespace {
struct Sent {
    int kind;
    size_t from, to; // to: of clients.size() to all
    std::string path, interface, member;
    std::vector<Val> args;
    bool reply = false;
    unsigned answers = 0;
    Answer answer;
};

void exchange(Rng& r, bool large)
{
    faultsFor(r);
    bus();
    std::vector<std::unique_ptr<Client>> cs;
    std::vector<std::string> receivedIds;
    const unsigned own = r.range(1, 3), other = own == 1 ? r.range(1, 2) : r.below(3);
    for (unsigned i = 0; i < own; ++i)
        cs.emplace_back(new Own(r));
    for (unsigned i = 0; i < other; ++i)
        cs.emplace_back(new Other);
    r.shuffle(cs);

    // plan
    std::vector<std::vector<Sent>> plan(cs.size());
    uint32_t id = 0;
    std::vector<std::pair<size_t, size_t>> byId; // id -> where in the plan
    static const std::vector<std::string> ifaces = { "v.Sig.A", "v.Sig.B" };
    for (size_t i = 0; i < cs.size(); ++i)
        for (unsigned k = large ? r.range(1, 2) : r.range(1, 12); k; --k) {
            Sent s;
            Gen g(r);
            g.constructible = cs[i]->constructibleOnly();
            g.budget = large ? 40 : 120;
            s.from = i;
            s.to = r.below(cs.size());
            s.path = r.chance(1, 2) ? g.path() : "/v";
            const unsigned what = r.below(10);
            s.kind = what < 6 ? CALL : SIGNAL;
            s.reply = s.kind == CALL && !r.chance(1, 5);
            s.interface = s.kind == CALL ? "v.Echo" : what < 8 ? "v.Direct" : r.pick(ifaces);
            if (s.kind == SIGNAL && what >= 8)
                s.to = cs.size();
            s.member = s.kind == SIGNAL ? "Sig" : r.chance(1, 4) ? "Fail" : "Return";
            s.args = { num('u', id++) };
            if (s.member == "Fail")
                s.args.push_back(str(g.text(g.length())));
            for (auto& v : g.args(6))
                s.args.push_back(v);
            while (sigOf(s.args).size() > 240)
                s.args.pop_back();
            if (large) {
                if (r.chance(1, 2))
                    s.args.push_back(str(std::string(r.range(1 << 16, 3 << 20), 'L')));
                else {
                    std::vector<Val> v(r.range(1 << 13, 1 << 17), num('u', 7));
                    for (auto& x : v)
                        x.u = r.next() & 0xffffffff;
                    s.args.push_back(array("u", v));
                }
            }
            byId.push_back({ i, plan[i].size() });
            plan[i].push_back(std::move(s));
        }
    // what arrived, in order, by client
    struct Arrived {
        uint32_t id;
        std::string via, wrong;
    };
    std::mutex m;
    std::condition_variable cv;
    std::vector<std::vector<Arrived>> arrived(cs.size());
    unsigned strange = 0;
    std::string strangeText;
    for (size_t i = 0; i < cs.size(); ++i) {
        cs[i]->onGot = [&, i](const Got& g, const std::string& via) {
            if (g.sender == DAEMON || g.args.empty() || g.args[0].t != 'u') {
                if (g.sender != DAEMON) {
                    std::lock_guard<std::mutex> l(m);
                    ++strange;
                    strangeText = g.interface + "." + g.member + ref::show(g.args) + g.unreadable;
                }
                return;
            }
            if (g.args[0].u == 0xffffffff)
                return;
            Arrived a { (uint32_t)g.args[0].u, via, "" };
            if (a.id < byId.size()) {
                const Sent& s = plan[byId[a.id].first][byId[a.id].second];
                if (!g.unreadable.empty())
                    a.wrong = g.unreadable;
                else if (g.kind != s.kind || g.path != s.path || g.interface != s.interface || g.member != s.member)
                    a.wrong = "it is " + std::to_string(g.kind) + " " + g.path + " " + g.interface + "." + g.member + ", not " + s.path + " " + s.interface + "." + s.member;
                else if (g.sender != cs[s.from]->unique)
                    a.wrong = "its sender is '" + g.sender + "', not " + cs[s.from]->unique;
                else if (s.to < cs.size() && g.destination != cs[s.to]->unique)
                    a.wrong = "its destination is '" + g.destination + "', not " + cs[s.to]->unique;
                else if (g.kind == CALL && g.replyExpected != s.reply)
                    a.wrong = "whether a reply is expected differs";
                else if (!same(g.args, s.args, true))
                    a.wrong = "its arguments are " + ref::show(g.args) + ", not " + ref::show(s.args);
            }
            std::lock_guard<std::mutex> l(m);
            arrived[i].push_back(a);
        };
    }
    // who wants which signals
    std::vector<std::map<std::string, bool>> rules(cs.size());
    for (size_t i = 0; i < cs.size(); ++i) {
        cs[i]->serve();
        for (auto& f : ifaces)
            if (r.chance(2, 3))
                rules[i]["type='signal',interface='" + f + "'"] = true;
        if (cs[i]->kind == "own" && r.chance(1, 3))
            rules[i]["type='signal',member='Sig',path_namespace='/'"] = true;
        for (auto& x : rules[i]) {
            const Answer a = cs[i]->wait([&](OnAnswer d) { cs[i]->addMatch(x.first, d); });
            if (a.kind != RETURN)
                giveUp("add-match", "the bus answered AddMatch by " + a.show());
        }
    }
    unsigned pending = 0;
    for (auto& p : plan)
        for (auto& s : p)
            pending += s.reply;
    {
        std::vector<std::thread> ts;
        for (size_t i = 0; i < cs.size(); ++i)
            ts.emplace_back([&, i, seed = r.next()] {
                Rng q(seed);
                for (auto& s : plan[i]) {
                    if (q.chance(1, 5))
                        faults::pause(q.below(300));
                    try {
                        if (s.kind == CALL)
                            cs[i]->call(cs[s.to]->unique, s.path, s.interface, s.member, s.args, s.reply, [&](const Answer& a) {
                                std::lock_guard<std::mutex> l(m);
                                if (!s.answers++)
                                    s.answer = a;
                                if (s.reply)
                                    --pending;
                                cv.notify_all();
                            });
                        else
                            cs[i]->signal(s.to < cs.size() ? cs[s.to]->unique : "", s.path, s.interface, s.member, s.args);
                    } catch (const std::exception& e) {
                        R.violation("refused", std::string("sending threw ") + e.what() + ": " + ref::show(s.args));
                    }
                }
            });
        for (auto& t : ts)
            t.join();
    }
    auto describe = [&](const Sent& s) {
        return std::string(s.kind == CALL ? "a call" : "a signal") + " from " + cs[s.from]->kind + " to " + (s.to < cs.size() ? cs[s.to]->kind : "all") + " " + s.interface + "." + s.member + " " + ref::show(s.args);
    };
    {
        std::unique_lock<std::mutex> l(m);
        if (!cv.wait_for(l, std::chrono::seconds(PATIENCE), [&] { return pending == 0; })) {
            for (auto& p : plan)
                for (auto& s : p)
                    if (s.reply && !s.answers) {
                        l.unlock();
                        giveUp("no-answer", "never answered: " + describe(s));
                    }
        }
    }
    for (auto& a : cs)
        for (auto& b : cs)
            fence(*a, *b);
    std::unique_lock<std::mutex> l(m);
    R.check(!strange, "strange", "something else arrived: " + strangeText);
    uint64_t h = cs.size();
    unsigned mixed = 0;
    for (auto& p : plan)
        for (auto& s : p) {
            h = hashStr(cs[s.from]->kind + (s.to < cs.size() ? cs[s.to]->kind : "all") + s.member + ref::show(s.args), h);
            const bool between = cs[s.from]->kind == "own" || (s.to < cs.size() && cs[s.to]->kind == "own");
            mixed += between;
            if (s.kind == CALL) {
                R.check(s.answers == (s.reply ? 1 : 0), "answers", describe(s) + " got " + std::to_string(s.answers) + " answers");
                if (s.answers) {
                    const Answer& a = s.answer;
                    const bool fail = s.member == "Fail";
                    if (!a.unreadable.empty() || a.kind != (fail ? ERROR : RETURN) || a.sender != cs[s.to]->unique
                        || (fail ? a.errorText != s.args[1].s : !same(a.args, s.args, true)))
                        R.violation("answer", describe(s) + " was answered by " + a.show() + " from '" + a.sender + "' " + a.unreadable);
                }
            }
        }
    uint64_t deliveries = 0;
    for (size_t i = 0; i < cs.size(); ++i) {
        std::map<std::pair<uint32_t, std::string>, unsigned> times;
        std::map<std::pair<size_t, std::string>, uint32_t> last;
        for (auto& a : arrived[i]) {
            if (a.id >= byId.size()) {
                R.violation("unknown", "a message that nobody sent");
                continue;
            }
            const Sent& s = plan[byId[a.id].first][byId[a.id].second];
            if (!a.wrong.empty())
                R.violation("changed", describe(s) + " arrived at " + cs[i]->kind + ", but " + a.wrong);
            ++times[{ a.id, a.via }];
            ++deliveries;
            auto& x = last[{ s.from, a.via }];
            R.check(x <= a.id, "order", describe(s) + " arrived at " + cs[i]->kind + " after a later one");
            x = a.id;
        }
        for (auto& p : plan)
            for (auto& s : p) {
                const uint32_t n = s.args[0].u;
                auto count = [&](const std::string& via) { return times.count({ n, via }) ? times[{ n, via }] : 0; };
                if (s.to < cs.size()) {
                    R.check(count("") == (s.to == i ? 1 : 0), "once", describe(s) + " arrived " + std::to_string(count("")) + " times at " + (s.to == i ? "its" : "another") + " client, " + cs[i]->kind);
                    if (s.kind == SIGNAL && s.to == i && cs[i]->kind == "own")
                        for (auto& x : rules[i]) {
                            const bool yes = x.first.find("namespace") != std::string::npos;
                            R.check(count(x.first) == (yes ? 1 : 0), "rule", describe(s) + " ran the handler of " + x.first + " " + std::to_string(count(x.first)) + " times");
                        }
                    continue;
                }
                bool any = false;
                for (auto& x : rules[i]) {
                    const bool yes = x.first.find("namespace") != std::string::npos || x.first.find("'" + s.interface + "'") != std::string::npos;
                    any = any || yes;
                    if (cs[i]->kind == "own")
                        R.check(count(x.first) == (yes ? 1 : 0), "rule", describe(s) + " ran the handler of " + x.first + " " + std::to_string(count(x.first)) + " times");
                }
                if (cs[i]->kind == "other")
                    R.check(count("") == (any ? 1 : 0), "other", describe(s) + " arrived at libdbus " + std::to_string(count("")) + " times");
            }
    }
    l.unlock();
    for (auto& c : cs) {
        const Answer a = cs[0]->askNow("NameHasOwner", { str(c->unique) });
        R.check(a.kind == RETURN && a.args.size() == 1 && a.args[0].u, "disconnected", "the " + c->kind + " client is not on the bus any more");
    }
    R.add("messages", byId.size());
    R.add("deliveries", deliveries);
    R.eval(h, mixed > 0);
    if (R.samples.size() < 3 && !plan[0].empty())
        R.sample(describe(plan[0][0]));
    cs.clear();
    countFaults();
}
}

PART(C22, exchange) { exchange(r, false); }
PART(C22, large) { exchange(r, true); }

// The same rule, decided by the bus for libdbus and by the library for itself
PART(C22, rules)
{
    faultsFor(r);
    bus();
    std::mutex m;
    std::multiset<uint32_t> byAll, byPlain, byOther;
    bool refused = false;
    Own all(r), plain(r);
    Other other, emitter;
    auto into = [&](std::multiset<uint32_t>& s, bool ruled) {
        return [&, ruled](const Got& g, const std::string& via) {
            if (g.kind == SIGNAL && g.sender != DAEMON && !g.args.empty() && (!ruled || via != "")) {
                std::lock_guard<std::mutex> l(m);
                s.insert(g.args[0].u);
            }
        };
    };
    all.onGot = [&, f = into(byAll, true)](const Got& g, const std::string& via) {
        // not by the rule that wants everything
        if (!via.empty())
            f(g, via);
    };
    plain.onGot = into(byPlain, true);
    other.onGot = into(byOther, false);
    // what `all` gets from the bus is everything, so its own rules decide
    all.n->callAddMatch("", [](const M::MethodReturn&) {}, [&](const M::Error&) { refused = true; }, [](const M::Signal&) {});
    for (Client* c : { (Client*)&all, (Client*)&plain, (Client*)&other })
        c->serve();
    const std::vector<std::string> senders = { emitter.unique, all.unique, emitter.unique + "0" };
    uint64_t h = 0;
    unsigned matched = 0, total = 0;
    uint32_t id = 1;
    for (unsigned round = r.range(2, 5); round; --round) {
        const Rule u = anyRule(r, senders, false);
        if (u.text.empty())
            continue;
        bool ok = true;
        for (Client* c : { (Client*)&all, (Client*)&plain, (Client*)&other }) {
            const Answer a = c->wait([&](OnAnswer d) {
                try {
                    c->addMatch(u.text, d);
                } catch (const std::exception& e) {
                    R.violation("refused", "the rule {" + u.text + "} was refused: " + e.what());
                    d(Answer());
                }
            });
            if (a.kind != RETURN) {
                R.violation(c->kind == "own" ? "refused" : "harness rule", "AddMatch {" + u.text + "} was answered by " + a.show());
                ok = false;
            }
        }
        if (!ok)
            break;
        {
            std::lock_guard<std::mutex> l(m);
            byAll.clear(), byPlain.clear(), byOther.clear();
        }
        std::vector<std::pair<uint32_t, std::string>> sent;
        for (unsigned i = r.range(4, 12); i; --i) {
            const std::string p = r.pick(PATHS), f = r.pick(INTERFACES), n = r.pick(MEMBERS);
            sent.push_back({ id, p + " " + f + "." + n });
            emitter.signal("", p, f, n, { num('u', id++) });
        }
        for (Client* c : { (Client*)&all, (Client*)&plain, (Client*)&other })
            fence(emitter, *c);
        std::lock_guard<std::mutex> l(m);
        for (auto& s : sent) {
            const unsigned o = byOther.count(s.first), a = byAll.count(s.first), p = byPlain.count(s.first);
            if (o > 1)
                R.violation("harness other", "libdbus got a signal twice");
            R.check(a == o, "rule", "the bus finds that {" + u.text + "} " + (o ? "matches " : "does not match ") + s.second + " from " + emitter.unique + ", the library ran its handler " + std::to_string(a) + " times");
            R.check(p == o, "rule", "the signal " + s.second + ", which {" + u.text + "} " + (o ? "matches" : "does not match") + ", ran its handler " + std::to_string(p) + " times");
            matched += o;
            ++total;
        }
        h = hashStr(u.text, h);
        for (Client* c : { (Client*)&all, (Client*)&plain, (Client*)&other })
            c->removeMatch(u.text);
    }
    R.check(!refused, "refused", "the bus refused an empty rule");
    R.add("signals", total);
    R.add("signals_matched", matched);
    R.eval(h, matched > 0 && matched < total);
    countFaults();
}

// dbus-send as the other client
PART(C22, tool)
{
    faultsFor(r);
    Bus& b = bus();
    std::mutex m;
    std::vector<Got> got;
    Own c(r);
    c.onGot = [&](const Got& g, const std::string&) {
        if (g.sender == DAEMON)
            return;
        std::lock_guard<std::mutex> l(m);
        got.push_back(g);
    };
    c.serve();
    std::vector<std::string> arg;
    std::vector<Val> want;
    std::string text;
    Gen g(r);
    auto add = [&](const char* type, char t, const std::string& v, uint64_t u) {
        arg.push_back(std::string(type) + ":" + v);
        want.push_back(t == 's' || t == 'o' ? str(v, t) : num(t, u));
        // as dbus-send prints it
        text += std::string("   ") + (t == 'o' ? "object path" : t == 'b' ? "boolean" : type) + " " + (t == 's' || t == 'o' ? "\"" + v + "\"" : v) + "\n";
    };
    auto word = [&] {
        std::string s;
        for (unsigned i = r.below(30); i; --i)
            if (r.chance(1, 12))
                s += "\xc3\xa9";
            else
                s += "abcXYZ 019:,=\\/ "[r.below(16)];
        return s;
    };
    add("string", 's', word(), 0);
    for (unsigned i = r.below(7); i; --i)
        switch (r.below(9)) {
        case 0:
            add("string", 's', word(), 0);
            break;
        case 1: {
            const int32_t v = (int32_t)g.number('i');
            add("int32", 'i', std::to_string(v), (uint32_t)v);
            break;
        }
        case 2: {
            const uint32_t v = (uint32_t)g.number('u');
            add("uint32", 'u', std::to_string(v), v);
            break;
        }
        case 3: {
            const int16_t v = (int16_t)g.number('n');
            add("int16", 'n', std::to_string(v), (uint16_t)v);
            break;
        }
        case 4: {
            const int64_t v = (int64_t)g.number('x');
            add("int64", 'x', std::to_string(v), (uint64_t)v);
            break;
        }
        case 5: {
            const uint64_t v = g.number('t');
            add("uint64", 't', std::to_string(v), v);
            break;
        }
        case 6:
            add("objpath", 'o', g.path(), 0);
            break;
        case 7: {
            const unsigned v = r.below(2);
            add("boolean", 'b', v ? "true" : "false", v);
            break;
        }
        default: {
            const unsigned v = (uint8_t)g.number('y');
            add("byte", 'y', std::to_string(v), v);
        }
        }
    const unsigned how = r.below(3); // call, failing call, signal
    std::vector<std::string> cmd = { "dbus-send", "--bus=" + b.address, "--dest=" + c.unique };
    if (how < 2) {
        cmd.push_back("--print-reply");
        cmd.push_back("--reply-timeout=120000");
    } else
        cmd.push_back("--type=signal");
    const std::string path = g.path();
    cmd.push_back(path);
    cmd.push_back(how == 0 ? "v.Echo.Return" : how == 1 ? "v.Echo.Fail" : "v.Direct.Sig");
    if (how == 1) {
        arg.insert(arg.begin() + 1, "string:" + word());
        want.insert(want.begin() + 1, str(arg[1].substr(7)));
    }
    for (auto& a : arg)
        cmd.push_back(a);
    int out[2];
    if (pipe2(out, O_CLOEXEC))
        Bus::fail("pipe");
    std::vector<char*> av;
    for (auto& s : cmd)
        av.push_back(&s[0]);
    av.push_back(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        dup2(out[1], 1);
        dup2(out[1], 2);
        execvp(av[0], av.data());
        _exit(127);
    }
    close(out[1]);
    std::string printed;
    char buf[4096];
    ssize_t n;
    while ((n = read(out[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR))
        if (n > 0)
            printed.append(buf, n);
    close(out[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string line;
    for (auto& s : cmd)
        line += s + " ";
    if (how == 2) {
        // it may still be on its way
        for (unsigned i = 0; i < 4000; ++i) {
            {
                std::lock_guard<std::mutex> l(m);
                if (!got.empty())
                    break;
            }
            faults::pause(i < 100 ? 300 : 10000);
        }
    }
    std::unique_lock<std::mutex> l(m);
    R.check(got.size() == 1, "once", line + "arrived " + std::to_string(got.size()) + " times; it printed " + printed);
    if (got.size() == 1)
        R.check(got[0].path == path && same(got[0].args, want) && got[0].unreadable.empty(), "changed", line + "arrived as " + got[0].path + " " + ref::show(got[0].args) + " " + got[0].unreadable);
    l.unlock();
    if (how == 0) {
        const size_t nl = printed.find('\n');
        const std::string reply = nl == std::string::npos ? "" : printed.substr(nl + 1);
        std::string head = "sender=" + c.unique;
        R.check(WIFEXITED(st) && !WEXITSTATUS(st) && printed.compare(0, 13, "method return") == 0 && printed.find(head) < nl && reply == text, "printed", line + "printed " + printed + " instead of " + text);
    } else if (how == 1)
        R.check(WIFEXITED(st) && WEXITSTATUS(st) == 1 && printed == "Error v.Error.Asked: " + want[1].s + "\n", "printed", line + "printed " + printed);
    else
        R.check(WIFEXITED(st) && !WEXITSTATUS(st), "printed", line + "printed " + printed);
    R.eval(hashStr(line), true);
    R.sample(line);
    countFaults();
}
