// libdbus, the reference implementation, as a second and independent oracle. Separate from
// the programs, because the names of its macros are those of the library's include guards.
#include "dbuslib.h"
#include <dbus/dbus.h>
#include <poll.h>

namespace dbl {
using ref::Val;

static Val get(DBusMessageIter* it)
{
    Val v;
    int t = dbus_message_iter_get_arg_type(it);
    v.t = t == DBUS_TYPE_STRUCT ? '(' : t == DBUS_TYPE_DICT_ENTRY ? '{' : (char)t;
    switch (t) {
    case DBUS_TYPE_STRING:
    case DBUS_TYPE_OBJECT_PATH:
    case DBUS_TYPE_SIGNATURE: {
        const char* s = nullptr;
        dbus_message_iter_get_basic(it, &s);
        v.s = s;
        break;
    }
    case DBUS_TYPE_ARRAY:
    case DBUS_TYPE_STRUCT:
    case DBUS_TYPE_DICT_ENTRY:
    case DBUS_TYPE_VARIANT: {
        DBusMessageIter sub;
        dbus_message_iter_recurse(it, &sub);
        if (t == DBUS_TYPE_ARRAY) {
            char* s = dbus_message_iter_get_signature(it);
            v.sig = s + 1;
            dbus_free(s);
        } else if (t == DBUS_TYPE_VARIANT) {
            char* s = dbus_message_iter_get_signature(&sub);
            v.sig = s;
            dbus_free(s);
        }
        while (dbus_message_iter_get_arg_type(&sub) != DBUS_TYPE_INVALID) {
            v.k.push_back(get(&sub));
            dbus_message_iter_next(&sub);
        }
        break;
    }
    default: {
        DBusBasicValue b;
        memset(&b, 0, sizeof b);
        dbus_message_iter_get_basic(it, &b);
        switch (ref::sizeOf(v.t)) {
        case 1:
            v.u = b.byt;
            break;
        case 2:
            v.u = b.u16;
            break;
        case 4:
            v.u = v.t == 'b' ? (b.bool_val ? 1 : 0) : b.u32;
            break;
        default:
            v.u = b.u64;
        }
    }
    }
    return v;
}
static std::vector<Val> args(DBusMessage* m)
{
    std::vector<Val> r;
    DBusMessageIter it;
    if (dbus_message_iter_init(m, &it))
        do
            r.push_back(get(&it));
        while (dbus_message_iter_next(&it));
    return r;
}

static void put(DBusMessageIter* it, const Val& v)
{
    switch (v.t) {
    case 's':
    case 'o':
    case 'g': {
        const char* s = v.s.c_str();
        if (!dbus_message_iter_append_basic(it, v.t, &s))
            throw std::bad_alloc();
        break;
    }
    case 'a':
    case '(':
    case '{':
    case 'v': {
        DBusMessageIter sub;
        int t = v.t == '(' ? DBUS_TYPE_STRUCT : v.t == '{' ? DBUS_TYPE_DICT_ENTRY : v.t;
        dbus_message_iter_open_container(it, t, v.t == 'a' || v.t == 'v' ? v.sig.c_str() : nullptr, &sub);
        for (auto& c : v.k)
            put(&sub, c);
        dbus_message_iter_close_container(it, &sub);
        break;
    }
    default: {
        DBusBasicValue b;
        memset(&b, 0, sizeof b);
        switch (ref::sizeOf(v.t)) {
        case 1:
            b.byt = v.u;
            break;
        case 2:
            b.u16 = v.u;
            break;
        case 4:
            b.u32 = v.u;
            break;
        default:
            b.u64 = v.u;
        }
        dbus_message_iter_append_basic(it, v.t, &b);
    }
    }
}
static void put(DBusMessage* m, const std::vector<Val>& v)
{
    DBusMessageIter it;
    dbus_message_iter_init_append(m, &it);
    for (auto& x : v)
        put(&it, x);
}

// libdbus' opinion of a message: "" if it accepts it and finds the same
std::string judge(const std::string& bytes, const ref::Msg& want)
{
    DBusError e;
    dbus_error_init(&e);
    DBusMessage* m = dbus_message_demarshal(bytes.data(), bytes.size(), &e);
    if (!m) {
        std::string r = std::string("libdbus refuses it: ") + (e.message ? e.message : "?");
        dbus_error_free(&e);
        return r;
    }
    std::string d;
    auto f = [&](const char* n, const char* a, const std::string& b) {
        if (b != (a ? a : "") && d.empty())
            d = std::string("libdbus finds ") + n + " '" + (a ? a : "") + "' instead of '" + b + "'";
    };
    f("path", dbus_message_get_path(m), want.text(ref::F_PATH));
    f("interface", dbus_message_get_interface(m), want.text(ref::F_INTERFACE));
    f("member", dbus_message_get_member(m), want.text(ref::F_MEMBER));
    f("destination", dbus_message_get_destination(m), want.text(ref::F_DESTINATION));
    f("error name", dbus_message_get_error_name(m), want.text(ref::F_ERROR_NAME));
    f("signature", dbus_message_get_signature(m), sigOf(want.body));
    auto rs = want.field(ref::F_REPLY_SERIAL);
    if (dbus_message_get_reply_serial(m) != (rs ? rs->u : 0) && d.empty())
        d = "libdbus finds another reply serial";
    if (dbus_message_get_serial(m) != want.serial && d.empty())
        d = "libdbus finds another serial";
    if (dbus_message_get_type(m) != want.type && d.empty())
        d = "libdbus finds another type";
    if (!!dbus_message_get_no_reply(m) != !!(want.flags & 1) && d.empty())
        d = "libdbus finds other flags";
    if (!!dbus_message_get_auto_start(m) != !(want.flags & 2) && d.empty())
        d = "libdbus finds other flags";
    if (d.empty()) {
        auto a = args(m);
        if (!same(a, want.body))
            d = "libdbus finds arguments " + show(a) + " instead of " + show(want.body);
    }
    dbus_message_unref(m);
    return d;
}

static DBusMessage* make(const ref::Msg& m)
{
    DBusMessage* d = dbus_message_new(m.type);
    auto f = [&](int code, dbus_bool_t (*set)(DBusMessage*, const char*)) {
        if (m.field(code) && !set(d, m.text(code).c_str()))
            throw std::bad_alloc();
    };
    f(ref::F_PATH, dbus_message_set_path);
    f(ref::F_INTERFACE, dbus_message_set_interface);
    f(ref::F_MEMBER, dbus_message_set_member);
    f(ref::F_ERROR_NAME, dbus_message_set_error_name);
    f(ref::F_DESTINATION, dbus_message_set_destination);
    f(ref::F_SENDER, dbus_message_set_sender);
    if (m.field(ref::F_REPLY_SERIAL))
        dbus_message_set_reply_serial(d, m.field(ref::F_REPLY_SERIAL)->u);
    dbus_message_set_no_reply(d, m.flags & 1);
    dbus_message_set_auto_start(d, !(m.flags & 2));
    put(d, m.body);
    return d;
}

std::string build(const ref::Msg& m)
{
    DBusMessage* d = make(m);
    dbus_message_set_serial(d, m.serial);
    char* p = nullptr;
    int n = 0;
    dbus_message_marshal(d, &p, &n);
    std::string r(p, n);
    dbus_free(p);
    dbus_message_unref(d);
    return r;
}

static ref::Msg read(DBusMessage* d)
{
    ref::Msg m;
    m.type = dbus_message_get_type(d);
    m.serial = dbus_message_get_serial(d);
    m.flags = (dbus_message_get_no_reply(d) ? 1 : 0) | (dbus_message_get_auto_start(d) ? 0 : 2);
    auto f = [&](int code, const char* s, char t = 's') {
        if (s)
            m.set(code, ref::str(s, t));
    };
    f(ref::F_PATH, dbus_message_get_path(d), 'o');
    f(ref::F_INTERFACE, dbus_message_get_interface(d));
    f(ref::F_MEMBER, dbus_message_get_member(d));
    f(ref::F_ERROR_NAME, dbus_message_get_error_name(d));
    f(ref::F_DESTINATION, dbus_message_get_destination(d));
    f(ref::F_SENDER, dbus_message_get_sender(d));
    if (dbus_message_get_reply_serial(d))
        m.set(ref::F_REPLY_SERIAL, ref::num('u', dbus_message_get_reply_serial(d)));
    m.body = args(d);
    return m;
}

struct RealClient : Client {
    DBusConnection* c = nullptr;
    std::function<void(const ref::Msg&)> onMessage;
    std::mutex m;
    std::atomic<bool> stop { false };
    int wake[2] = { -1, -1 };
    std::thread th;

    uint32_t send(const ref::Msg& msg) override
    {
        DBusMessage* d = make(msg);
        dbus_uint32_t serial = 0;
        {
            std::lock_guard<std::mutex> l(m);
            if (!dbus_connection_get_is_connected(c) || !dbus_connection_send(c, d, &serial))
                serial = 0;
        }
        dbus_message_unref(d);
        if (::write(wake[1], "", 1) < 0) { }
        return serial;
    }
    bool connected() override
    {
        std::lock_guard<std::mutex> l(m);
        return dbus_connection_get_is_connected(c);
    }
    void run()
    {
        while (!stop) {
            std::vector<DBusMessage*> got;
            pollfd p[2];
            {
                std::lock_guard<std::mutex> l(m);
                dbus_connection_read_write(c, 0);
                while (DBusMessage* d = dbus_connection_pop_message(c))
                    got.push_back(d);
                int fd = -1;
                dbus_connection_get_unix_fd(c, &fd);
                p[0] = { fd, (short)(POLLIN | (dbus_connection_has_messages_to_send(c) ? POLLOUT : 0)), 0 };
            }
            for (auto d : got) {
                if (onMessage && dbus_message_get_type(d) <= 4 && !dbus_message_is_signal(d, DBUS_INTERFACE_LOCAL, "Disconnected"))
                    onMessage(read(d));
                dbus_message_unref(d);
            }
            if (!got.empty())
                continue;
            p[1] = { wake[0], POLLIN, 0 };
            poll(p, 2, 50);
            char buf[64];
            while (::read(wake[0], buf, sizeof buf) > 0) { }
        }
    }
    ~RealClient()
    {
        stop = true;
        if (th.joinable())
            th.join();
        if (c) {
            dbus_connection_close(c);
            dbus_connection_unref(c);
        }
        if (wake[0] >= 0) {
            close(wake[0]);
            close(wake[1]);
        }
    }
};

std::unique_ptr<Client> client(const std::string& address, std::function<void(const ref::Msg&)> onMessage, std::string& error)
{
    std::unique_ptr<RealClient> r(new RealClient);
    DBusError e;
    dbus_error_init(&e);
    r->onMessage = std::move(onMessage);
    r->c = dbus_connection_open_private(address.c_str(), &e);
    if (r->c) {
        dbus_connection_set_exit_on_disconnect(r->c, FALSE);
        dbus_connection_set_max_message_size(r->c, 1 << 27);
        if (dbus_bus_register(r->c, &e)) {
            r->unique = dbus_bus_get_unique_name(r->c);
            if (pipe2(r->wake, O_NONBLOCK | O_CLOEXEC))
                abort();
            r->th = std::thread([p = r.get()] { p->run(); });
            return r;
        }
    }
    error = e.message ? e.message : "?";
    dbus_error_free(&e);
    return nullptr;
}

} // namespace dbl
