// Value trees to library values and back, through the public API only.
#pragma once
#include "ref.h"
#include "dbus.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_octetbuffer.h"
#include "dbus_type.h"

namespace bridge {
using ref::Val;
namespace T = DBus::Type;
typedef DBus::Type::Generic G;

double asDouble(uint64_t u);

G toLib(const Val& v);  template <class C> void addTo(C& c, const G& g, char t);

// Only for constructible values
G toLib(const Val& v);

struct Unreadable : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// What a user of the library can find in a value
Val fromLib(const G& g);

std::vector<Val> fromMessage(const DBus::Message::Base& m);

// A value made from its marshalled form
G viaBytes(const Val& v, bool be = false);

// What a handler saw
struct Seen {
    int kind = 0;
    uint32_t serial = 0, replySerial = 0, replyingTo = 0;
    std::string path, interface, member, sender, destination, errorText;
    bool replyExpected = false;
    std::vector<Val> args;
    std::string unreadable;

    void base(const DBus::Message::Base& m);
};

uint64_t digest(const Seen& s);

Seen seen(const DBus::Message::MethodCall& m);
Seen seen(const DBus::Message::MethodReturn& m);
Seen seen(const DBus::Message::Error& m);
Seen seen(const DBus::Message::Signal& m);

// A message protocol whose handlers record
struct Receiver {
    DBus::MessageProtocol protocol;
    std::vector<Seen> got;
    std::function<void(const Seen&)> onSeen;
    std::function<void(const DBus::Message::Base&, int)> onMessage;

    template <class M>
    void handle(const M& m)
    {
        Seen s = seen(m);
        if (onMessage)
            onMessage(m, s.kind);
        got.push_back(std::move(s));
        if (onSeen)
            onSeen(got.back());
    }
    Receiver()
    {
        protocol.setMethodCallHandler([this](const DBus::Message::MethodCall& m) { handle(m); });
        protocol.setMethodReturnHandler([this](const DBus::Message::MethodReturn& m) { handle(m); });
        protocol.setErrorHandler([this](const DBus::Message::Error& m) { handle(m); });
        protocol.setSignalHandler([this](const DBus::Message::Signal& m) { handle(m); });
    }
    // A read of exactly these bytes; each is a separate heap block, at a varying alignment
    void feed(const char* p, size_t n, size_t misalign = 0)
    {
        uint8_t* b = (uint8_t*)malloc(n + misalign ? n + misalign : 1);
        if (n)
            memcpy(b + misalign, p, n);
        struct Free {
            uint8_t* b;
            ~Free() { free(b); }
        } guard { b };
        DBus::OctetBuffer ob(b + misalign, n);
        protocol.onReceiveData(ob);
    }
    void feed(const std::string& s, size_t misalign = 0) { feed(s.data(), s.size(), misalign); }
};

// What the handler ought to see
Seen expected(const ref::Msg& m);

std::string compare(const Seen& w, const Seen& g, bool body = true);

std::vector<std::pair<size_t, size_t>> cuts(vh::Rng& r, size_t n);

} // namespace bridge
