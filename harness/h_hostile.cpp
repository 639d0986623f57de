// C05 hostile bytes, C27 memory: at the level of the message protocol. See conn.cpp for the socket.
#include "alloc.h"
#include "bridge.h"
#include "dbus_log.h"
#include "nosy.h"
#include "parts.h"

using namespace vh;
using namespace ref;
using bridge::Receiver;
namespace T = DBus::Type;

PART(C05, mutants)
{
    const std::string s = hostileStream(r, 6);
    Nosy n;
    n.feed(s, r);
    // whatever came of that, the client still works
    if (r.chance(1, 8)) {
        n.rec.protocol.reset();
        Gen g(r);
        g.bytes = 200;
        const std::string ok = encode(g.message());
        const uint64_t before = n.delivered;
        n.feed(ok, r);
        R.check(n.delivered == before + 1, "useless", "no delivery after " + hex(s, 800));
    }
    R.add("delivered", n.delivered);
    R.add("exceptions", n.exceptions);
    R.eval(hashStr(s));
    R.sample(hex(s, 250));
}

// Every level of logging renders what it is given
PART(C05, logged)
{
    std::string s = hostileStream(r, 3);
    if (r.chance(1, 4)) { // lines of any length
        Gen g(r);
        g.bytes = 100;
        Msg m = g.message();
        const size_t n = (size_t)1 << r.range(8, 16);
        std::string text(n - r.below(n / 2), 'a' + (char)r.below(26));
        if (r.chance(1, 3))
            text = g.text(text.size());
        switch (r.below(3)) {
        case 0:
            m.body = { str(text) };
            break;
        case 1: // a name, of a member or an error or a path
            m.body.clear();
            for (auto& f : m.fields)
                if (f.second.t == 's' && r.chance(1, 2))
                    f.second = str(text);
                else if (f.second.t == 'o' && r.chance(1, 2))
                    f.second = str("/" + text, 'o');
            break;
        default:
            m.body.insert(m.body.begin() + r.below(m.body.size() + 1), str(text));
        }
        try {
            s = r.chance(1, 2) ? encode(m) + s : s + encode(m);
        } catch (const Bad&) {
        }
    }
    static int null = open("/dev/null", O_WRONLY);
    fflush(stderr);
    int saved = dup(2);
    dup2(null, 2);
    DBus::Log::setLevel(r.below(4));
    Nosy n;
    n.feed(s, r);
    DBus::Log::setLevel(100);
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
    R.add("delivered", n.delivered);
    R.eval(hashStr(s));
}

PART(C05, garbage)
{
    std::string s;
    const size_t len = r.chance(1, 2) ? r.below(64) : r.below(5000);
    const unsigned mode = r.below(4);
    for (size_t i = 0; i < len; ++i)
        s += mode == 0 ? (char)r.next() : mode == 1 ? (char)r.below(4) : mode == 2 ? "lB\1\0vas(y)"[r.below(10)] : (char)(r.chance(3, 4) ? 0 : r.below(64));
    if (r.chance(2, 3)) {
        // a fixed header that goes on
        std::string h = { r.chance(1, 2) ? 'l' : 'B', (char)r.below(6), (char)r.below(8), (char)(r.chance(1, 8) ? r.next() : 1) };
        Enc e(h[0] == 'B');
        e.num(r.chance(1, 2) ? r.below(200) : evil(r, len), 4);
        e.num(r.next(), 4);
        e.num(r.chance(1, 2) ? r.below(200) : evil(r, len), 4);
        s = h + e.b + s;
    }
    Nosy n;
    n.feed(s, r);
    R.add("delivered", n.delivered);
    R.add("exceptions", n.exceptions);
    R.eval(hashStr(s), s.size() >= 16);
    R.sample(hex(s, 120));
}

namespace {
// Delivers to handlers that keep nothing, and watches the memory
struct Light {
    DBus::MessageProtocol protocol;
    uint64_t delivered = 0;
    Light()
    {
        protocol.setMethodCallHandler([this](const DBus::Message::MethodCall&) { ++delivered; });
        protocol.setMethodReturnHandler([this](const DBus::Message::MethodReturn&) { ++delivered; });
        protocol.setErrorHandler([this](const DBus::Message::Error&) { ++delivered; });
        protocol.setSignalHandler([this](const DBus::Message::Signal&) { ++delivered; });
    }
    void feed(const char* p, size_t n)
    {
        try {
            DBus::OctetBuffer b((const uint8_t*)p, n);
            protocol.onReceiveData(b);
        } catch (const std::exception&) {
            protocol.reset();
        }
    }
};

const double FIXED = 1 << 18, FACTOR = 1500;

std::string wrap(const std::string& sig, const std::string& body, bool be, Rng& r)
{
    Msg m;
    m.be = be;
    m.type = SIGNAL;
    m.serial = 7;
    m.fields = { { F_PATH, str("/a", 'o') }, { F_INTERFACE, str("a.b") }, { F_MEMBER, str("c") } };
    return encode(m, &sig, &body);
}
}

// What costs most memory for its bytes: the peak stays within an allowance and a factor
PART(C05, memory)
{
    const bool be = r.chance(1, 2);
    const size_t size = r.range(2000, R.thorough ? 400000 : 60000);
    std::string sig, body, what;
    Enc e(be);
    const unsigned kind = index % 12;
    auto arrayOf = [&](const std::string& elem, const std::string& unit, size_t align) {
        Enc x(be);
        x.num(0, 4);
        x.align(align);
        const size_t at = x.b.size();
        while (x.b.size() < size)
            x.b += unit;
        x.patch32(0, (uint32_t)(x.b.size() - at));
        body = x.b;
        sig = "a" + elem;
    };
    switch (kind) {
    case 0:
        arrayOf("y", "\7", 1);
        break;
    case 1: {
        const unsigned d = r.range(1, 31);
        arrayOf(std::string(d, '(') + "y" + std::string(d, ')'), std::string("\7\0\0\0\0\0\0\0", 8), 8);
        break;
    }
    case 2:
        arrayOf("v", std::string("\1y\0\7", 4), 1);
        break;
    case 3:
        arrayOf("ay", std::string(4, '\0'), 4);
        break;
    case 4: // empty arrays with the longest signature
        arrayOf("a(" + std::string(r.range(10, 240), 'y') + ")", std::string(8, '\0'), 4);
        break;
    case 5:
        arrayOf("{yy}", std::string("\1\2\0\0\0\0\0\0", 8), 8);
        break;
    case 6:
        arrayOf("s", std::string("\0\0\0\0\0\0\0\0", 8), 4);
        break;
    case 7:
        arrayOf("g", std::string(2, '\0'), 1);
        break;
    case 8: { // variants in variants
        const unsigned d = r.range(2, 60);
        std::string u;
        for (unsigned i = 0; i < d; ++i)
            u += std::string("\1v\0", 3);
        u += std::string("\1y\0\7", 4);
        arrayOf("v", u, 1);
        break;
    }
    case 9: { // many arguments
        sig = std::string(255, 'y');
        body = std::string(255, '\1');
        break;
    }
    case 10: { // announced, never sent
        Enc x(be);
        x.num(100000000, 4);
        body = x.b + std::string(r.below(1000), 'x');
        sig = "s";
        break;
    }
    default: { // structs of the longest signature with arrays in them
        const std::string in = std::string(r.range(1, 30), '(') + "y";
        const size_t d = in.size() - 1;
        arrayOf("(a" + in + std::string(d, ')') + "y)", std::string("\10\0\0\0\0\0\0\0\7\0\0\0\0\0\0\0\3\0\0\0\0\0\0\0", 24), 8);
        if (be)
            body.clear(), arrayOf("(ayy)", std::string("\0\0\0\1\7\7\0\0", 8), 8);
    }
    }
    std::string bytes = wrap(sig, body, be, r);
    if (kind == 10) // the lengths say it is all there still to come
        for (int i = 0; i < 4; ++i)
            bytes[4 + i] = (char)(0x5f00000u >> (8 * (be ? 3 - i : i)));
    const size_t copies = r.range(1, 4);
    const auto cuts = bridge::cuts(r, bytes.size());
    Light* l = new Light;
    alloc::start();
    size_t fed = 0;
    double worst = 0;
    for (size_t i = 0; i < copies; ++i)
        for (auto& c : cuts) {
            l->feed(bytes.data() + c.first, c.second);
            fed += c.second;
            const double held = (double)alloc::live.load(), peak = (double)alloc::peak.load();
            if (fed > 200)
                worst = std::max(worst, peak / fed);
            if (peak > FIXED + FACTOR * fed)
                R.violation("memory", "at most " + std::to_string((long)peak) + " bytes in use for " + std::to_string(fed) + " received, sig '" + sig + "'");
            if (held > FIXED + 16.0 * fed)
                R.violation("memory-held", std::to_string((long)held) + " bytes held after " + std::to_string(fed) + " were received, sig '" + sig + "'");
        }
    alloc::stop();
    R.add("delivered", l->delivered);
    R.maxOf("peak_bytes_per_byte_received", (uint64_t)worst);
    R.maxOf("peak_bytes_per_byte_received_kind_" + std::to_string(kind), fed > 2000 ? (uint64_t)((double)alloc::peak / fed) : 0);
    delete l;
    R.eval(hashStr(bytes));
    R.sample("sig '" + sig + "', " + std::to_string(bytes.size()) + " bytes, peak " + std::to_string(alloc::peak.load()));
}

// The same limit for anything at all
PART(C05, footprint)
{
    const std::string s = hostileStream(r, 8);
    const auto cuts = bridge::cuts(r, s.size());
    Light* l = new Light;
    alloc::start();
    size_t fed = 0;
    for (auto& c : cuts) {
        l->feed(s.data() + c.first, c.second);
        fed += c.second;
    }
    alloc::stop();
    R.check(alloc::peak <= FIXED + FACTOR * fed, "memory", std::to_string(alloc::peak) + " bytes in use for " + std::to_string(fed) + " received: " + hex(s, 1000));
    R.check(alloc::live <= FIXED + 16.0 * fed, "memory-held", std::to_string(alloc::live) + " bytes held for " + std::to_string(fed) + " received: " + hex(s, 1000));
    delete l;
    R.maxOf("peak_bytes_per_byte_received", fed > 200 ? (uint64_t)(alloc::peak / fed) : 0);
    R.eval(hashStr(s));
}

// Nesting far beyond what is allowed, on a thread with little stack
PART(C05, depth)
{
    const unsigned n = r.chance(1, 2) ? r.range(60, 300) : r.range(1000, 60000);
    const bool be = r.chance(1, 2);
    std::string sig, body;
    switch (index % 5) {
    case 0:
        for (unsigned i = 0; i < n; ++i)
            body += std::string("\1v\0", 3);
        body += std::string("\1y\0\7", 4);
        sig = "v";
        break;
    case 1: { // variants that hold structs that hold variants
        for (unsigned i = 0; i < n; ++i) {
            body += std::string("\3(v)\0", 5);
            body.resize((body.size() + 7) & ~7);
        }
        body += std::string("\1y\0\7", 4);
        sig = "v";
        break;
    }
    case 2:
        sig = std::string(127, '(') + "y" + std::string(127, ')');
        body = std::string(64, '\7');
        break;
    case 3: {
        sig = std::string(r.range(33, 254), 'a') + "y";
        Enc x(be);
        for (size_t i = 0; i + 1 < sig.size(); ++i)
            x.num((sig.size() - i - 2) * 4 + 1, 4);
        body = x.b + "\7";
        break;
    }
    default: { // variants that hold arrays of variants, lengths all the rest
        Enc x(be);
        const unsigned k = std::min(n, 5000u);
        for (unsigned i = 0; i < k; ++i) {
            x.b += std::string("\2av\0", 4);
            x.align(4);
            x.num((k - i) * 8, 4);
        }
        body = x.b;
        sig = "v";
    }
    }
    const std::string bytes = wrap(sig, body, be, r);
    Light l;
    std::exception_ptr err;
    boost::thread::attributes a;
    a.set_stack_size(8 << 20);
    boost::thread t(a, [&] {
        for (auto& c : bridge::cuts(r, bytes.size()))
            l.feed(bytes.data() + c.first, c.second);
    });
    t.join();
    R.add("delivered", l.delivered);
    R.maxOf("levels", n);
    R.eval(hashStr(bytes));
    R.sample("sig '" + sig.substr(0, 40) + "', " + std::to_string(n) + " levels, " + std::to_string(bytes.size()) + " bytes");
}

//--------------------------------------------------------------------------- C27

// After any number of messages, good or bad, the protocol holds what it held before
PART(C27, protocol)
{
    Gen g(r);
    g.bytes = 800;
    std::vector<std::string> pool;
    for (int i = 0; i < 12; ++i) {
        g.budget = 30;
        Msg m = g.message();
        if (r.chance(1, 4)) {
            // with a body that is no good
            const std::string sig = "as";
            const std::string body(r.range(1, 9), '\x11');
            pool.push_back(encode(m, &sig, &body));
        } else
            pool.push_back(encode(m));
    }
    if (index % 4 == 0) // its memory is not kept until the next one
        pool.push_back([&] {
            const uint32_t n = r.range(300000, 1500000);
            Enc x(false);
            x.num(n, 4);
            return wrap("s", x.b + std::string(n, 'x') + std::string(1, '\0'), false, r);
        }());
    // the largest comes first, so that buffers have their size
    std::sort(pool.begin(), pool.end(), [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
    Light* l = new Light;
    alloc::start();
    auto round = [&](size_t messages) {
        for (size_t i = 0; i < messages; ++i) {
            const std::string& s = pool[i < pool.size() ? i : r.range(pool[0].size() > 100000 && !r.chance(1, 30) ? 1 : 0, pool.size() - 1)];
            for (auto& c : bridge::cuts(r, s.size()))
                l->feed(s.data() + c.first, c.second);
        }
        return (long)alloc::live;
    };
    round(pool.size() * 2);
    const long before = round(100);
    const size_t n = r.range(300, 1000);
    const long after = round(n);
    // what is between messages is at most a buffer's worth
    R.check(after <= before + 8192, "grows", "from " + std::to_string(before) + " to " + std::to_string(after) + " bytes in " + std::to_string(n) + " messages");
    R.check(after <= 65536 + 65536 + 32768, "holds", std::to_string(after) + " bytes held after messages of at most " + std::to_string(pool[0].size()));
    alloc::stop();
    R.add("messages", n);
    R.maxOf("bytes_held", after > 0 ? after : 0);
    delete l;
    R.eval(hashStr(pool[0]));
    R.sample(std::to_string(before) + " bytes held, then " + std::to_string(after) + " after " + std::to_string(n) + " messages");
}

// A message of which only a part has come costs a small factor of that part
PART(C27, partial)
{
    const bool be = r.chance(1, 2);
    static const size_t sizes[] = { 100, 5000, 70000, 1000000, 20000000 };
    const size_t announced = sizes[r.below(5)];
    std::string bytes;
    if (r.chance(1, 2)) {
        Enc x(be);
        x.num(announced, 4);
        bytes = wrap("s", x.b + std::string(8, 'x'), be, r);
        const uint32_t total = announced + 5;
        for (int i = 0; i < 4; ++i)
            bytes[4 + i] = (char)(total >> (8 * (be ? 3 - i : i)));
    } else {
        // the header is not complete
        Enc x(be);
        x.b = { be ? 'B' : 'l', 4, 0, 1 };
        x.num(10, 4);
        x.num(7, 4);
        x.num(announced, 4);
        bytes = x.b;
    }
    const size_t part = std::min<size_t>(announced, r.chance(1, 3) ? r.below(100) : r.range(1000, 600000));
    if (part > bytes.size())
        bytes.resize(part, 'x');
    Light* l = new Light;
    alloc::start();
    size_t fed = 0;
    for (size_t o = 0; o < bytes.size();) {
        const size_t n = std::min<size_t>(bytes.size() - o, r.range(1, 1024));
        l->feed(bytes.data() + o, n);
        o += n;
        fed += n;
        const long held = alloc::live;
        if (held > 16384 + 8 * (long)fed) {
            R.violation("partial", std::to_string(held) + " bytes held for " + std::to_string(fed) + " of " + std::to_string(announced) + " announced");
            break;
        }
    }
    R.check(l->delivered == 0 || fed >= announced, "delivered", "an incomplete message was delivered");
    const long held = alloc::live;
    // and nothing is left when it is given up
    l->protocol.reset();
    delete l;
    alloc::stop();
    R.maxOf("held_per_byte_x100", fed > 5000 ? held * 100 / fed : 0);
    R.eval(hashStr(bytes));
    R.sample(std::to_string(fed) + " of " + std::to_string(announced) + " bytes received, " + std::to_string(held) + " held");
}
