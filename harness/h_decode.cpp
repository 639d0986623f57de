// What is received: C02 values, C04 cutting, C06 isolation, C07 limits, C17 headers, C23 malformed
#include "anylocale.h"
#include "parts.h"
#include "alloc.h"
#include "bad.h"
#include "bridge.h"
#include "dbuslib.h"

using namespace vh;
using namespace ref;
using bridge::Receiver;
using bridge::Seen;

namespace {

std::string ctx(const Msg& m, const std::string& bytes)
{
    return std::string(m.be ? "big" : "little") + " endian, type " + std::to_string(m.type) + ", sig '" + sigOf(m.body) + "', values " + show(m.body) + ", bytes " + hex(bytes, 400);
}

// Feeds; false when the protocol reported an error (and was reset, as the connection does)
bool feed(Receiver& rec, const char* p, size_t n, Rng& r, std::string* what = nullptr)
{
    try {
        rec.feed(p, n, r.below(8));
        return true;
    } catch (const std::exception& e) {
        if (what)
            *what = e.what();
        rec.protocol.reset();
        return false;
    }
}

// One message, fed whole: delivered once and as it was sent
void one(const Msg& m, Rng& r, const std::string& bytes, const std::string& part)
{
    Receiver rec;
    std::string error;
    if (!feed(rec, bytes.data(), bytes.size(), r, &error)) {
        R.violation("refused", part + ": a well-formed message was refused: " + error + "; " + ctx(m, bytes));
        return;
    }
    if (!R.check(rec.got.size() == 1, "not-delivered-once", part + ": delivered " + std::to_string(rec.got.size()) + " times; " + ctx(m, bytes)))
        return;
    std::string d = bridge::compare(bridge::expected(m), rec.got[0]);
    R.check(d.empty(), "differs", part + ": " + d + "; " + ctx(m, bytes));
    R.eval(hashStr(bytes));
    R.add(m.be ? "big_endian" : "little_endian");
    R.add("kind_" + std::to_string(m.type));
    R.sample(ctx(m, bytes));
}

const char* smallTypes[] = { "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "ay", "ab", "an", "aq", "ai", "au", "ax", "at", "ad", "as", "ao", "ag", "av", "aay", "aan", "aau",
    "aat", "aas", "aav", "a(y)", "a(tv)", "a(n)", "a{sv}", "a{yy}", "a{yay}", "a{tq}", "a{ua{sv}}", "(y)", "(n)", "(u)", "(d)", "(s)", "(g)", "(v)", "(yay)", "(ya{sv})", "((y)at)", "(yat)",
    "aa{sv}", "a(yat)", "(ybnqiuxtdsogv)" };
const size_t smallCount = sizeof smallTypes / sizeof *smallTypes;

// Nests v to `total` containers, within the limits of a signature
Val nest(Val v, unsigned total, Gen& g, unsigned how)
{
    Rng& r = g.r;
    unsigned arrays = 0, structs = 0;
    for (unsigned i = 0; i < total; ++i) {
        unsigned k = how < 4 ? how : r.below(4);
        if (sigOf(v).size() > 240 || ((k == 0 || k == 3) && arrays >= 32) || ((k == 1 || k == 3) && structs >= 32) || (k == 3 && i + 2 > total))
            k = how == 0 && structs < 32 ? 1 : how == 1 && arrays < 32 ? 0 : 2;
        switch (k) {
        case 0:
            v = array(sigOf(v), r.chance(1, 20) ? std::vector<Val> { v, v } : std::vector<Val> { v });
            ++arrays;
            break;
        case 1: {
            Val s;
            s.t = '(';
            s.k = { v };
            if (r.chance(1, 10))
                s.k.push_back(num('y', i));
            v = s;
            ++structs;
            break;
        }
        case 3: {
            Val e;
            e.t = '{';
            e.k = { g.value(std::string(1, "ysutdg"[r.below(6)])), v };
            v = array(sigOf(e), { e });
            ++arrays, ++structs, ++i;
            break;
        }
        default:
            v = variant(v);
            arrays = structs = 0;
        }
    }
    return v;
}

unsigned depthOf(const Val& v)
{
    unsigned d = 0;
    for (auto& c : v.k)
        d = std::max(d, depthOf(c));
    return d + (v.t == 'a' || v.t == '(' || v.t == '{' || v.t == 'v');
}

} // namespace

//--------------------------------------------------------------------------- C02

PART(C02, random)
{
    Gen g(r);
    g.rawStrings = r.chance(1, 4);
    g.maxDepth = r.chance(1, 5) ? 16 : 6;
    Msg m = g.message();
    one(m, r, encode(m), "random");
}

// Every triple of small types in both byte orders
PART(C02, triples)
{
    Gen g(r);
    g.bytes = 3000;
    Msg m = g.message(false);
    m.be = index & 1;
    const size_t i = index / 2;
    m.body = { g.value(smallTypes[i % smallCount]), g.value(smallTypes[i / smallCount % smallCount]) };
    const size_t third = i / smallCount / smallCount % (smallCount + 1);
    if (third < smallCount)
        m.body.push_back(g.value(smallTypes[third]));
    one(m, r, encode(m), "triples");
}

PART(C02, deep)
{
    Gen g(r);
    Msg m = g.message(false);
    unsigned total = index % 2 ? 64 : r.range(3, 64);
    Val leaf = r.chance(1, 6) ? array(g.type(6)) : g.value(std::string(1, g.basic()));
    Val v = nest(leaf, total - (leaf.t == 'a' ? 1 : 0), g, index / 2 % 6);
    if (r.chance(1, 2))
        m.body.push_back(num('y', 9));
    m.body.push_back(v);
    if (r.chance(1, 2))
        m.body.push_back(num('t', 7));
    if (sigOf(m.body).size() > 255 || depthOf(v) > 64)
        return;
    R.maxOf("depth", depthOf(v));
    one(m, r, encode(m), "deep");
}

// Messages that libdbus made
PART(C02, libdbus)
{
    Gen g(r);
    g.maxDepth = r.chance(1, 5) ? 12 : 6;
    Msg m = g.message();
    if (m.type != CALL)
        m.flags &= 1;
    m.be = __BYTE_ORDER == __BIG_ENDIAN;
    m.flags &= 3;
    one(m, r, dbl::build(m), "libdbus");
}

PART(C02, large)
{
    Gen g(r);
    Msg m = g.message(false);
    g.bytes = 1 << 26;
    const size_t l = r.range(100000, R.thorough ? 3000000 : 800000);
    Val a;
    switch (index % 5) {
    case 0:
        a = str(g.text(l));
        break;
    case 1:
        a = array("y");
        for (size_t i = 0; i < l / 8; ++i)
            a.k.push_back(num('y', r.below(256)));
        break;
    case 2:
        a = array("(ys)");
        for (size_t i = 0; i < l / 40; ++i) {
            Val s;
            s.t = '(';
            s.k = { num('y', i & 255), str(g.text(i % 11)) };
            a.k.push_back(s);
        }
        break;
    case 3:
        a = array("d");
        for (size_t i = 0; i < l / 30; ++i)
            a.k.push_back(num('d', g.number('d')));
        break;
    default:
        a = array("{sv}");
        for (size_t i = 0; i < l / 80; ++i) {
            Val s;
            s.t = '{';
            s.k = { str(g.text(i % 7)), variant(g.value(g.type(5))) };
            a.k.push_back(s);
            g.budget = 100;
        }
    }
    m.body = { num('y', 1), a, num('t', 2) };
    one(m, r, encode(m), "large");
}

//--------------------------------------------------------------------------- C17

PART(C17, headers)
{
    Gen g(r);
    g.bytes = 5000;
    Msg m = g.message(r.chance(1, 2));
    // values for which a slip shows
    if (r.chance(1, 3) && m.field(F_REPLY_SERIAL))
        m.set(F_REPLY_SERIAL, num('u', r.chance(1, 2) ? 0x80000000u + r.below(1000) : 0xffffffffu - r.below(3)));
    if (r.chance(1, 8))
        m.set(F_DESTINATION, str(g.busname()));
    // long names, as long as names may be
    if (r.chance(1, 10))
        m.set(F_SENDER, str(g.interface() + "." + std::string(r.range(150, 200), 'x')));
    if (r.chance(1, 20))
        m.set(F_PATH, str("/" + std::string(r.range(1000, 40000), 'p'), 'o'));
    // unknown fields, of any type, anywhere
    const size_t unknown = r.chance(1, 2) ? r.range(1, 4) : 0;
    std::set<int> codes;
    for (size_t i = 0; i < unknown; ++i) {
        const int code = r.range(10, 255);
        if (!codes.insert(code).second)
            continue;
        g.budget = 20;
        g.bytes = 300;
        m.fields.insert(m.fields.begin() + r.below(m.fields.size() + 1), { (uint8_t)code, g.value(g.type(3)) });
    }
    if (r.chance(1, 8))
        m.fields.insert(m.fields.begin() + r.below(m.fields.size() + 1), { F_UNIX_FDS, num('u', 0) });
    m.sigPos = r.below(m.fields.size() + 1);
    m.flags = r.below(256);
    R.add("unknown_fields", codes.size());
    R.add("fields_" + std::to_string(m.fields.size()));
    const std::string bytes = encode(m);
    one(m, r, bytes, "headers");
    // and again after other messages on the same connection: nothing of those may remain
    Receiver rec;
    Msg before = g.message();
    feed(rec, encode(before).data(), encode(before).size(), r);
    feed(rec, bytes.data(), bytes.size(), r);
    if (R.check(rec.got.size() == 2, "not-delivered-once", "after another message: " + ctx(m, bytes))) {
        std::string d = bridge::compare(bridge::expected(m), rec.got[1]);
        R.check(d.empty(), "differs", "after another message: " + d + "; " + ctx(m, bytes));
    }
}

// Every order of the fields of small messages, with every subset of the optional ones
PART(C17, orders)
{
    Gen g(r);
    Msg m = g.message(false);
    m.flags = index % 8;
    m.type = 1 + index / 8 % 4;
    m.fields = { { F_PATH, str(g.path(), 'o') }, { F_INTERFACE, str(g.interface()) }, { F_MEMBER, str(g.name()) }, { F_ERROR_NAME, str(g.interface()) }, { F_REPLY_SERIAL, num('u', g.serial()) },
        { F_DESTINATION, str(g.busname()) }, { F_SENDER, str(g.busname()) } };
    const unsigned mask = index / 32 % 128;
    auto needed = [&](int c) {
        return ((m.type == CALL || m.type == SIGNAL) && (c == F_PATH || c == F_MEMBER)) || (m.type == SIGNAL && c == F_INTERFACE) || ((m.type == RETURN || m.type == ERROR) && c == F_REPLY_SERIAL)
            || (m.type == ERROR && c == F_ERROR_NAME);
    };
    for (int i = 6; i >= 0; --i)
        if (!(mask >> i & 1) && !needed(m.fields[i].first))
            m.fields.erase(m.fields.begin() + i);
    r.shuffle(m.fields);
    if (r.chance(2, 3))
        m.body = { str(g.text(5)), num('u', 4) };
    if (r.chance(1, 4))
        m.body = { num('u', 4), str("not the text of an error") };
    m.sigPos = r.below(m.fields.size() + 1);
    one(m, r, encode(m), "orders");
}

//--------------------------------------------------------------------------- C04

namespace {
struct Stream {
    std::string bytes;
    std::vector<Msg> msgs; // those to be delivered
    std::vector<size_t> ends; // where each ends
};
Stream stream(Rng& r, size_t n, size_t strings = 1500)
{
    Stream s;
    for (size_t i = 0; i < n; ++i) {
        Gen g(r);
        g.bytes = strings;
        g.budget = 40;
        g.maxDepth = 4;
        Msg m = g.message(r.chance(3, 4));
        if (r.chance(1, 8)) {
            m.type = r.range(5, 255); // to be ignored
            s.bytes += encode(m);
            continue;
        }
        s.bytes += encode(m);
        s.msgs.push_back(m);
        s.ends.push_back(s.bytes.size());
    }
    return s;
}
void checkStream(const Stream& s, const Receiver& rec, size_t fed, const std::string& how)
{
    size_t want = 0;
    while (want < s.ends.size() && s.ends[want] <= fed)
        ++want;
    if (!R.check(rec.got.size() == want, "count", how + ": " + std::to_string(rec.got.size()) + " messages delivered after " + std::to_string(fed) + " bytes, " + std::to_string(want) + " had arrived; stream " + hex(s.bytes, 600)))
        return;
}
void checkContents(const Stream& s, const Receiver& rec, const std::string& how)
{
    for (size_t i = 0; i < rec.got.size() && i < s.msgs.size(); ++i) {
        std::string d = bridge::compare(bridge::expected(s.msgs[i]), rec.got[i]);
        R.check(d.empty(), "differs", how + ": message " + std::to_string(i) + " " + d + "; stream " + hex(s.bytes, 600));
    }
}
}

PART(C04, random)
{
    Stream s = stream(r, r.range(1, r.chance(1, 10) ? 30 : 8), r.chance(1, 8) ? 70000 : 1500);
    Receiver rec;
    auto cs = bridge::cuts(r, s.bytes.size());
    std::string how = "cut into " + std::to_string(cs.size());
    uint64_t h = hashStr(s.bytes);
    try {
        for (auto& c : cs) {
            if (r.chance(1, 12))
                rec.feed("", 0, r.below(8));
            rec.feed(s.bytes.data() + c.first, c.second, r.below(8));
            checkStream(s, rec, c.first + c.second, how);
            h = mix(h ^ c.second);
        }
    } catch (const std::exception& e) {
        R.violation("refused", how + ": " + e.what() + "; stream " + hex(s.bytes, 600));
    }
    checkContents(s, rec, how);
    R.eval(h, cs.size() > 1);
    R.add("reads", cs.size());
    R.add("messages", s.msgs.size());
    R.sample(std::to_string(s.msgs.size()) + " messages, " + std::to_string(s.bytes.size()) + " bytes, " + std::to_string(cs.size()) + " reads, first of " + std::to_string(cs.empty() ? 0 : cs[0].second));
}

// Every position of one cut, and pairs of cuts close to each other
PART(C04, everycut)
{
    Stream s = stream(r, r.range(1, 3), 40);
    for (size_t p = 0; p <= s.bytes.size(); ++p) {
        Receiver rec;
        const size_t q = std::min(s.bytes.size(), p + (index % 3 ? r.below(20) : 0));
        std::string how = "cut at " + std::to_string(p) + " and " + std::to_string(q);
        try {
            rec.feed(s.bytes.data(), p, r.below(8));
            checkStream(s, rec, p, how);
            rec.feed(s.bytes.data() + p, q - p, r.below(8));
            checkStream(s, rec, q, how);
            rec.feed(s.bytes.data() + q, s.bytes.size() - q, r.below(8));
            checkStream(s, rec, s.bytes.size(), how);
        } catch (const std::exception& e) {
            R.violation("refused", how + ": " + e.what() + "; stream " + hex(s.bytes, 600));
        }
        checkContents(s, rec, how);
        R.eval(hashStr(s.bytes, p * 100000 + q));
        if (R.violations)
            return;
    }
    R.add("streams");
}

// One long history on one protocol, in reads of the size the transport uses
PART(C04, long)
{
    Stream s = stream(r, 400, 300);
    Receiver rec;
    const size_t step = index % 3 == 0 ? 1024 : index % 3 == 1 ? r.range(1, 64) : r.range(65, 5000);
    for (size_t o = 0; o < s.bytes.size(); o += step) {
        const size_t l = std::min(step, s.bytes.size() - o);
        try {
            rec.feed(s.bytes.data() + o, l, r.below(8));
        } catch (const std::exception& e) {
            R.violation("refused", std::string("long: ") + e.what());
            return;
        }
        checkStream(s, rec, o + l, "long");
        if (R.violations)
            return;
    }
    checkContents(s, rec, "long");
    R.eval(hashStr(s.bytes, step));
    R.add("messages", s.msgs.size());
}

//--------------------------------------------------------------------------- C06

namespace {
}

PART(C06, isolation)
{
    std::string bytes, what;
    std::vector<Msg> good;
    std::set<uint32_t> bad, throwing;
    std::vector<std::string> classes;
    const size_t n = r.chance(1, 40) ? r.range(100, 600) : r.range(2, 14);
    const unsigned badly = r.range(1, 4); // of five
    uint32_t serial = 1 + r.below(1000);
    uint64_t h = 0;
    for (size_t i = 0; i < n; ++i) {
        ++serial;
        if (r.chance(badly, 5)) {
            bytes += badMessage(r, serial, &what);
            bad.insert(serial);
            classes.push_back(what);
            R.add(what);
        } else {
            Gen g(r);
            g.bytes = 300;
            g.budget = 20;
            Msg m = g.message();
            m.serial = serial;
            bytes += encode(m);
            good.push_back(m);
            if (r.chance(1, 4)) {
                throwing.insert(serial);
                R.add("throwing handler");
            }
            classes.push_back(throwing.count(serial) ? "throws" : "good");
        }
    }
    std::string order;
    for (auto& c : classes)
        order += c + ", ";
    Receiver rec;
    rec.onSeen = [&](const Seen& s) {
        if (throwing.count(s.serial)) {
            throwAnything(s.serial);
        }
    };
    auto cs = bridge::cuts(r, bytes.size());
    for (auto& c : cs) {
        std::string error;
        if (!feed(rec, bytes.data() + c.first, c.second, r, &error)) {
            R.violation("costs-others", "a message that is framed well made the protocol fail: " + error + "; sequence: " + order + " bytes " + hex(bytes, 800));
            return;
        }
    }
    std::vector<Seen> got;
    for (auto& s : rec.got)
        if (!bad.count(s.serial))
            got.push_back(s);
    if (R.check(got.size() == good.size(), "costs-others", std::to_string(got.size()) + " of " + std::to_string(good.size()) + " good messages delivered; sequence: " + order + " bytes " + hex(bytes, 800)))
        for (size_t i = 0; i < good.size(); ++i) {
            std::string d = bridge::compare(bridge::expected(good[i]), got[i]);
            R.check(d.empty(), "costs-others", "good message " + std::to_string(i) + " " + d + "; sequence: " + order + " bytes " + hex(bytes, 800));
        }
    R.eval(hashStr(bytes, h), !bad.empty() || !throwing.empty());
    R.sample(order + "in " + std::to_string(cs.size()) + " reads");
}

// After a framing error and reset(): no replays, and what comes next is delivered
PART(C06, framing)
{
    Receiver rec;
    uint32_t serial = 1 + r.below(100);
    std::vector<Msg> want;
    std::string log;
    const size_t rounds = r.range(1, 5);
    uint64_t h = 0;
    for (size_t k = 0; k < rounds; ++k) {
        Stream s = stream(r, r.range(1, 3), 200);
        // distinct serials
        s.bytes.clear();
        for (auto& m : s.msgs) {
            m.serial = ++serial;
            s.bytes += encode(m);
        }
        auto cs = bridge::cuts(r, s.bytes.size());
        // what is not in the same read as the error must be delivered; keep the rest of the last
        for (auto& c : cs)
            if (!feed(rec, s.bytes.data() + c.first, c.second, r)) {
                R.violation("after-reset", "well-formed messages after a reset were refused; " + log + " then " + hex(s.bytes));
                return;
            }
        for (auto& m : s.msgs)
            want.push_back(m);
        if (rec.got.size() != want.size()) {
            R.violation("after-reset", "delivered " + std::to_string(rec.got.size()) + " of " + std::to_string(want.size()) + " messages; " + log + " then " + hex(s.bytes));
            return;
        }
        // a framing error: an announcement that is too large, or a header that can not be read
        Gen g(r);
        Msg m = g.message();
        std::string b = encode(m);
        std::string kind;
        auto patch = [&](size_t at, uint32_t v) {
            for (int i = 0; i < 4; ++i)
                b[at + i] = (char)(v >> (8 * (m.be ? 3 - i : i)));
        };
        switch (r.below(4)) {
        case 0:
            kind = "large header";
            patch(12, 67108865u + r.below(1000) * 4000000u);
            break;
        case 1:
            kind = "large body";
            patch(4, 134217729u + r.below(1000) * 4000000u);
            break;
        case 2: {
            kind = "header field array longer than its data";
            Enc e(m.be);
            e.b = m.be ? "B" : "l";
            e.b += std::string("\1\0\1", 3);
            e.num(0, 4);
            e.num(77, 4);
            e.num(8, 4);
            e.b += std::string("\1\1s\0\xff\xff\xff\xff", 8);
            b = e.b;
            break;
        }
        default: {
            kind = "header field of unknown type";
            Enc e(m.be);
            e.b = m.be ? "B" : "l";
            e.b += std::string("\1\0\1", 3);
            e.num(0, 4);
            e.num(77, 4);
            e.num(8, 4);
            e.b += std::string("\1\1Z\0\1\0\0\0", 8);
            b = e.b;
        }
        }
        log += kind + "; ";
        const bool before = r.chance(1, 3); // messages in the same read, before the error
        std::string read = b;
        if (before) {
            Msg x = g.message();
            x.serial = ++serial;
            read = encode(x) + b;
            want.push_back(x);
        }
        bool failed = false;
        if (r.chance(1, 3) && !before) {
            // in several reads, the last of which completes the announcement
            for (size_t o = 0; o < b.size() && !failed; ++o)
                failed = !feed(rec, b.data() + o, 1, r);
        } else
            failed = !feed(rec, read.data(), read.size(), r);
        if (!failed)
            rec.protocol.reset(); // it waits for more data: abandon it
        R.add(kind);
        R.add(failed ? "errors" : "abandoned");
        if (r.chance(1, 4))
            rec.protocol.reset();
        h = hashStr(read, h);
    }
    if (R.check(rec.got.size() == want.size(), "replayed", "delivered " + std::to_string(rec.got.size()) + " instead of " + std::to_string(want.size()) + " messages; " + log))
        for (size_t i = 0; i < want.size(); ++i) {
            std::string d = bridge::compare(bridge::expected(want[i]), rec.got[i]);
            R.check(d.empty(), "after-reset", "message " + std::to_string(i) + " " + d + "; " + log);
        }
    R.eval(h);
    R.sample(log);
}

//--------------------------------------------------------------------------- C07

// Announcements around the limits
PART(C07, announced)
{
    const bool be = index & 1;
    static const uint64_t edges[] = { 0, 1, 7, 8, 16, 23, 24, 200, 4096, 67108848, 67108856, 67108857, 67108863, 67108864, 67108865, 67108872, 100000000, 134217712, 134217713, 134217719, 134217720, 134217727, 134217728, 134217729, 0x7fffffff,
        0x80000000, 0xf8000000, 0xffffefff, 0xffffff18, 0xffffffd8, 0xffffffe0, 0xffffffe8, 0xfffffff0, 0xfffffff8, 0xfffffff9, 0xfffffffc, 0xffffffff };
    const size_t n = sizeof edges / sizeof *edges;
    uint64_t fields = edges[index / 2 % n], body = edges[index / 2 / n % n];
    if (index >= 2 * n * n) {
        fields = r.chance(1, 2) ? 16 + r.below(4081) : r.next() >> (32 + r.below(32));
        body = r.next() >> (32 + r.below(32));
        const uint64_t header = 16 + ((fields + 7) & ~7ull);
        switch (r.below(6)) {
        case 0:
            body = r.below(1000);
            break;
        case 1: // sums around a power of two
        case 2:
            body = uint32_t((1ull << (r.chance(1, 2) ? 32 : 27 + r.below(6))) - header - 8 + r.below(17));
            break;
        }
    }
    Gen g(r);
    // a header of just that size if that is small; otherwise only its start
    Enc e(be);
    e.b = be ? "B" : "l";
    e.b.push_back((char)r.range(1, 4));
    e.b += std::string("\0\1", 2);
    e.num(body, 4);
    e.num(5, 4);
    e.num(fields, 4);
    const bool headerTooLarge = fields > 67108864;
    const uint64_t total = 16 + ((fields + 7) & ~7ull) + body;
    std::string what = std::string(be ? "big" : "little") + " endian, " + std::to_string(fields) + " bytes of fields, body " + std::to_string(body);
    Receiver rec;
    auto cs = bridge::cuts(r, 16);
    bool failed = false;
    alloc::start();
    for (auto& c : cs)
        if (!feed(rec, e.b.data() + c.first, c.second, r)) {
            failed = true;
            R.check(c.first + c.second == 16, "refused-early", what + ": refused after " + std::to_string(c.first + c.second) + " bytes");
        }
    if (headerTooLarge) {
        R.check(failed, "not-refused", what + ": the header is not refused when it is announced");
        R.add("header_refused");
    } else if (failed) {
        // The total may be checked as soon as it is known
        R.check(total > 134217728, "legal-refused", what + ": refused although it is legal");
        R.add("total_refused");
    }
    if (!failed && fields <= 4096) {
        // complete the header with fields the receiver ignores, and see whether the total is refused then
        std::string rest;
        if (fields >= 16) {
            // one field: code 200, a string that fills the array
            Enc f(be);
            f.b.push_back((char)200);
            f.b += std::string("\1s\0", 3);
            f.num(fields - 9, 4);
            f.b += std::string(fields - 9, 'x');
            f.b.push_back(0);
            rest = f.b;
        }
        if (fields == 0 || fields >= 16) {
            while ((16 + rest.size()) % 8)
                rest.push_back(0);
            const bool f2 = rest.empty() ? !feed(rec, "l", body || !failed ? 0 : 0, r) : !feed(rec, rest.data(), rest.size(), r);
            if (total > 134217728) {
                R.check(f2 || rest.empty(), "not-refused", what + ": the message is not refused when its size is announced");
                R.add("total_refused");
            } else {
                R.check(!f2, "legal-refused", what + ": refused although it is legal");
                R.add("accepted");
            }
        }
    } else if (!failed)
        R.add("accepted");
    alloc::stop();
    R.check(alloc::peak < (4 << 20), "memory", what + ": " + std::to_string(alloc::peak) + " bytes of memory were taken on the announcement");
    if (body)
        R.check(rec.got.empty(), "delivered", what + ": something was delivered");
    R.eval(mix(fields * 0x1000003 + body * 2 + be) ^ cs.size());
    R.sample(what);
}

// A message without fields: its total is known after 16 bytes, but is refused at the latest with the next byte
PART(C07, nofields)
{
    const bool be = index & 1;
    const uint64_t k = index / 2, body = k < 4 ? 134217728 - 16 + 1 + k : k < 36 ? 0xffffffffull - (k - 4) : 134217728 - 16 + 1 + r.below(0xf8000000u);
    Enc e(be);
    e.b = be ? "B" : "l";
    e.b += std::string("\4\0\1", 3);
    e.num(body, 4);
    e.num(5, 4);
    e.num(0, 4);
    Receiver rec;
    bool failed = !feed(rec, e.b.data(), 16, r);
    if (!failed)
        failed = !feed(rec, "\0", 1, r);
    R.check(failed, "not-refused", "a message of 16 + " + std::to_string(body) + " bytes is not refused");
    R.eval(mix(body * 2 + be));
}

// What is legal, however large, is delivered
PART(C07, legal)
{
    Gen g(r);
    Msg m = g.message(false);
    m.be = index & 1;
    // up to just the limits; a third of the cases is exactly at one
    const size_t limit = 134217728;
    size_t header = encode(m).size();
    std::string sig = "s";
    std::string what;
    m.type = 1 + index / 2 % 4;
    m.fields = { { F_PATH, str("/a", 'o') }, { F_INTERFACE, str("a.b") }, { F_MEMBER, str("c") }, { F_ERROR_NAME, str("a.b") }, { F_REPLY_SERIAL, num('u', 4) } };
    m.sigPos = -1;
    size_t len;
    switch (index / 2 % 4) {
    case 0: // the total is exactly at the limit
        m.body = { str("") };
        header = encode(m).size() - 5;
        len = limit - header - 5;
        what = "total at the limit";
        break;
    case 1: { // the header is exactly at its limit
        m.body = { str("x"), num('u', 7) };
        m.fields.push_back({ 200, str("") });
        std::string b = encode(m);
        Dec d(b, m.be);
        d.o = 12;
        const size_t fields = d.num(4);
        // the signature follows; put the filler last
        m.sigPos = 0;
        m.fields.back().second = str(std::string(67108864 - fields - 24, 'f'));
        b = encode(m);
        Dec d2(b, m.be);
        d2.o = 12;
        const size_t now = d2.num(4);
        m.fields.back().second = str(std::string(67108864 - fields - 24 + (67108864 - now), 'f'));
        what = "header at the limit";
        len = 0;
        break;
    }
    case 2:
        len = r.range(20000000, 60000000);
        what = "large string";
        m.body = { str("") };
        break;
    default:
        len = 67108864 + r.below(1000000);
        what = "string above 64 MiB";
        m.body = { str("") };
    }
    if (len)
        m.body[0].s.assign(len, 'b');
    if (len > 100)
        m.body[0].s[len / 2] = 'M', m.body[0].s[len - 1] = 'E';
    std::string bytes = encode(m);
    what += ", " + std::to_string(bytes.size()) + " bytes";
    if (bytes.size() > limit) {
        R.violation("harness", what);
        return;
    }
    Receiver rec;
    const size_t step = r.range(100000, 30000000);
    for (size_t o = 0; o < bytes.size(); o += step) {
        const size_t l = std::min(step, bytes.size() - o);
        try {
            DBus::OctetBuffer ob((const uint8_t*)bytes.data() + o, l);
            rec.protocol.onReceiveData(ob);
        } catch (const std::exception& e) {
            R.violation("legal-refused", what + ": " + e.what());
            return;
        }
        ++R.beat;
    }
    if (R.check(rec.got.size() == 1, "legal-not-delivered", what)) {
        std::string d = bridge::compare(bridge::expected(m), rec.got[0]);
        R.check(d.empty(), "differs", what + ": " + d.substr(0, 300));
    }
    R.eval(mix(bytes.size() * 7 + index));
    R.maxOf("bytes", bytes.size());
    R.sample(what);
}

//--------------------------------------------------------------------------- C23

namespace {
void notDelivered(const std::string& bytes, Rng& r, const std::string& what)
{
    Receiver rec;
    bool all = r.chance(1, 2);
    if (all)
        feed(rec, bytes.data(), bytes.size(), r);
    else
        for (auto& c : bridge::cuts(r, bytes.size()))
            if (!feed(rec, bytes.data() + c.first, c.second, r))
                break;
    R.check(rec.got.empty(), "delivered", what + ": was delivered" + (rec.got.empty() ? "" : " with " + show(rec.got[0].args)) + "; bytes " + hex(bytes, 500));
    R.eval(hashStr(bytes, hashStr(what.substr(0, 5))));
}
}

// A boolean that is neither 0 nor 1 has no meaning
static bool oddBoolean(const std::vector<Val>& vs)
{
    for (auto& v : vs)
        if ((v.t == 'b' && v.u > 1) || oddBoolean(v.k))
            return true;
    return false;
}

// The body ends at every possible place before the end of its last value
PART(C23, truncated)
{
    Gen g(r);
    g.bytes = 300;
    g.budget = 25;
    Msg m = g.message();
    if (m.body.empty())
        m.body = { g.value(g.type()) };
    const std::string sig = sigOf(m.body);
    if (sig.size() > 255)
        return;
    Enc e(m.be);
    for (auto& v : m.body)
        e.val(v);
    const size_t step = e.b.size() > 300 ? e.b.size() / 150 : 1;
    for (size_t l = 0; l < e.b.size(); l += step) {
        if (l == 0)
            continue; // a body that is absent: see below
        std::string b = e.b.substr(0, l);
        notDelivered(encode(m, &sig, &b), r, "body cut at " + std::to_string(l) + " of " + std::to_string(e.b.size()) + ", sig '" + sig + "'");
    }
    R.add("bodies");
    R.sample(ctx(m, encode(m)));
}

// Lengths that reach beyond the container, in every place where there is a length
PART(C23, lengths)
{
    Gen g(r);
    g.bytes = 300;
    g.budget = 25;
    Msg m = g.message(false);
    // something with lengths inside
    static const char* ts[] = { "s", "as", "ay", "a(s)", "aas", "a{ss}", "(sas)", "v", "av", "aay", "a{sas}", "ao", "ag", "(gs)", "aaas", "a(yas)" };
    m.body = { num('y', 1), g.value(ts[index % 16]), num('u', 7), str("tail") };
    const std::string sig = sigOf(m.body);
    Enc e(m.be);
    for (auto& v : m.body)
        e.val(v);
    const std::string orig = e.b;
    // every aligned 32 bit word is made larger than what is left; where it was a length, the
    // reference decoder runs out of data
    for (size_t o = 0; o + 4 <= orig.size(); o += 4) {
        std::string b = orig;
        const uint32_t v = r.chance(1, 4) ? 0xffffffffu - r.below(16) : r.chance(1, 2) ? (uint32_t)(orig.size() - o + r.below(3)) : (uint32_t)(orig.size() + r.below(100000));
        for (int i = 0; i < 4; ++i)
            b[o + i] = (char)(v >> (8 * (m.be ? 3 - i : i)));
        Dec d(b, m.be);
        d.lenient = true;
        try {
            d.vals(sig);
        } catch (const Short&) {
            notDelivered(encode(m, &sig, &b), r, "length at " + std::to_string(o) + " is " + std::to_string(v) + ", sig '" + sig + "'");
            R.add("lengths");
        } catch (const Bad&) {
        }
    }
}

// Arrays whose length ends within an element
PART(C23, split)
{
    Gen g(r);
    g.bytes = 300;
    static const char* ts[] = { "n", "u", "t", "d", "s", "(yu)", "(ss)", "{su}", "{tt}", "as", "v", "g", "(y(yt))", "au" };
    const std::string t = ts[index % 14];
    Val a = array(t);
    const size_t n = r.range(1, 4);
    for (size_t i = 0; i < n; ++i)
        a.k.push_back(g.value(t));
    Msg m = g.message(false);
    m.body = { a };
    Val tail = g.value(r.chance(1, 2) ? "t" : "(tt)");
    const std::string sig = sigOf(a) + sigOf(tail);
    Enc e(m.be);
    e.val(a);
    const size_t data = t == "t" || t == "d" || t[0] == '(' || t[0] == '{' ? 8 : 4;
    const size_t len = e.b.size() - data;
    e.val(tail);
    for (size_t l = 1; l < len; ++l) {
        std::string b = e.b;
        for (int i = 0; i < 4; ++i)
            b[i] = (char)(l >> (8 * (m.be ? 3 - i : i)));
        Dec d(b, m.be);
        d.lenient = true;
        try {
            d.vals(sig);
        } catch (const Short&) {
            notDelivered(encode(m, &sig, &b), r, "array of '" + t + "' of " + std::to_string(l) + " instead of " + std::to_string(len) + " bytes");
            R.add("arrays");
        } catch (const Bad&) {
        }
    }
}

// Signatures with unknown and unterminated types, and nesting beyond the limit
PART(C23, types)
{
    Gen g(r);
    g.bytes = 200;
    Msg m = g.message(false);
    m.body = g.args(3);
    std::string sig = sigOf(m.body), what;
    if (sig.size() > 200)
        return;
    Enc e(m.be);
    for (auto& v : m.body)
        e.val(v);
    std::string body = e.b + std::string(r.range(8, 64), '\0');
    switch (index % 6) {
    case 0: {
        // an unknown type at any place that is read
        std::string c(1, "hzZ?!rem*@&^\x7f"[r.below(13)]);
        if (c == "h")
            c = "z";
        sig.insert(r.chance(1, 2) ? 0 : sig.size(), c);
        what = "unknown type";
        break;
    }
    case 1: {
        static const char* u[] = { "(", "(i", "(iy", "a", "aa", "a(", "a(i", "((i)", "a{", "a{s", "(a", "(ia" };
        sig += u[r.below(12)];
        what = "unterminated type";
        // data for everything that is there
        body = e.b + std::string(64, '\0');
        break;
    }
    case 2: {
        static const char* u[] = { "z", "", "(", "(i", "a", "aZ", "(Z)", "?" };
        std::string c = u[r.below(8)];
        Enc x(m.be);
        x.b = e.b;
        x.sig(c);
        x.num(4, 4);
        x.b += std::string(32, '\0');
        sig += "v";
        body = x.b;
        what = "variant of unknown or unterminated type '" + c + "'";
        break;
    }
    case 3: {
        const unsigned n = r.chance(1, 2) ? 65 : r.range(65, 300);
        Val v = num('y', 7);
        for (unsigned i = 0; i < n; ++i)
            v = variant(v);
        m.body = { v };
        sig = "v";
        Enc x(m.be);
        x.val(v);
        body = x.b;
        what = "variants nested " + std::to_string(n) + " deep";
        break;
    }
    case 4: {
        // containers of all kinds nested too deeply
        Val v = nest(num('y', 7), r.range(65, 120), g, 4 + index % 2);
        if (depthOf(v) < 65)
            return;
        sig = sigOf(v);
        if (sig.size() > 255)
            return;
        Enc x(m.be);
        x.val(v);
        body = x.b;
        what = "nested " + std::to_string(depthOf(v)) + " deep";
        break;
    }
    default: {
        const unsigned n = r.range(65, 250);
        // structs or arrays only
        const bool s = r.chance(1, 2);
        sig = s ? std::string(n / 2 + 33, '(') + "y" + std::string(n / 2 + 33, ')') : std::string(n, 'a') + "y";
        if (sig.size() > 255)
            sig = std::string(127, '(') + "y" + std::string(127, ')');
        if (s)
            body = std::string(64, '\7');
        else {
            // every array contains one array
            Enc x(m.be);
            for (unsigned i = 0; i < n; ++i)
                x.num((n - i - 1) * 4 + 1, 4);
            x.b += "\7";
            body = x.b;
        }
        what = "too many nested containers: " + std::to_string(sig.size());
    }
    }
    notDelivered(encode(m, &sig, &body), r, what + ", sig '" + sig + "'");
    static const char* kinds[] = { "unknown types", "unterminated types", "variants of such", "nested variants", "nested containers", "nested structs or arrays" };
    R.add(kinds[index % 6]);
    R.sample(what + ", sig '" + sig + "'");
}

// Anything at all in the body: whatever is delivered is what a decoder finds there
PART(C23, mutated)
{
    Gen g(r);
    g.bytes = 300;
    g.budget = 25;
    Msg m = g.message();
    std::string sig = sigOf(m.body);
    if (sig.empty())
        return;
    Enc e(m.be);
    for (auto& v : m.body)
        e.val(v);
    for (unsigned k = 0; k < 20; ++k) {
        std::string b = e.b;
        const unsigned n = r.range(1, 4);
        for (unsigned i = 0; i < n; ++i)
            switch (r.below(5)) {
            case 0:
                b[r.below(b.size())] = (char)r.next();
                break;
            case 1:
                b[r.below(b.size())] ^= 1 << r.below(8);
                break;
            case 2:
                b[r.below(b.size())] = (char)r.below(4);
                break;
            case 3:
                b.insert(r.below(b.size() + 1), 1 + r.below(8), (char)r.below(3));
                break;
            default:
                if (b.size() > 2)
                    b.erase(r.below(b.size() - 1), 1 + r.below(4));
            }
        if (b.empty())
            continue;
        Dec d(b, m.be);
        d.lenient = true;
        std::vector<Val> want;
        bool decided = true, isShort = false;
        try {
            want = d.vals(sig);
            decided = !oddBoolean(want);
        } catch (const Short&) {
            isShort = true;
        } catch (const Bad&) {
            decided = false;
        }
        Receiver rec;
        const std::string bytes = encode(m, &sig, &b);
        feed(rec, bytes.data(), bytes.size(), r);
        if (!decided)
            R.add("undecided");
        else if (isShort)
            R.check(rec.got.empty(), "delivered", "a body that is too short was delivered; sig '" + sig + "' bytes " + hex(bytes, 500));
        else if (!rec.got.empty()) {
            R.add("mutants_delivered");
            R.check(rec.got.size() == 1 && same(rec.got[0].args, want, true) && rec.got[0].unreadable.empty(), "invented",
                "delivered " + show(rec.got[0].args) + " but the message has " + show(want) + "; sig '" + sig + "' bytes " + hex(bytes, 500) + rec.got[0].unreadable);
        }
        R.eval(hashStr(bytes));
    }
    R.sample(ctx(m, encode(m)));
}

// Declared arguments, but no body at all: no values may be made up
PART(C23, absent)
{
    Gen g(r);
    Msg m = g.message(false);
    std::string sig;
    while (sig.empty() || sig.size() > 255)
        sig = sigOf(g.args(4));
    std::string none;
    std::string bytes = encode(m, &sig, &none);
    Receiver rec;
    feed(rec, bytes.data(), bytes.size(), r);
    for (auto& s : rec.got)
        R.check(s.args.empty(), "invented", "arguments " + show(s.args) + " of a message without body; " + hex(bytes));
    R.eval(hashStr(bytes));
}

//--------------------------------------------------------------------------- C34
IN_ANY_LOCALE(received, C02_random);
IN_ANY_LOCALE(headers, C17_headers);
IN_ANY_LOCALE(bad, C06_isolation);
