// C01: what is sent; C03: values sent on; C09: serials
#include "anylocale.h"
#include "parts.h"
#include "bridge.h"
#include "dbuslib.h"
#include <thread>

using namespace vh;
using namespace ref;
namespace M = DBus::Message;

namespace {

struct Built {
    std::string bytes, again;
    Msg want;
};

void addParam(M::MethodCallParametersIn& p, const Val& v, Rng& r)
{
    if (v.t == 'y' && r.chance(1, 2))
        p.add((uint8_t)v.u);
    else if (v.t == 'u' && r.chance(1, 2))
        p.add((uint32_t)v.u);
    else if (v.t == 's' && r.chance(1, 2))
        p.add(v.s);
    else
        p.add(bridge::toLib(v));
}

// Builds and marshals a message of kind `m.type` through the public API.
Built build(Msg m, Rng& r, const std::vector<bridge::G>* values = nullptr)
{
    Built b;
    const std::string dest = m.text(F_DESTINATION);
    M::MethodCallIdentifier id(m.text(F_PATH), m.text(F_INTERFACE), m.text(F_MEMBER));
    auto each = [&](std::function<void(const bridge::G&)> f) {
        for (size_t i = 0; i < m.body.size(); ++i)
            f(values ? (*values)[i] : bridge::toLib(m.body[i]));
    };
    switch (m.type) {
    case CALL: {
        std::unique_ptr<M::MethodCallParametersIn> p;
        if (!values && m.body.size() == 1 && m.body[0].t == 's' && r.chance(1, 2))
            p.reset(new M::MethodCallParametersIn(m.body[0].s));
        else if (!values && m.body.size() == 2 && m.body[0].t == 's' && m.body[1].t == 'u' && r.chance(1, 2))
            p.reset(new M::MethodCallParametersIn(m.body[0].s, (uint32_t)m.body[1].u));
        else if (!values && m.body.size() == 1 && r.chance(1, 3))
            p.reset(new M::MethodCallParametersIn(bridge::toLib(m.body[0])));
        else {
            p.reset(new M::MethodCallParametersIn());
            for (size_t i = 0; i < m.body.size(); ++i)
                if (values)
                    p->add((*values)[i]);
                else
                    addParam(*p, m.body[i], r);
        }
        uint32_t flags = m.flags & 3;
        if (r.chance(1, 10))
            flags |= 0xf8; // extraneous, to be ignored
        M::MethodCall c = m.body.empty() && !flags ? M::MethodCall(id) : M::MethodCall(id, *p, flags);
        m.serial = c.getSerial();
        m.flags &= 3;
        b.bytes = c.marshall(dest);
        b.again = c.marshall(dest);
        break;
    }
    case RETURN: {
        M::MethodReturn c(m.field(F_REPLY_SERIAL)->u);
        each([&](const bridge::G& g) { c.addParameter(g); });
        m.serial = c.getSerial();
        m.flags = 0;
        b.bytes = c.marshall(dest);
        b.again = c.marshall(dest);
        break;
    }
    case ERROR: {
        M::Error c(m.field(F_REPLY_SERIAL)->u, m.text(F_ERROR_NAME), m.body[0].s);
        m.serial = c.getSerial();
        m.flags = 0;
        b.bytes = c.marshall(dest);
        b.again = c.marshall(dest);
        break;
    }
    default: {
        M::Signal c(id);
        each([&](const bridge::G& g) { c.addParameter(g); });
        m.serial = c.getSerial();
        m.flags = 0;
        b.bytes = c.marshall(dest);
        b.again = c.marshall(dest);
    }
    }
    b.want = m;
    return b;
}

// The fields that belong to a message sent by the library, of the kind `type`
Msg skeleton(Gen& g, uint8_t type)
{
    Msg m;
    Rng& r = g.r;
    m.type = type;
    m.flags = type == CALL ? r.below(4) : 0;
    if (type == CALL || type == SIGNAL) {
        m.set(F_PATH, str(g.path(), 'o'));
        if (type == SIGNAL || r.chance(4, 5))
            m.set(F_INTERFACE, str(g.interface()));
        m.set(F_MEMBER, str(g.name()));
    } else
        m.set(F_REPLY_SERIAL, num('u', g.serial()));
    if (type == ERROR)
        m.set(F_ERROR_NAME, str(g.interface()));
    if (r.chance(3, 4))
        m.set(F_DESTINATION, str(g.busname()));
    return m;
}

void judge(const Built& b, const std::string& what, bool useLibdbus = true)
{
    const std::string ctx = what + " type " + std::to_string(b.want.type) + " sig '" + sigOf(b.want.body) + "' values " + show(b.want.body) + " bytes " + hex(b.bytes, 300);
    R.check(b.bytes == b.again, "marshalled-twice", "marshalling the same message again gives other bytes; " + ctx);
    Msg got;
    try {
        got = decode(b.bytes);
    } catch (const Bad& e) {
        R.violation("malformed", std::string("strict decoder: ") + e.what() + "; " + ctx);
        return;
    }
    std::string d;
    if (got.be != (__BYTE_ORDER == __BIG_ENDIAN))
        d = "byte order mark";
    if (got.type != b.want.type)
        d = "type";
    else if (got.flags != b.want.flags)
        d = "flags " + std::to_string(got.flags) + " instead of " + std::to_string(b.want.flags);
    else if (got.serial != b.want.serial)
        d = "serial";
    else if (!same(got.body, b.want.body))
        d = "arguments " + sigOf(got.body) + " " + show(got.body);
    else {
        std::map<int, Val> w, g;
        for (auto& f : b.want.fields)
            w[f.first] = f.second;
        for (auto& f : got.fields)
            g[f.first] = f.second;
        for (auto& f : w)
            if (!g.count(f.first) || !same(g[f.first], f.second))
                d = "header field " + std::to_string(f.first);
        for (auto& f : g)
            if (!w.count(f.first))
                d = "header field " + std::to_string(f.first) + " that was not given";
    }
    R.check(d.empty(), "not-as-given", d + "; " + ctx);
    if (useLibdbus) {
        d = dbl::judge(b.bytes, b.want);
        R.check(d.empty(), "libdbus", d + "; " + ctx);
        R.add("libdbus_accepts");
    }
    R.eval(hashStr(b.bytes.substr(12), b.want.type * 31 + b.want.flags));
    R.add(std::string("kind_") + std::to_string(b.want.type));
    R.maxOf("bytes", b.bytes.size());
    R.sample(ctx);
}

std::vector<Val> shapes(Rng& r)
{
    std::vector<Val> s;
    Gen g(r);
    g.constructible = true;
    for (const char* t : { "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v" })
        s.push_back(g.value(t));
    for (const char* t : { "s", "o", "g", "u" })
        s.push_back(variant(g.value(t)));
    for (const char* t : { "ay", "ab", "an", "aq", "ai", "au", "ax", "at", "ad", "as", "ao", "ag", "av", "a(y)", "a(yt)", "a{sv}", "a{yx}", "a{sas}", "a{ua{yd}}", "(y)", "(d)", "(yv)", "((y)y)", "(ybnqiuxtdsogv)" }) {
        s.push_back(g.value(t));
        if (t[0] == 'a')
            s.push_back(array(t + 1));
    }
    return s;
}

} // namespace

PART(C01, random)
{
    Gen g(r);
    g.constructible = true;
    Msg m = skeleton(g, 1 + index % 4);
    if (m.type == ERROR)
        m.body = { str(g.text(g.length())) };
    else
        m.body = g.args(8);
    judge(build(m, r), "random");
}

// Every combination of up to three types, so at every alignment
PART(C01, triples)
{
    auto s = shapes(r);
    const size_t n = s.size();
    const size_t a = index % n, b = index / n % n, c = index / n / n % (n + 1);
    Gen g(r);
    Msg m = skeleton(g, r.chance(1, 3) ? RETURN : r.chance(1, 2) ? SIGNAL : CALL);
    m.body = { s[a], s[b] };
    if (c < n)
        m.body.push_back(s[c]);
    judge(build(m, r), "triple", index % 8 == 0);
}

// Combinations within containers
PART(C01, nested)
{
    Gen g(r);
    g.constructible = true;
    g.maxDepth = 12;
    Msg m = skeleton(g, r.chance(1, 3) ? RETURN : r.chance(1, 2) ? SIGNAL : CALL);
    std::string t = "(";
    const size_t n = r.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
        std::string e = g.type(r.below(8), true);
        if (t.size() + e.size() < 200)
            t += e;
    }
    t += ")";
    if (r.chance(1, 2))
        t = "a" + t;
    else if (r.chance(1, 2))
        t = "a{" + std::string(1, g.basic()) + t + "}";
    if (typeEnd(t, 0) != t.size())
        return;
    m.body = { num('y', 1), g.value(t), num('y', 2), g.value(t), num('t', 3) };
    if (sigOf(m.body).size() > 255)
        return;
    judge(build(m, r), "nested");
}

// Signatures about as long as is allowed
PART(C01, bigsig)
{
    const size_t want = 248 + index % 14;
    Gen g(r);
    g.constructible = true;
    Msg m = skeleton(g, r.chance(1, 3) ? RETURN : r.chance(1, 2) ? SIGNAL : CALL);
    std::string sig;
    g.bytes = 2000;
    while (sig.size() < want) {
        std::string t = r.chance(1, 3) ? g.type(4) : std::string(1, g.basic());
        if (sig.size() + t.size() > want)
            t = "y";
        sig += t;
        m.body.push_back(g.value(t));
    }
    // what is too long may also be the signature of one value
    if (r.chance(1, 3) && want < 254) {
        Val v;
        v.t = '(';
        bool ok = true;
        for (auto& x : m.body)
            ok = ok && x.t != 'a';
        if (ok) {
            v.k = m.body;
            m.body = { v };
        }
    }
    const bool fits = sigOf(m.body).size() <= 255;
    try {
        Built b = build(m, r);
        if (fits)
            judge(b, "bigsig");
        else
            R.violation("signature-too-long", "a message with a signature of " + std::to_string(sigOf(m.body).size()) + " bytes was marshalled: " + hex(b.bytes, 200));
    } catch (const std::exception& e) {
        R.check(!fits, "signature-refused", "a signature of " + std::to_string(sigOf(m.body).size()) + " bytes was refused: " + e.what());
        R.eval(hashStr(sigOf(m.body)));
        R.add("refused");
    }
}

PART(C01, large)
{
    Gen g(r);
    g.constructible = true;
    Msg m = skeleton(g, r.chance(1, 3) ? RETURN : r.chance(1, 2) ? SIGNAL : CALL);
    static const size_t ls[] = { 65535, 65536, 100000, 1 << 20, (1 << 20) + 3, 5000000, 16777215, 16777216, 16777217 };
    const size_t l = ls[r.below(R.thorough ? 9 : 6)];
    switch (index % 4) {
    case 0:
        m.body = { num('y', 1), str(g.text(l)), num('t', 5) };
        break;
    case 1: {
        Val a = array("y");
        for (size_t i = 0; i < std::min<size_t>(l, 300000); ++i)
            a.k.push_back(num('y', r.below(256)));
        m.body = { num('n', 1), a, num('d', 5) };
        break;
    }
    case 2: {
        Val a = array("(ys)");
        for (size_t i = 0; i < std::min<size_t>(l, 40000); ++i) {
            Val s;
            s.t = '(';
            s.k = { num('y', i & 255), str(g.text(i % 9)) };
            a.k.push_back(s);
        }
        m.body = { str("x"), a, num('y', 5) };
        break;
    }
    default: {
        Val a = array("s");
        for (size_t i = 0; i < 5; ++i)
            a.k.push_back(str(g.text(l / 5 + i)));
        m.body = { a, num('y', 5), num('x', 6) };
    }
    }
    judge(build(m, r), "large");
}

// Values built in steps: cleared, set, added to after being copied, marshalled more than once
PART(C01, reuse)
{
    namespace T = DBus::Type;
    Gen g(r);
    g.constructible = true;
    Val sv = g.value("(yv)"), av = g.value("a(yv)");
    T::Struct s = boost::any_cast<T::Struct>(bridge::toLib(g.value("(sd)")));
    s.clear();
    for (auto& c : sv.k)
        bridge::addTo(s, bridge::toLib(c), c.t);
    T::Array a;
    for (auto& c : av.k)
        bridge::addTo(a, bridge::toLib(c), c.t);
    a.add(s);
    av.k.push_back(sv);
    T::Array copy = a;
    copy.add(s);
    Val cv = av;
    cv.k.push_back(sv);
    T::DictEntry e(T::String("old"), T::Byte(1));
    Val kv = num('u', g.number('u'));
    e.set(bridge::toLib(kv), bridge::toLib(sv));
    T::Array dict;
    dict.add(e);
    std::string text = g.text(5);
    T::DictEntry e2(text, (uint32_t)kv.u);
    T::Array dict2;
    dict2.add(e2);
    std::string text2 = g.text(9);
    T::DictEntry e3(text, text2);
    T::Array dict3;
    dict3.add(e3);
    Val d = array("{u(yv)}"), d2 = array("{su}"), d3 = array("{ss}"), ent;
    ent.t = '{';
    ent.k = { kv, sv };
    d.k = { ent };
    ent.k = { str(text), kv };
    d2.k = { ent };
    ent.k = { str(text), str(text2) };
    d3.k = { ent };
    Msg m = skeleton(g, index % 2 ? SIGNAL : CALL);
    m.body = { av, cv, num('y', 1), d, d2, num('y', 2), d3 };
    std::vector<bridge::G> v = { a, copy, T::Byte(1), dict, dict2, T::Byte(2), dict3 };
    judge(build(m, r, &v), "reuse");
}

// One message marshalled several times: for several destinations, with arguments added in between, and copies of it
PART(C01, again)
{
    Gen g(r);
    g.constructible = true;
    g.bytes = 2000;
    struct One {
        Msg m;
        std::shared_ptr<M::MethodCall> call;
        std::shared_ptr<M::MethodReturn> ret;
        std::shared_ptr<M::Error> error;
        std::shared_ptr<M::Signal> signal;
    };
    std::vector<One> all;
    const unsigned steps = r.range(3, 12);
    for (unsigned i = 0; i < steps; ++i) {
        g.budget = 20;
        if (all.empty() || r.chance(1, 5)) {
            One o;
            o.m = skeleton(g, 1 + r.below(4));
            M::MethodCallIdentifier id(o.m.text(F_PATH), o.m.text(F_INTERFACE), o.m.text(F_MEMBER));
            switch (o.m.type) {
            case CALL: {
                o.m.body = g.args(3);
                o.m.flags &= 3;
                M::MethodCallParametersIn in;
                for (auto& v : o.m.body)
                    addParam(in, v, r);
                o.call.reset(new M::MethodCall(id, in, o.m.flags));
                o.m.serial = o.call->getSerial();
                break;
            }
            case RETURN:
                o.ret.reset(new M::MethodReturn(o.m.field(F_REPLY_SERIAL)->u));
                o.m.serial = o.ret->getSerial();
                break;
            case ERROR:
                o.m.body = { str(g.text(g.length())) };
                o.error.reset(new M::Error(o.m.field(F_REPLY_SERIAL)->u, o.m.text(F_ERROR_NAME), o.m.body[0].s));
                o.m.serial = o.error->getSerial();
                break;
            default:
                o.signal.reset(new M::Signal(id));
                o.m.serial = o.signal->getSerial();
            }
            all.push_back(o);
        } else if (r.chance(1, 4)) { // a copy
            One o = all[r.below(all.size())];
            if (o.call)
                o.call.reset(new M::MethodCall(*o.call));
            if (o.ret)
                o.ret.reset(new M::MethodReturn(*o.ret));
            if (o.error)
                o.error.reset(new M::Error(*o.error));
            if (o.signal)
                o.signal.reset(new M::Signal(*o.signal));
            all.push_back(o);
        }
        One& o = all[r.below(all.size())];
        if (o.ret || o.signal)
            for (unsigned n = r.below(3); n; --n) {
                Val v = g.value(g.type(1));
                if (sigOf(o.m.body).size() + sigOf(v).size() > 255)
                    break;
                o.m.body.push_back(v);
                if (o.ret)
                    o.ret->addParameter(bridge::toLib(v));
                else
                    o.signal->addParameter(bridge::toLib(v));
            }
        std::string dest;
        for (size_t f = 0; f < o.m.fields.size(); ++f)
            if (o.m.fields[f].first == F_DESTINATION)
                o.m.fields.erase(o.m.fields.begin() + f--);
        if (r.chance(3, 4)) {
            dest = r.chance(1, 2) ? "a.b" : g.busname();
            o.m.set(F_DESTINATION, str(dest));
        }
        auto marshal = [&] { return o.call ? o.call->marshall(dest) : o.ret ? o.ret->marshall(dest) : o.error ? o.error->marshall(dest) : o.signal->marshall(dest); };
        Built b;
        b.bytes = marshal();
        b.again = r.chance(1, 2) ? marshal() : b.bytes;
        b.want = o.m;
        judge(b, "again", i % 4 == 0);
    }
}

//--------------------------------------------------------------------------- C03

namespace {
// Receives the message, sends its arguments on in a message of another kind, and returns that
void relay(const Msg& in, Rng& r, const std::string& what, unsigned hops)
{
    Msg cur = in;
    for (unsigned hop = 0; hop < hops; ++hop) {
        Built out;
        bool got = false;
        bridge::Receiver rec;
        const std::string bytes = encode(cur);
        rec.onMessage = [&](const M::Base& b, int) {
            std::vector<bridge::G> v;
            if (b.getParameterCount() != in.body.size())
                return;
            for (size_t i = 0; i < b.getParameterCount(); ++i)
                v.push_back(b.getParameter(i));
            Gen g(r);
            Msg m = skeleton(g, r.chance(1, 3) ? RETURN : r.chance(1, 2) ? SIGNAL : CALL);
            m.body = in.body;
            out = build(m, r, &v);
            got = true;
        };
        rec.feed(bytes, r.below(8));
        if (!R.check(got, "not-received", what + ": the message to relay was not delivered with all arguments (or could not be sent); sig '" + sigOf(in.body) + "' " + hex(bytes, 300)))
            return;
        judge(out, what);
        try {
            cur = decode(out.bytes);
        } catch (const Bad&) {
            return;
        }
        cur.be = r.chance(1, 2);
    }
}
}

PART(C03, random)
{
    Gen g(r);
    g.maxDepth = r.chance(1, 4) ? 14 : 6;
    g.bytes = 20000;
    Msg m = g.message();
    if (m.body.empty())
        m.body = { g.value(g.type()) };
    if (sigOf(m.body).size() > 255)
        return;
    relay(m, r, "relay", r.range(1, 3));
}

// Every pair of types
PART(C03, pairs)
{
    static const char* ts[] = { "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "ay", "aq", "au", "at", "ad", "as", "ag", "av", "aay", "aas", "aav", "a(y)", "a(tv)",
        "a{sv}", "a{yay}", "a{ta{sv}}", "(y)", "(d)", "(yay)", "(ya{sv})", "((v)at)", "aa{sv}", "(ybnqiuxtdsogv)" };
    const size_t n = sizeof ts / sizeof *ts;
    Gen g(r);
    Msg m = g.message(false);
    m.be = index & 1;
    m.body = { g.value(ts[index / 2 % n]), g.value(ts[index / 2 / n % n]), g.value(ts[r.below(n)]) };
    relay(m, r, "pair", 1);
}

// Nesting up to the limit
PART(C03, deep)
{
    Gen g(r);
    Msg m = g.message(false);
    Val v = g.value(std::string(1, g.basic()));
    unsigned total = r.range(2, 64), arrays = 0, structs = 0;
    for (unsigned i = 0; i < total; ++i) {
        unsigned k = r.below(4);
        if ((k == 0 && arrays >= 30) || (k == 1 && structs >= 30) || (k == 3 && (arrays >= 30 || structs >= 30)) || sigOf(v).size() > 200)
            k = 2;
        if (k == 0) {
            v = array(sigOf(v), { v });
            ++arrays;
        } else if (k == 1) {
            Val s;
            s.t = '(';
            s.k = { v };
            v = s;
            ++structs;
        } else if (k == 2) {
            v = variant(v);
            arrays = structs = 0;
        } else if (i + 2 <= total) {
            Val e;
            e.t = '{';
            e.k = { g.value(std::string(1, "ysut"[r.below(4)])), v };
            v = array(sigOf(e), { e });
            ++arrays, ++structs, ++i;
        } else {
            v = variant(v);
            arrays = structs = 0;
        }
    }
    m.body = { num('y', 3), v, num('t', 1) };
    relay(m, r, "deep", 1);
}

//--------------------------------------------------------------------------- C09

namespace {
uint32_t wireSerial(const std::string& b)
{
    uint32_t u = 0;
    memcpy(&u, b.data() + 8, 4);
    return u;
}

// Creates one message of kind k; returns its serial, checks it against the wire
uint32_t create(unsigned k, Rng& r, bool wire)
{
    uint32_t s = 0;
    std::string b;
    auto with = [&](auto&& m) {
        s = m.getSerial();
        if (wire) {
            auto copy = m; // a copy is the same message
            b = copy.marshall("a.b");
            if (wireSerial(b) != s || copy.getSerial() != s || wireSerial(m.marshall("")) != s)
                R.violation("wire-serial", "getSerial is " + std::to_string(s) + ", the wire has " + std::to_string(wireSerial(b)));
        }
    };
    M::MethodCallIdentifier id("/a", "a.b", "c");
    switch (k % 5) {
    case 0:
        with(M::MethodCall(id));
        break;
    case 1:
        with(M::MethodReturn(1 + r.below(9)));
        break;
    case 2:
        with(M::Error(1 + r.below(9), "a.b", "c"));
        break;
    case 3:
        with(M::Signal(id));
        break;
    default:
        with(M::MethodCall(id, M::MethodCallParametersIn("x", 5), M::Header::FLAGS_NO_REPLY_EXPECTED));
    }
    return s;
}
}

// Many threads create messages of all kinds; all serials of this process must differ
static void serials(Rng& r, uint64_t, size_t per)
{
    static std::unordered_set<uint32_t> used;
    const size_t threads = r.range(2, 10);
    std::vector<std::vector<uint32_t>> got(threads);
    std::atomic<int> go { 0 };
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; ++t) {
        uint64_t seed = r.next();
        ts.emplace_back([&, t, seed] {
            Rng q(seed);
            got[t].reserve(per);
            ++go;
            while (go < (int)threads)
                ;
            for (size_t i = 0; i < per; ++i) {
                got[t].push_back(create(q.below(5), q, i % 16 == 0));
                if (i % 64 == 0 && q.chance(1, 4))
                    std::this_thread::yield();
            }
        });
    }
    for (auto& t : ts)
        t.join();
    uint64_t h = 0, switches = 0;
    std::vector<std::pair<uint32_t, int>> order;
    for (size_t t = 0; t < threads; ++t)
        for (uint32_t s : got[t]) {
            R.check(s != 0, "serial-zero", "a message has the serial zero");
            R.check(used.insert(s).second, "serial-repeated", "the serial " + std::to_string(s) + " was given twice");
            order.push_back({ s, (int)t });
        }
    std::sort(order.begin(), order.end());
    for (size_t i = 1; i < order.size(); ++i)
        if (order[i].second != order[i - 1].second) {
            ++switches;
            h = mix(h ^ order[i].first ^ order[i].second);
        }
    R.add("serials", threads * per);
    R.add("thread_switches_in_serial_order", switches);
    R.eval(h, switches > threads);
    R.sample(std::to_string(threads) + " threads x " + std::to_string(per) + " messages, " + std::to_string(switches) + " thread switches in serial order, serials " + std::to_string(order.front().first) + ".." + std::to_string(order.back().first));
}
PART(C09, threads) { serials(r, index, 2000); }
// The counter starts just below the end of the 32 bit space in the build this runs with
PART(C09, wrap) { serials(r, index, 1000); }

//--------------------------------------------------------------------------- C34
IN_ANY_LOCALE(built, C01_random);
IN_ANY_LOCALE(sent_on, C03_random);
