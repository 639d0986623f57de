// See bridge.h
#include "bridge.h"

namespace bridge {

double asDouble(uint64_t u)
{
    double d;
    memcpy(&d, &u, 8);
    return d;
}

G toLib(const Val& v);  template <class C> void addTo(C& c, const G& g, char t)
{
#define ADD(code, type)                            \
    case code:                                     \
        c.add(boost::any_cast<const T::type&>(g)); \
        return;
    switch (t) {
        ADD('y', Byte)
        ADD('b', Boolean)
        ADD('n', Int16)
        ADD('q', Uint16)
        ADD('i', Int32)
        ADD('u', Uint32)
        ADD('x', Int64)
        ADD('t', Uint64)
        ADD('d', Double)
        ADD('s', String)
        ADD('o', ObjectPath)
        ADD('g', Signature)
        ADD('v', Variant)
        ADD('(', Struct)
        ADD('{', DictEntry)
    }
#undef ADD
    throw std::logic_error("not constructible");
}

G toLib(const Val& v)
{
    switch (v.t) {
    case 'y':
        return T::Byte((size_t)v.u);
    case 'b':
        return T::Boolean((uint32_t)v.u);
    case 'n':
        return T::Int16((int16_t)v.u);
    case 'q':
        return T::Uint16((uint16_t)v.u);
    case 'i':
        return T::Int32((int32_t)v.u);
    case 'u':
        return T::Uint32((uint32_t)v.u);
    case 'x':
        return T::Int64((int64_t)v.u);
    case 't':
        return T::Uint64((uint64_t)v.u);
    case 'd':
        return T::Double(asDouble(v.u));
    case 's':
        return T::String(v.s);
    case 'o':
        return T::ObjectPath(v.s);
    case 'g':
        return T::Signature(v.s);
    case 'v':
        switch (v.sig[0]) {
        case 'o':
            return T::Variant(T::ObjectPath(v.k[0].s));
        case 's':
            return T::Variant(T::String(v.k[0].s));
        case 'u':
            return T::Variant(T::Uint32((uint32_t)v.k[0].u));
        case 'g':
            return T::Variant(T::Signature(v.k[0].s));
        }
        break;
    case 'a': {
        T::Array a;
        if (v.k.empty())
            a.setSignature("a" + v.sig);
        for (auto& c : v.k)
            addTo(a, toLib(c), c.t);
        return a;
    }
    case '(': {
        T::Struct s;
        for (auto& c : v.k)
            addTo(s, toLib(c), c.t);
        return s;
    }
    case '{':
        return T::DictEntry(toLib(v.k[0]), toLib(v.k[1]));
    }
    throw std::logic_error("not constructible: " + sigOf(v));
}

Val fromLib(const G& g)
{
    Val v;
    const std::string sig = T::getMarshallingSignature(g);
    if (sig.empty())
        throw Unreadable("value without a signature");
    v.t = sig[0];
    switch (v.t) {
    case 'y':
    case 'b':
    case 'q':
    case 'u':
    case 't':
    case 'n':
    case 'i':
    case 'x': {
        const std::string s = T::asString(g);
        char* end = nullptr;
        errno = 0;
        if (strchr("nix", v.t))
            v.u = (uint64_t)strtoll(s.c_str(), &end, 10);
        else
            v.u = strtoull(s.c_str(), &end, 10);
        if (s.empty() || *end || errno)
            throw Unreadable("text of a number is '" + s + "'");
        const size_t n = ref::sizeOf(v.t);
        if (n < 8) {
            const uint64_t mask = (1ull << (8 * n)) - 1;
            const int64_t sv = (int64_t)v.u;
            if (strchr("ni", v.t) ? (sv > (int64_t)(mask >> 1) || sv < -(int64_t)(mask >> 1) - 1) : v.u > mask)
                throw Unreadable("text of a number is out of range: " + s);
            v.u &= mask;
        }
        if (v.t == 'y' && T::asByte(g) != v.u)
            throw Unreadable("asByte differs from the text");
        if (v.t == 'u' && T::asUint32(g) != v.u)
            throw Unreadable("asUint32 differs from the text");
        break;
    }
    case 'd': {
        const std::string s = T::asString(g);
        char* end = nullptr;
        double d = strtod(s.c_str(), &end);
        if (s.empty() || *end)
            throw Unreadable("text of a double is '" + s + "'");
        memcpy(&v.u, &d, 8);
        break;
    }
    case 's':
    case 'o':
        v.s = T::asString(g);
        break;
    case 'g':
        v.s = T::asString(g);
        if (T::refSignature(g).getValue() != v.s)
            throw Unreadable("getValue of a signature differs from its text");
        break;
    case 'v': {
        const G& c = T::refVariant(g).getValue();
        v.sig = T::getMarshallingSignature(c);
        v.k.push_back(fromLib(c));
        break;
    }
    case 'a': {
        const T::Array& a = T::refArray(g);
        v.sig = a.getSignature().substr(1);
        if (a.size() != a.getContents().size())
            throw Unreadable("size of an array");
        for (auto& c : a.getContents())
            v.k.push_back(fromLib(c));
        break;
    }
    case '(': {
        const T::Struct& s = T::refStruct(g);
        for (size_t i = 0; i < s.getEntries(); ++i)
            v.k.push_back(fromLib(s[i]));
        break;
    }
    case '{': {
        // there is no access to the key and the value other than marshalling
        DBus::MessageOStream os;
        T::marshallData(g, os);
        ref::Dec d(os.data, false);
        d.lenient = true;
        v = d.val(sig);
        break;
    }
    default:
        throw Unreadable("signature " + sig);
    }
    return v;
}

std::vector<Val> fromMessage(const DBus::Message::Base& m)
{
    std::vector<Val> r;
    for (size_t i = 0; i < m.getParameterCount(); ++i)
        r.push_back(fromLib(m.getParameter(i)));
    return r;
}

G viaBytes(const Val& v, bool be)
{
    ref::Enc e(be);
    e.val(v);
    // the values are taken from a buffer of exactly this size, for the sanitizers
    std::vector<uint8_t> b(e.b.begin(), e.b.end());
    DBus::MessageIStream is(b.data(), b.size(), be);
    G g = T::create(sigOf(v));
    T::unmarshallData(g, is);
    return g;
}

void Seen::base(const DBus::Message::Base& m)
{
    serial = m.getSerial();
    replySerial = m.getReplySerial();
    path = m.getHeaderPath();
    interface = m.getHeaderInterface();
    member = m.getHeaderMember();
    sender = m.getHeaderSender();
    destination = m.getHeaderDestination();
    replyExpected = m.isReplyExpected();
    try {
        args = fromMessage(m);
    } catch (const std::exception& e) {
        unreadable = e.what();
    }
}

uint64_t digest(const Seen& s)
{
    std::string t = std::to_string(s.kind) + "|" + std::to_string(s.serial) + "|" + std::to_string(s.replySerial) + "|" + std::to_string(s.replyingTo)
        + "|" + s.path + "|" + s.interface + "|" + s.member + "|" + s.sender + "|" + s.destination + "|" + s.errorText + (s.replyExpected ? "|r" : "|n")
        + s.unreadable + sigOf(s.args);
    ref::Enc e;
    try {
        for (auto& v : s.args)
            e.val(v);
    } catch (...) {
    }
    return vh::hashStr(e.b, vh::hashStr(t));
}

Seen seen(const DBus::Message::MethodCall& m)
{
    Seen s;
    s.kind = ref::CALL;
    s.base(m);
    if (m.getObject() != s.path || m.getInterface() != s.interface || m.getMethod() != s.member || m.getFullName() != s.interface + "." + s.member)
        s.unreadable += "call identifiers differ from the header";
    return s;
}

Seen seen(const DBus::Message::MethodReturn& m)
{
    Seen s;
    s.kind = ref::RETURN;
    s.base(m);
    s.replyingTo = m.m_SerialReplyingTo;
    return s;
}

Seen seen(const DBus::Message::Error& m)
{
    Seen s;
    s.kind = ref::ERROR;
    s.base(m);
    s.replyingTo = m.getSerialOfReply();
    s.errorText = m.getMessage();
    return s;
}

Seen seen(const DBus::Message::Signal& m)
{
    Seen s;
    s.kind = ref::SIGNAL;
    s.base(m);
    return s;
}

Seen expected(const ref::Msg& m)
{
    Seen s;
    s.kind = m.type;
    s.serial = m.serial;
    auto rs = m.field(ref::F_REPLY_SERIAL);
    s.replySerial = rs ? (uint32_t)rs->u : 0;
    if (m.type == ref::RETURN || m.type == ref::ERROR)
        s.replyingTo = s.replySerial;
    s.path = m.text(ref::F_PATH);
    s.interface = m.text(ref::F_INTERFACE);
    s.member = m.text(ref::F_MEMBER);
    s.sender = m.text(ref::F_SENDER);
    s.destination = m.text(ref::F_DESTINATION);
    // for returns the library always says so
    s.replyExpected = !(m.flags & 1);
    s.args = m.body;
    if (m.type == ref::ERROR && !m.body.empty() && m.body[0].t == 's')
        s.errorText = m.body[0].s;
    return s;
}

std::string compare(const Seen& w, const Seen& g, bool body)
{
    std::string d;
    auto f = [&](const char* n, const std::string& a, const std::string& b) {
        if (a != b && d.empty())
            d = std::string(n) + ": sent '" + a.substr(0, 200) + "', received '" + b.substr(0, 200) + "'";
    };
    auto u = [&](const char* n, uint64_t a, uint64_t b) { f(n, std::to_string(a), std::to_string(b)); };
    u("kind", w.kind, g.kind);
    u("serial", w.serial, g.serial);
    u("reply serial", w.replySerial, g.replySerial);
    u("serial replied to", w.replyingTo, g.replyingTo);
    f("path", w.path, g.path);
    f("interface", w.interface, g.interface);
    f("member", w.member, g.member);
    f("sender", w.sender, g.sender);
    f("destination", w.destination, g.destination);
    if (w.kind == ref::CALL)
        u("reply expected", w.replyExpected, g.replyExpected);
    if (w.kind == ref::ERROR)
        f("error text", w.errorText, g.errorText);
    f("readable", w.unreadable, g.unreadable);
    if (body && d.empty() && !same(w.args, g.args, true))
        d = "arguments: sent " + sigOf(w.args) + " " + show(w.args) + ", received " + sigOf(g.args) + " " + show(g.args);
    return d;
}

std::vector<std::pair<size_t, size_t>> cuts(vh::Rng& r, size_t n)
{
    std::vector<std::pair<size_t, size_t>> c;
    unsigned mode = r.below(6);
    size_t o = 0;
    while (o < n) {
        size_t l;
        switch (mode) {
        case 0:
            l = n;
            break;
        case 1:
            l = n > 20000 ? r.range(1, 2000) : 1;
            break;
        case 2:
            l = r.range(1, 17);
            break;
        case 3:
            l = r.range(1, 1024);
            break;
        case 4:
            l = 1024;
            break;
        default:
            l = r.chance(1, 3) ? r.range(1, 3) : r.range(1, n);
        }
        if (n > 100000 && l < 64)
            l = 64 + r.below(4000);
        l = std::min(l, n - o);
        c.push_back({ o, l });
        o += l;
    }
    return c;
}

} // namespace bridge
