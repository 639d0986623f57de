// C19 addresses, C20 introspection, C21 the type system, C24 diagnostics, C25 hex.
#include "anylocale.h"
#include "bridge.h"
#include "capture.h"
#include "dbus_introspectable.h"
#include "dbus_log.h"
#include "dbus_platform.h"
#include "dbus_utils.h"
#include "parts.h"
#include "xml.h"

using namespace vh;
using namespace ref;
namespace I = DBus::Introspectable;

//--------------------------------------------------------------------------- C25

static void hexCase(Rng& r, const std::string& bytes)
{
    static const char* digits = "0123456789abcdef";
    std::string want;
    for (unsigned char c : bytes) {
        want += digits[c >> 4];
        want += digits[c & 15];
    }
    const std::string before = r.chance(1, 2) ? "" : r.chance(1, 2) ? "AUTH EXTERNAL " : std::string(r.below(20), (char)r.next());
    std::string out = before;
    DBus::Utils::ConvertBinaryToHexString(out, bytes);
    R.check(out == before + want, "to-hex", "of " + hex(bytes) + ": '" + out.substr(0, 600) + "' after '" + hex(before) + "'");

    for (int mode = 0; mode < 3; ++mode) {
        std::string text = want;
        for (auto& c : text)
            if (mode == 1 || (mode == 2 && r.chance(1, 2)))
                c = toupper(c);
        std::string back = before;
        DBus::Utils::ConvertHexStringToBinary(back, text);
        R.check(back == before + bytes, "from-hex", "of '" + text.substr(0, 600) + "': " + hex(back) + " after " + hex(before));
    }
    R.eval(hashStr(bytes, hashStr(before)), !bytes.empty());
}

// All strings of one and of two bytes: case i has the first byte i
PART(C25, exhaustive)
{
    const unsigned char first = index & 0xff;
    hexCase(r, std::string(1, (char)first));
    for (unsigned second = 0; second < 256; ++second)
        hexCase(r, std::string(1, (char)first) + (char)second);
    R.sample("all pairs that begin with byte " + std::to_string(first));
}

PART(C25, random)
{
    static const size_t lengths[] = { 0, 1, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1023, 1024, 4095, 4096, 4097 };
    std::string b(r.chance(1, 2) ? lengths[r.below(24)] : r.below(3000), '\0');
    const unsigned mode = r.below(4);
    for (auto& c : b)
        c = mode == 0 ? (char)r.next() : mode == 1 ? (char)(r.chance(1, 2) ? r.below(16) : 0x80 + r.below(128)) : mode == 2 ? (char)r.below(3) : " \t\n\r0\xff\x7f\x80"[r.below(8)];
    hexCase(r, b);
    R.maxOf("bytes", b.size());
    R.sample(hex(b, 60));
}

// Long: whatever is streamed must not fall apart
PART(C25, large)
{
    std::string b(r.range(100000, 1000000), '\0');
    for (auto& c : b)
        c = (char)r.next();
    hexCase(r, b);
    R.sample(std::to_string(b.size()) + " bytes");
}

//--------------------------------------------------------------------------- C19

static std::string pathText(Rng& r, bool abstract)
{
    static const char* words[] = { "/", "tmp", "run", "dbus", "socket", "user", "1000", "bus", "-", ".", "_", " ", "unix:path=", "unix:abstract=", "=", ":", "%41", "guid=", "*", "@", "\\", "\xc3\xa9", "x" };
    std::string p = abstract || r.chance(1, 8) ? "" : "/";
    for (size_t n = r.range(1, 9); n; --n)
        p += words[r.below(23)];
    if (r.chance(1, 20))
        p += std::string(r.range(50, 300), 'p');
    return p;
}

PART(C19, addresses)
{
    // How an address is written, and what it names
    auto make = [&](std::string& want) {
        std::string a;
        const unsigned kind = r.below(5);
        if (kind == 0) {
            // a plain path, whatever is in it
            want = a = pathText(r, false);
            while (a.compare(0, 10, "unix:path=") == 0 || a.compare(0, 14, "unix:abstract=") == 0)
                want = a = "/" + a;
            if (r.chance(1, 3))
                want = a = a + (r.chance(1, 2) ? "," : ";") + pathText(r, true);
            return a;
        }
        const bool abstract = kind >= 3;
        std::string p = pathText(r, abstract);
        want = abstract ? std::string(1, '\0') + p : p;
        a = (abstract ? "unix:abstract=" : "unix:path=") + p;
        static const char* more[] = { "", ",guid=0123456789abcdef0123456789abcdef", ",runtime=yes", ";unix:path=/other", ";tcp:host=localhost,port=1234", ";unix:abstract=other,guid=1", ",", ";", ",;", ";," };
        const unsigned n = r.below(3);
        for (unsigned i = 0; i < n; ++i)
            a += more[r.below(10)];
        return a;
    };
    auto eq = [&](const std::string& got, const std::string& want, const std::string& a, const char* how) {
        R.check(got == want, "resolves-wrongly", std::string(how) + " of '" + a + "' is " + hex(got) + " ('" + got + "'), not '" + want + "'");
    };
    std::string w1, w2;
    const std::string sys = make(w1), ses = make(w2);
    eq(DBus::Platform::getSystemBus(sys.c_str()), w1, sys, "system bus");
    eq(DBus::Platform::getSessionBus(sys.c_str()), w1, sys, "session bus");
    // The environment, each variable on its own, and at the time of the call
    const bool hasSys = r.chance(2, 3), hasSes = r.chance(2, 3);
    if (hasSys)
        setenv("DBUS_SYSTEM_BUS_ADDRESS", sys.c_str(), 1);
    else
        unsetenv("DBUS_SYSTEM_BUS_ADDRESS");
    if (hasSes)
        setenv("DBUS_SESSION_BUS_ADDRESS", ses.c_str(), 1);
    else
        unsetenv("DBUS_SESSION_BUS_ADDRESS");
    eq(DBus::Platform::getSystemBus(), hasSys ? w1 : "/var/run/dbus/system_bus_socket", hasSys ? sys : "(unset)", "system bus from the environment");
    eq(DBus::Platform::getSessionBus(), hasSes ? w2 : "", hasSes ? ses : "(unset)", "session bus from the environment");
    eq(DBus::Platform::getSystemBus(nullptr), "/var/run/dbus/system_bus_socket", "(none)", "system bus");
    eq(DBus::Platform::getSessionBus(nullptr), "", "(none)", "session bus");
    R.check(DBus::Platform::getUID() == getuid(), "uid", "getUID");
    R.eval(hashStr(sys, hashStr(ses)));
    R.sample("system '" + sys + "' session '" + ses + "'");
}

//--------------------------------------------------------------------------- C20

namespace {
// A valid signature: a sequence of types
std::string signature(Rng& r, size_t max = 5)
{
    Gen g(r);
    std::string s;
    for (size_t n = r.below(max + 1); n; --n) {
        std::string t = g.type();
        if (s.size() + t.size() <= 255)
            s += t;
    }
    return s;
}

std::string element(Rng& r)
{
    static const char* first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    static const char* other = "abcXYZ0189_";
    std::string s(1, first[r.below(53)]);
    for (size_t n = r.chance(1, 20) ? r.range(20, 100) : r.below(12); n; --n)
        s += other[r.below(11)];
    return s;
}
}

PART(C20, documents)
{
    struct Item {
        char kind; // p m s
        std::string name, in, out, access;
    };
    struct Iface {
        std::string name;
        std::vector<Item> items;
    };
    std::vector<Iface> want;
    I::Introspection doc;
    Gen g(r);
    size_t items = 0, args = 0;
    for (size_t n = r.below(5); n; --n) {
        Iface f;
        f.name = g.interface();
        I::Interface face(f.name);
        for (size_t k = r.below(r.chance(1, 10) ? 30 : 8); k; --k) {
            Item it;
            it.kind = "pms"[r.below(3)];
            it.name = element(r);
            if (it.kind == 'p') {
                do
                    it.in = g.type();
                while (it.in.size() > 255);
                static const char* names[] = { "read", "write", "readwrite" };
                const unsigned a = r.below(4);
                it.access = names[a % 3];
                if (a == 3)
                    face.addProperty(I::Property(it.name, it.in)); // by default read
                else
                    face.addProperty(I::Property(it.name, it.in, a == 0 ? I::Property::PROPERTY_READ : a == 1 ? I::Property::PROPERTY_WRITE : I::Property::PROPERTY_READWRITE));
            } else if (it.kind == 'm') {
                it.in = signature(r);
                it.out = signature(r);
                face.addMethod(I::Method(it.name, it.in, it.out));
            } else {
                it.in = signature(r);
                face.addSignal(I::Signal(it.name, it.in));
            }
            f.items.push_back(it);
            ++items;
        }
        doc.addInterface(face);
        want.push_back(f);
    }
    const std::string text = doc.serialize();
    // the text can be had again, and of a copy
    R.check(doc.serialize() == text && I::Introspection(doc).serialize() == text, "unstable", "a second serialisation differs");
    auto bad = [&](const std::string& why) { R.violation("introspection", why + " in " + text.substr(0, 2500)); };
    xml::Document d;
    try {
        d = xml::parse(text);
    } catch (const std::exception& e) {
        bad(std::string("not well-formed: ") + e.what());
        return;
    }
    if (d.doctypeName != "node" || d.publicId != "-//freedesktop//DTD D-BUS Object Introspection 1.0//EN" || d.systemId != "http://www.freedesktop.org/standards/dbus/1.0/introspect.dtd")
        return bad("document type");
    if (d.root.name != "node")
        return bad("the root is " + d.root.name);
    if (d.root.children.size() != want.size())
        return bad("number of interfaces");
    for (size_t i = 0; i < want.size(); ++i) {
        const auto& e = d.root.children[i];
        if (e.name != "interface" || e.attr("name") != want[i].name || e.attrs.size() != 1)
            return bad("interface " + want[i].name);
        static const char* kinds[] = { "property", "method", "signal" };
        size_t total = 0;
        for (int k = 0; k < 3; ++k) {
            std::vector<const Item*> w;
            for (auto& it : want[i].items)
                if (it.kind == "pms"[k])
                    w.push_back(&it);
            std::vector<const xml::Element*> got;
            for (auto& c : e.children)
                if (c.name == kinds[k])
                    got.push_back(&c);
            if (w.size() != got.size())
                return bad(std::string("number of items of kind ") + kinds[k]);
            total += w.size();
            for (size_t j = 0; j < w.size(); ++j) {
                const Item& it = *w[j];
                const xml::Element& x = *got[j];
                if (x.attr("name") != it.name)
                    return bad(std::string(kinds[k]) + " " + it.name + ": name or order");
                if (k == 0) {
                    if (x.attr("type") != it.in || x.attr("access") != it.access || x.attrs.size() != 3)
                        return bad("property " + it.name);
                    continue;
                }
                std::vector<std::string> in, out;
                for (auto& a : x.children) {
                    if (a.name != "arg" || !a.children.empty())
                        return bad(it.name + ": child " + a.name);
                    const std::string dir = a.attr("direction");
                    // for methods the direction is in, for signals out, unless given
                    if (k == 1 ? dir == "out" : dir == "in")
                        out.push_back(a.attr("type"));
                    else if (dir == "" || dir == (k == 1 ? "in" : "out"))
                        in.push_back(a.attr("type"));
                    else
                        return bad(it.name + ": direction " + dir);
                    ++args;
                }
                if (in != splitSig(it.in))
                    return bad(std::string(kinds[k]) + " " + it.name + ": arguments of '" + it.in + "'");
                if (out != splitSig(it.out))
                    return bad(std::string(kinds[k]) + " " + it.name + ": results of '" + it.out + "'");
            }
        }
        if (total != e.children.size())
            return bad("something else in interface " + want[i].name);
    }
    R.add("items", items);
    R.add("arguments", args);
    R.eval(hashStr(text), items > 0);
    R.sample(text.substr(0, 500));
}

//--------------------------------------------------------------------------- C21

namespace {
// Splits with the library, type by type
void splitCase(const std::string& sig)
{
    const auto want = splitSig(sig);
    std::vector<std::string> got;
    for (size_t i = 0; i < sig.size();) {
        std::string t = DBus::Type::extractSignature(sig, i);
        if (t.empty() || t.size() > sig.size() - i) {
            R.violation("split", "'" + sig + "' at " + std::to_string(i) + ": '" + t + "'");
            return;
        }
        got.push_back(t);
        i += t.size();
    }
    std::string g;
    for (auto& t : got)
        g += t + " ";
    R.check(got == want, "split", "'" + sig + "' into " + g);
    for (auto& t : want) {
        const size_t a = DBus::Type::getAlignment(t);
        R.check(a == alignOf(t[0]), "alignment", "of '" + t + "' is " + std::to_string(a));
    }
}

// Everything in a value reports its own type
bool reports(const Val& v, const bridge::G& g, const std::string& how)
{
    const std::string s = DBus::Type::getMarshallingSignature(g);
    if (!R.check(s == sigOf(v), "signature", how + ": '" + s + "' is reported for a value of type '" + sigOf(v) + "'"))
        return false;
    if (v.t == 'a') {
        const auto& a = DBus::Type::refArray(g);
        if (!R.check(a.getSignature() == s && a.size() == v.k.size(), "signature", how + ": array of '" + s + "'"))
            return false;
        for (size_t i = 0; i < v.k.size(); ++i)
            if (!reports(v.k[i], a.getContents()[i], how))
                return false;
    } else if (v.t == '(') {
        const auto& st = DBus::Type::refStruct(g);
        if (!R.check(st.getEntries() == v.k.size(), "signature", how + ": entries of '" + s + "'"))
            return false;
        for (size_t i = 0; i < v.k.size(); ++i)
            if (!reports(v.k[i], st[i], how))
                return false;
    } else if (v.t == 'v') {
        if (!reports(v.k[0], DBus::Type::refVariant(g).getValue(), how))
            return false;
    } else if (v.t == 'g')
        R.check(DBus::Type::refSignature(g).getValue() == v.s, "signature", how + ": signature value");
    return true;
}
}

namespace {
// All single complete types of exactly n characters
const std::vector<std::string>& typesOf(size_t n);
// All sequences of them of exactly n characters in total
const std::vector<std::string>& sequencesOf(size_t n)
{
    static std::map<size_t, std::vector<std::string>> memo;
    auto it = memo.find(n);
    if (it != memo.end())
        return it->second;
    std::vector<std::string> v;
    if (n == 0)
        v.push_back("");
    for (size_t k = 1; k <= n; ++k)
        for (auto& t : typesOf(k))
            for (auto& rest : sequencesOf(n - k))
                v.push_back(t + rest);
    return memo[n] = v;
}
const std::vector<std::string>& typesOf(size_t n)
{
    static std::map<size_t, std::vector<std::string>> memo;
    auto it = memo.find(n);
    if (it != memo.end())
        return it->second;
    // one or more of each alignment and size
    static const std::string basic = "ynuxsgo";
    std::vector<std::string> v;
    if (n == 1)
        for (char c : basic + "v")
            v.push_back(std::string(1, c));
    if (n >= 2)
        for (auto& t : typesOf(n - 1))
            v.push_back("a" + t);
    if (n >= 3)
        for (auto& t : sequencesOf(n - 2))
            v.push_back("(" + t + ")");
    if (n >= 5)
        for (char c : basic)
            for (auto& t : typesOf(n - 4))
                v.push_back(std::string("a{") + c + t + "}");
    return memo[n] = v;
}
}

// All valid signatures up to a length over one basic type of each kind: every 64th of them
PART(C21, exhaustive)
{
    size_t i = 0, n = 0;
    for (size_t len = 1; len <= (R.thorough ? 6u : 5u); ++len)
        for (auto& s : sequencesOf(len))
            if (i++ % 64 == index % 64) {
                splitCase(s);
                R.eval(hashStr(s));
                if (++n % 1000 == 0)
                    ++R.beat;
            }
    R.add("valid_signatures", n);
    R.sample(std::to_string(n) + " of all " + std::to_string(i) + " valid signatures of up to " + (R.thorough ? "6" : "5") + " characters");
}

PART(C21, random)
{
    Gen g(r);
    g.bytes = 400;
    g.budget = 60;
    std::vector<Val> vs;
    const size_t n = r.below(5);
    std::string sig;
    for (size_t i = 0; i < n; ++i) {
        g.constructible = r.chance(1, 2);
        std::string t = g.type();
        if (sig.size() + t.size() > 255)
            break;
        sig += t;
        vs.push_back(g.value(t));
    }
    splitCase(sig);
    // by construction, from the wire in either byte order, and copied
    std::vector<bridge::G> all;
    for (auto& v : vs) {
        bool built = false;
        bridge::G c;
        try {
            c = bridge::toLib(v);
            built = true;
        } catch (const std::logic_error&) {
        }
        if (built) {
            reports(v, c, "constructed");
            R.add("constructed");
        }
        const bool be = r.chance(1, 2);
        bridge::G w = bridge::viaBytes(v, be);
        reports(v, w, be ? "read, big endian" : "read, little endian");
        bridge::G copy = w;
        w = bridge::G();
        reports(v, copy, "copied");
        all.push_back(built && r.chance(1, 2) ? c : copy);
        R.add("read");
    }
    const std::string s = DBus::Type::getMarshallingSignature(all);
    R.check(s == sig, "signature", "list: '" + s + "' instead of '" + sig + "'");
    R.eval(hashStr(sig), vs.size() > 0);
    R.sample("'" + sig + "'");
}

namespace {
// A value that was changed is marshalled as what it now is
template <class T>
void changed(const Val& v, const T& t)
{
    DBus::MessageOStream os;
    t.marshall(os);
    Enc e;
    e.val(v);
    R.check(os.data == e.b, "bytes", "a changed value of type '" + sigOf(v) + "' is marshalled as " + hex(os.data) + " instead of " + hex(e.b));
    R.add("changed");
}
}

// Values as they change
PART(C21, changing)
{
    Gen g(r);
    g.constructible = true;
    g.bytes = 200;
    const std::string t = g.type(0, true);
    Val w = array(t);
    DBus::Type::Array a;
    a.setSignature("a" + t);
    R.check(a.getSignature() == "a" + t, "signature", "empty array of '" + t + "' reports '" + a.getSignature() + "'");
    DBus::Type::Struct st;
    Val ws;
    ws.t = '(';
    size_t n = r.range(1, 5);
    for (size_t i = 0; i < n; ++i) {
        w.k.push_back(g.value(t));
        const bridge::G e = bridge::toLib(w.k.back());
        bridge::addTo(a, e, t[0]);
        reports(w, bridge::G(a), "array of " + std::to_string(i + 1));
        const std::string mt = g.type(0, true);
        ws.k.push_back(g.value(mt));
        bridge::addTo(st, bridge::toLib(ws.k.back()), mt[0]);
        reports(ws, bridge::G(st), "struct of " + std::to_string(i + 1));
    }
    // what was received, or made for a signature, and is then added to or changed
    {
        Val v;
        v.t = '(';
        for (size_t i = 0, m = r.range(1, 4); i < m; ++i)
            v.k.push_back(g.value(g.type(0, true)));
        bridge::G got = bridge::viaBytes(v, r.chance(1, 2));
        DBus::Type::Struct s2 = DBus::Type::refStruct(got);
        for (size_t i = 0, m = r.range(1, 3); i < m; ++i) {
            const std::string mt = g.type(0, true);
            v.k.push_back(g.value(mt));
            bridge::addTo(s2, bridge::toLib(v.k.back()), mt[0]);
            reports(v, bridge::G(s2), "received struct, added to");
            changed(v, s2);
        }
        s2.clear();
        v.k = { g.value("q"), g.value("s") };
        for (auto& k : v.k)
            bridge::addTo(s2, bridge::toLib(k), k.t);
        reports(v, bridge::G(s2), "received struct, cleared and added to");
        changed(v, s2);
    }
    {
        const std::string et = g.type(0, true);
        Val v = array(et);
        for (size_t i = 0, m = r.below(3); i < m; ++i)
            v.k.push_back(g.value(et));
        DBus::Type::Array a2 = DBus::Type::refArray(bridge::viaBytes(v, r.chance(1, 2)));
        reports(v, bridge::G(a2), "received array");
        for (size_t i = 0, m = r.range(1, 3); i < m; ++i) {
            v.k.push_back(g.value(et));
            bridge::addTo(a2, bridge::toLib(v.k.back()), et[0]);
            reports(v, bridge::G(a2), "received array, added to");
            changed(v, a2);
        }
    }
    {
        Val v;
        v.t = '{';
        v.k = { g.value("s"), g.value(g.type(0, true)) };
        DBus::Type::DictEntry e = boost::any_cast<DBus::Type::DictEntry>(bridge::viaBytes(v, r.chance(1, 2)));
        reports(v, bridge::G(e), "received entry");
        v.k = { g.value("u"), g.value(g.type(0, true)) };
        e.set(bridge::toLib(v.k[0]), bridge::toLib(v.k[1]));
        reports(v, bridge::G(e), "entry with another content");
        changed(v, e);
    }
    // used again from the start
    st.clear();
    ws.k = { g.value("s"), g.value("u") };
    for (auto& k : ws.k)
        bridge::addTo(st, bridge::toLib(k), k.t);
    reports(ws, bridge::G(st), "struct after clear");
    R.eval(hashStr(t, hashStr(sigOf(ws))));
    R.sample("array of '" + t + "', struct '" + sigOf(ws) + "'");
}

//--------------------------------------------------------------------------- C24

namespace {
const char* typeName(char t)
{
    switch (t) {
    case 'y':
        return "Byte";
    case 'b':
        return "Boolean";
    case 'n':
        return "Int16";
    case 'q':
        return "Uint16";
    case 'i':
        return "Int32";
    case 'u':
        return "Uint32";
    case 'x':
        return "Int64";
    case 't':
        return "Uint64";
    case 'd':
        return "Double";
    case 's':
        return "String";
    case 'o':
        return "Object";
    case 'g':
        return "Signature";
    case 'a':
        return "Array";
    case '(':
        return "Struct";
    case '{':
        return "DictEntry";
    case 'v':
        return "Variant";
    }
    return "?";
}

// Finds the type and the value of every node, in order, in the text
struct Finder {
    const std::string& text;
    size_t at = 0;
    std::string missing;

    bool word(const std::string& w, bool number = false)
    {
        for (size_t p = at;; ++p) {
            p = text.find(w, p);
            if (p == std::string::npos)
                return false;
            if (number) {
                const char before = p ? text[p - 1] : ' ', after = p + w.size() < text.size() ? text[p + w.size()] : ' ';
                if (isalnum((unsigned char)before) || before == '-' || isalnum((unsigned char)after))
                    continue;
            }
            at = p + w.size();
            return true;
        }
    }
    bool real(double d)
    {
        // some number in this line that reads as this one
        size_t end = text.find('\n', at);
        if (end == std::string::npos)
            end = text.size();
        for (size_t p = at; p < end; ++p) {
            if (p > 0 && (isalnum((unsigned char)text[p - 1]) || text[p - 1] == '.' || text[p - 1] == '-'))
                continue;
            char* e;
            const double x = strtod(text.c_str() + p, &e);
            if (e != text.c_str() + p && !isspace((unsigned char)text[p]) && (x == d || (x != x && d != d))) {
                at = e - text.c_str();
                return true;
            }
        }
        return false;
    }
    bool need(bool ok, const std::string& what)
    {
        if (!ok && missing.empty())
            missing = what;
        return ok;
    }
    bool node(const Val& v)
    {
        if (!need(word(typeName(v.t)), std::string("type ") + typeName(v.t)))
            return false;
        switch (v.t) {
        case 'y':
        case 'q':
        case 'u':
        case 't':
            return need(word(std::to_string(v.u), true), std::string("number ") + std::to_string(v.u));
        case 'n':
            return need(word(std::to_string((int16_t)v.u), true), std::string("number ") + std::to_string((int16_t)v.u));
        case 'i':
            return need(word(std::to_string((int32_t)v.u), true), std::string("number ") + std::to_string((int32_t)v.u));
        case 'x':
            return need(word(std::to_string((int64_t)v.u), true), std::string("number ") + std::to_string((int64_t)v.u));
        case 'b':
            return need(word(v.u ? "True" : "False", true), v.u ? "True" : "False");
        case 'd':
            return need(real(bridge::asDouble(v.u)), "a double");
        case 's':
        case 'o':
        case 'g':
            return need(word(v.s), "text '" + v.s.substr(0, 100) + "'");
        }
        for (auto& c : v.k)
            if (!node(c))
                return false;
        return true;
    }
};
}

PART(C24, rendering)
{
    Gen g(r);
    g.bytes = 500;
    g.budget = 80;
    g.constructible = r.chance(1, 3);
    const std::string t = g.type();
    Val v = g.value(t);
    if (r.chance(1, 40)) { // of any size
        const size_t n = r.below((size_t)1 << r.range(5, 13));
        static const char* kinds[] = { "y", "u", "t", "d", "s", "(ys)", "v", "{us}" };
        const std::string e = kinds[r.below(8)];
        v = array(e);
        for (size_t i = 0; i < n; ++i) {
            g.budget = 80;
            g.bytes = 500;
            v.k.push_back(g.value(e));
        }
        if (r.chance(1, 3))
            v = str(g.text(r.below((size_t)1 << r.range(5, 17))));
        if (r.chance(1, 4))
            v = variant(v);
    }
    bridge::G lib;
    bool built = false;
    if (g.constructible)
        try {
            lib = bridge::toLib(v);
            built = true;
        } catch (const std::logic_error&) {
        }
    if (!built)
        lib = bridge::viaBytes(v, r.chance(1, 2));
    const std::string prefix = r.chance(1, 3) ? "" : std::string(r.below(9), ' ');
    DBus::Log::setLevel(r.below(5));
    const std::string text = DBus::Type::toString(lib, prefix);
    Finder f { text };
    f.node(v);
    R.check(f.missing.empty(), "rendering", "no " + f.missing + " where it should be (after " + std::to_string(f.at) + ") in the text of " + sigOf(v) + " " + show(v) + ": " + text.substr(0, 2000));
    DBus::Log::setLevel(100);
    R.eval(hashStr(text));
    R.sample(text.substr(0, 400));
}

// What is written at each level, directly
PART(C24, levels)
{
    Gen g(r);
    size_t level = r.below(6);
    DBus::Log::setLevel(level);
    Capture cap;
    static const size_t types[] = { DBus::Log::TRACE, DBus::Log::INFO, DBus::Log::WARNING, DBus::Log::ERROR };
    uint64_t h = 0;
    for (int i = 0; i < 12; ++i) {
        if (r.chance(1, 4))
            DBus::Log::setLevel(level = r.below(6));
        const size_t type = types[r.below(4)];
        h = mix(h ^ (level * 4 + type));
        R.check(DBus::Log::isActive(type) == (type >= level), "level", "isActive(" + std::to_string(type) + ") at level " + std::to_string(level));
        const std::string m = g.text(r.chance(1, 12) ? r.below((size_t)1 << r.range(8, 17)) : r.below(40));
        cap.take();
        DBus::Log::write(type, "m%d:%s;", i, m.c_str());
        const std::string got = cap.take();
        const std::string w = type >= level ? "m" + std::to_string(i) + ":" + m.c_str() + ";" : "";
        R.check(got == w, "level", "type " + std::to_string(type) + " at level " + std::to_string(level) + ": wrote '" + got.substr(0, 200) + "' (" + std::to_string(got.size()) + " bytes), expected '" + w.substr(0, 200) + "' (" + std::to_string(w.size()) + " bytes)");
    }
    DBus::Log::setLevel(100);
    R.eval(h);
}

PART(C24, dumps)
{
    static const size_t lengths[] = { 0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 1024 };
    Gen g(r);
    Capture cap;
    std::string data(r.chance(1, 2) ? lengths[r.below(14)] : r.below(400), '\0');
    for (auto& c : data)
        c = (char)r.next();
    static const char* prefixes[] = { "", "DBus :: DATA: ", "x", "> \n", "a prefix that is rather longer than usual: ", "100%s %d: ", "%" };
    std::string prefix = prefixes[r.below(7)];
    if (r.chance(1, 3)) { // of any length
        prefix.assign(r.chance(1, 20) ? r.below(3000) : r.below(200), ' ');
        for (auto& c : prefix)
            c = (char)r.range(32, 126);
    }
    const size_t level = r.below(5), type = r.below(4);
    DBus::Log::setLevel(level);
    cap.take();
    DBus::Log::writeHex(type, prefix, data);
    std::string got = cap.take();
    DBus::Log::setLevel(100);
    const std::string where = "dump of " + std::to_string(data.size()) + " bytes with prefix '" + prefix + "', type " + std::to_string(type) + " at level " + std::to_string(level);
    if (type < level) {
        R.check(got.empty(), "level", where + ": wrote " + got.substr(0, 300));
        R.eval(hashStr(data), false);
        return;
    }
    if (!R.check(got.compare(0, prefix.size(), prefix) == 0, "dump", where + ": begins with '" + got.substr(0, 60) + "'"))
        return;
    std::string bytes;
    bool ok = true;
    for (size_t i = prefix.size(); i < got.size();) {
        if (isspace((unsigned char)got[i])) {
            ++i;
            continue;
        }
        char* e;
        const std::string two = got.substr(i, 2);
        const long x = strtol(two.c_str(), &e, 16);
        if (two.size() != 2 || *e || (i + 2 < got.size() && !isspace((unsigned char)got[i + 2]))) {
            ok = false;
            break;
        }
        bytes += (char)x;
        i += 2;
    }
    R.check(ok && bytes == data, "dump", where + ": of " + hex(data) + " shows " + got.substr(0, 1500));
    R.eval(hashStr(data, level), !data.empty());
    R.maxOf("bytes", data.size());
    R.sample(got.substr(0, 200));
}

// The same stream, and the same messages made, at every level and while the level changes
PART(C24, differential)
{
    Gen g(r);
    g.bytes = 600;
    std::string stream;
    const size_t n = r.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
        g.budget = 25;
        Msg m = g.message();
        std::string b = encode(m);
        if (r.chance(1, 3)) {
            const std::string sig = sigOf(m.body);
            Enc e(m.be);
            for (auto& v : m.body)
                e.val(v);
            std::string body = e.b.substr(0, r.below(e.b.size() + 1));
            b = encode(m, &sig, &body);
        } else if (r.chance(1, 4))
            b[r.below(b.size())] = (char)r.next();
        stream += b;
    }
    const uint64_t seed = r.next();
    auto run = [&](int mode) {
        Rng q(seed); // what is done does not depend on the level
        Rng lv(seed ^ 99);
        std::string trace;
        bridge::Receiver rec;
        rec.onMessage = [&](const DBus::Message::Base& m, int) {
            // and is sent on; what cannot be is refused at every level
            if (mode == 5)
                DBus::Log::setLevel(lv.below(5));
            try {
                DBus::Message::Signal s(DBus::Message::MethodCallIdentifier("/a", "b.c", "d"));
                for (size_t i = 0; i < m.getParameterCount(); ++i)
                    s.addParameter(m.getParameter(i));
                std::string b = s.marshall("");
                if (b.size() > 12)
                    memset(&b[8], 0, 4);
                trace += "out " + std::to_string(hashStr(b)) + "\n";
            } catch (const std::exception& e) {
                trace += std::string("refused ") + e.what() + "\n";
            }
        };
        DBus::Log::setLevel(mode < 5 ? mode : 100);
        for (auto& c : bridge::cuts(q, stream.size())) {
            if (mode == 5)
                DBus::Log::setLevel(lv.below(5));
            try {
                rec.feed(stream.data() + c.first, c.second, q.below(8));
            } catch (const std::exception& e) {
                trace += std::string("exception ") + e.what() + "\n";
                rec.protocol.reset();
            }
            for (auto& s : rec.got)
                trace += "got " + std::to_string(bridge::digest(s)) + "\n";
            rec.got.clear();
        }
        DBus::Log::setLevel(100);
        return trace;
    };
    Capture cap;
    std::string quiet = run(100);
    cap.take();
    std::vector<std::string> out;
    static const int modes[] = { 0, 1, 2, 3, 4, 100, 5 };
    for (int mode : modes) {
        std::string t = run(mode);
        std::string o = cap.take();
        R.check(t == quiet, "level-matters", "at level " + std::to_string(mode) + ": " + t.substr(0, 800) + " instead of " + quiet.substr(0, 800) + " for " + hex(stream, 600));
        if (mode == 4 || mode == 100)
            R.check(o.empty(), "level", "written above every level: " + o.substr(0, 300));
        if (mode < 5)
            out.push_back(o);
        R.add("log_bytes", o.size());
    }
    // each level writes what the next writes, and perhaps more
    for (size_t i = 0; i + 1 < out.size(); ++i) {
        size_t p = 0;
        for (char c : out[i + 1]) {
            p = out[i].find(c, p);
            if (p == std::string::npos) {
                R.violation("level", "level " + std::to_string(i + 1) + " writes more than the level below it: " + out[i + 1].substr(0, 400));
                break;
            }
            ++p;
        }
    }
    R.eval(hashStr(stream));
    R.sample(std::to_string(n) + " messages, " + std::to_string(stream.size()) + " bytes, " + std::to_string(out[0].size()) + " bytes of log at the lowest level");
}

//--------------------------------------------------------------------------- C35

namespace {
struct Mixed {
    Val v;
    bridge::G lib;
    bool built;
};
Mixed mixedValue(Rng& r, Gen& g)
{
    Val v;
    switch (r.below(8)) {
    case 0:
    case 1:
    case 2:
    case 3:
        v = g.value(std::string(1, "ybnqiuxtd"[r.below(9)]));
        break;
    case 4: { // around the limits of the native types
        static const uint64_t limits[] = { 0, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff };
        const char t = "nqiuxt"[r.below(6)];
        uint64_t u = limits[r.below(11)] + r.below(5) - 2;
        if (sizeOf(t) < 8)
            u &= (1ull << (8 * sizeOf(t))) - 1;
        v = num(t, u);
        break;
    }
    case 5: { // the text of a number, or nearly so
        static const char* texts[] = { "0", "255", "256", "-1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9223372036854775808", "007", "x", "", "-", "twelve", "/1" };
        v = str(r.chance(1, 2) ? texts[r.below(15)] : std::to_string(r.next() >> r.below(64)));
        break;
    }
    default:
        v = g.value(g.type());
    }
    for (unsigned n = r.chance(1, 5) ? r.range(1, 3) : 0; n; --n)
        v = variant(v);
    Mixed m { v, {}, false };
    if (r.chance(1, 2))
        try {
            m.lib = bridge::toLib(v);
            m.built = true;
        } catch (const std::logic_error&) {
        }
    if (!m.built)
        m.lib = bridge::viaBytes(v, r.chance(1, 2));
    return m;
}
template <typename T> void mustBe(const Val& v, const char* name, T (*f)(const bridge::G&), const bridge::G& g)
{
    const Val* c = &v;
    while (c->t == 'v')
        c = &c->k[0];
    bool threw = false;
    T got = 0;
    try {
        got = f(g);
    } catch (const std::exception&) {
        threw = true;
    }
    R.add(threw ? "conversions_refused" : "conversions_done");
    const std::string is = std::string(name) + " of " + show(v) + (threw ? " throws" : " is " + std::to_string((uint64_t)got));
    const uint64_t most = std::numeric_limits<T>::max();
    switch (c->t) {
    case 'y':
    case 'q':
    case 'u':
    case 't':
        R.check(threw == (c->u > most) && (threw || got == c->u), "native", is);
        break;
    case 'n':
    case 'i':
    case 'x': {
        const int64_t i = c->t == 'n' ? (int16_t)c->u : c->t == 'i' ? (int32_t)c->u : (int64_t)c->u;
        R.check(threw == (i < 0 || (uint64_t)i > most) && (threw || got == (uint64_t)i), "native", is);
        break;
    }
    case 'd': {
        // what it is exactly, if anything
        const double d = bridge::asDouble(c->u);
        R.check(threw || (double)got == d, "native", is);
        break;
    }
    case 'b':
        R.check(threw || got == c->u, "native", is);
        break;
    case 's':
    case 'o':
    case 'g': {
        const std::string& s = c->s;
        const bool digits = !s.empty() && s.find_first_not_of("0123456789") == s.npos;
        if (digits) {
            errno = 0;
            const unsigned long long u = strtoull(s.c_str(), nullptr, 10);
            R.check(threw == (errno || u > most) && (threw || got == u), "native", is);
        } else if (!threw)
            // other ways to write the number
            R.check(s.find_first_of("0123456789") != s.npos && s.find_first_not_of(" \t\n\v\f\r+-0123456789") == s.npos && (s.find('-') == s.npos || !got), "native", is);
        break;
    }
    default:
        R.check(threw, "native", is);
    }
}
template <typename F> void mustThrow(const char* key, const std::string& what, F f)
{
    bool threw = false;
    try {
        f();
    } catch (const std::exception&) {
        threw = true;
    }
    R.check(threw, key, what);
}
}

// A value is read as what it is, or not at all
PART(C35, conversions)
{
    Gen g(r);
    g.bytes = 60;
    uint64_t h = 0;
    for (unsigned i = 0; i < 12; ++i) {
        g.budget = 12;
        const Mixed m = mixedValue(r, g);
        const Val& v = m.v;
        mustBe<uint8_t>(v, "asByte", DBus::Type::asByte, m.lib);
        mustBe<uint32_t>(v, "asUint32", DBus::Type::asUint32, m.lib);
        const char* names[] = { "refArray", "refStruct", "refSignature", "refVariant" };
        for (unsigned k = 0; k < 4; ++k) {
            const void* p = nullptr;
            const void* want = nullptr;
            bool threw = false;
            try {
                if (k == 0) {
                    if (v.t == 'a')
                        want = boost::any_cast<DBus::Type::Array>(&m.lib);
                    p = &DBus::Type::refArray(m.lib);
                } else if (k == 1) {
                    if (v.t == '(')
                        want = boost::any_cast<DBus::Type::Struct>(&m.lib);
                    p = &DBus::Type::refStruct(m.lib);
                } else if (k == 2) {
                    if (v.t == 'g')
                        want = boost::any_cast<DBus::Type::Signature>(&m.lib);
                    p = &DBus::Type::refSignature(m.lib);
                } else {
                    if (v.t == 'v')
                        want = boost::any_cast<DBus::Type::Variant>(&m.lib);
                    p = &DBus::Type::refVariant(m.lib);
                }
            } catch (const std::exception&) {
                threw = true;
            }
            R.check(threw == (v.t != "a(gv"[k]) && p == want, "reference", std::string(names[k]) + " of a value of type " + sigOf(v) + (threw ? " throws" : p == want ? "" : " refers to something else"));
        }
        if (v.t == 's' || v.t == 'o' || v.t == 'g')
            R.check(DBus::Type::asString(m.lib) == v.s, "text", "asString of " + show(v));
        try {
            const Val back = bridge::fromLib(m.lib);
            R.check(same(v, back, true), "value", "reads as " + show(back) + " instead of " + show(v));
        } catch (const bridge::Unreadable& e) {
            R.violation("value", std::string(e.what()) + ": " + show(v));
        }
        h = hashStr(show(v), h);
    }
    mustThrow("native", "asByte of nothing does not throw", [] { DBus::Type::asByte(bridge::G()); });
    mustThrow("native", "asUint32 of nothing does not throw", [] { DBus::Type::asUint32(bridge::G()); });
    R.eval(h);
}

// What a message or a structure does not have can not be read
PART(C35, beyond)
{
    Gen g(r);
    g.bytes = 60;
    const auto beyond = [&](size_t n) {
        static const size_t far[] = { 0, 1, 2, 3, 7, 100, 0xffffffff, 0x100000000, (size_t)-1 };
        const size_t k = r.below(12);
        return k < 9 ? std::max(n, n + far[k]) : n + r.below((size_t)1 << r.range(1, 60));
    };
    uint64_t h = 0;
    for (unsigned i = 0; i < 6; ++i) {
        g.budget = 20;
        // a structure, built or received
        Val v;
        v.t = '(';
        for (unsigned n = r.range(1, 6); n; --n)
            v.k.push_back(g.value(g.type(1)));
        bridge::G lib = bridge::viaBytes(v, r.chance(1, 2));
        const DBus::Type::Struct& s = DBus::Type::refStruct(lib);
        R.check(s.getEntries() == v.k.size(), "count", "a structure of " + std::to_string(v.k.size()) + " fields has " + std::to_string(s.getEntries()));
        for (unsigned k = 0; k < 4; ++k) {
            const size_t at = beyond(v.k.size());
            mustThrow("field", "field " + std::to_string(at) + " of a structure of " + std::to_string(v.k.size()), [&] { (void)DBus::Type::asString(s[at]); });
        }
        // a message, built or received
        DBus::Message::MethodCallParametersIn in;
        std::vector<Val> body;
        for (unsigned n = r.chance(1, 3) ? 0 : r.range(1, 5); n; --n) {
            body.push_back(g.value(g.type(1)));
            in.add(bridge::viaBytes(body.back(), r.chance(1, 2)));
        }
        R.check(in.getParameterCount() == body.size(), "count", std::to_string(body.size()) + " parameters are " + std::to_string(in.getParameterCount()));
        for (unsigned k = 0; k < 3; ++k) {
            const size_t at = beyond(body.size());
            mustThrow("parameter", "parameter " + std::to_string(at) + " of " + std::to_string(body.size()), [&] { (void)DBus::Type::asString(in.getParameter(at)); });
        }
        bridge::Receiver rec;
        size_t seen = 0;
        rec.onMessage = [&](const DBus::Message::Base& m, int) {
            ++seen;
            R.check(m.getParameterCount() == body.size(), "count", std::to_string(body.size()) + " received parameters are " + std::to_string(m.getParameterCount()));
            for (unsigned k = 0; k < 4; ++k) {
                const size_t at = beyond(body.size());
                mustThrow("parameter", "parameter " + std::to_string(at) + " of a message with " + std::to_string(body.size()), [&] { (void)DBus::Type::asString(m.getParameter(at)); });
            }
            for (size_t k = 0; k < body.size(); ++k)
                try {
                    const Val back = bridge::fromLib(m.getParameter(k));
                    R.check(same(body[k], back, true), "value", "parameter " + std::to_string(k) + " is " + show(back) + " instead of " + show(body[k]));
                } catch (const std::exception& e) {
                    R.violation("value", "parameter " + std::to_string(k) + " of " + std::to_string(body.size()) + ": " + e.what());
                }
        };
        Msg m;
        do
            m = g.message();
        while (m.type < CALL || m.type > SIGNAL);
        m.body = body;
        const std::string bytes = encode(m);
        rec.feed(bytes.data(), bytes.size(), r.below(8));
        R.check(seen == 1, "delivered", std::to_string(seen) + " deliveries of one message");
        h = hashStr(bytes, h);
    }
    R.eval(h);
}

//--------------------------------------------------------------------------- C34
IN_ANY_LOCALE(rendering, C24_rendering);
IN_ANY_LOCALE(dumps, C24_dumps);
IN_ANY_LOCALE(hex, C25_random);
IN_ANY_LOCALE(addresses, C19_addresses);
IN_ANY_LOCALE(documents, C20_documents);
IN_ANY_LOCALE(types, C21_random);
IN_ANY_LOCALE(conversions, C35_conversions);
