// An independent D-Bus codec; see ref.h
#include "ref.h"

namespace ref {

Val num(char t, uint64_t u)
{
    Val v;
    v.t = t;
    v.u = u;
    return v;
}

Val str(const std::string& s, char t)
{
    Val v;
    v.t = t;
    v.s = s;
    return v;
}

std::string sigOf(const Val& v)
{
    switch (v.t) {
    case 'a':
        return "a" + v.sig;
    case '(': {
        std::string r = "(";
        for (auto& c : v.k)
            r += sigOf(c);
        return r + ")";
    }
    case '{':
        return "{" + sigOf(v.k[0]) + sigOf(v.k[1]) + "}";
    default:
        return std::string(1, v.t);
    }
}

std::string sigOf(const std::vector<Val>& v)
{
    std::string r;
    for (auto& x : v)
        r += sigOf(x);
    return r;
}

Val variant(const Val& c)
{
    Val v;
    v.t = 'v';
    v.sig = sigOf(c);
    v.k.push_back(c);
    return v;
}

size_t alignOf(char c)
{
    switch (c) {
    case 'y':
    case 'g':
    case 'v':
        return 1;
    case 'n':
    case 'q':
        return 2;
    case 'b':
    case 'i':
    case 'u':
    case 's':
    case 'o':
    case 'a':
    case 'h':
        return 4;
    default:
        return 8; // x t d ( {
    }
}

size_t sizeOf(char c)
{
    switch (c) {
    case 'y':
        return 1;
    case 'n':
    case 'q':
        return 2;
    case 'b':
    case 'i':
    case 'u':
        return 4;
    case 'x':
    case 't':
    case 'd':
        return 8;
    default:
        return 0;
    }
}

bool same(const Val& a, const Val& b, bool nanEqual)
{
    if (a.t != b.t || a.s != b.s || a.sig != b.sig || a.k.size() != b.k.size())
        return false;
    if (a.u != b.u) {
        if (!(nanEqual && a.t == 'd'))
            return false;
        double x, y;
        memcpy(&x, &a.u, 8);
        memcpy(&y, &b.u, 8);
        if (!(std::isnan(x) && std::isnan(y)))
            return false;
    }
    for (size_t i = 0; i < a.k.size(); ++i)
        if (!same(a.k[i], b.k[i], nanEqual))
            return false;
    return true;
}

bool same(const std::vector<Val>& a, const std::vector<Val>& b, bool nanEqual)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!same(a[i], b[i], nanEqual))
            return false;
    return true;
}

std::string show(const Val& v, size_t budget)
{
    std::string r;
    if (v.t == 's' || v.t == 'o' || v.t == 'g') {
        r = std::string(1, v.t) + "'" + (v.s.size() > 40 ? v.s.substr(0, 40) + "..(" + std::to_string(v.s.size()) + ")" : v.s) + "'";
    } else if (v.t == 'a' || v.t == '(' || v.t == '{' || v.t == 'v') {
        r = v.t == 'a' ? "a<" + v.sig + ">[" : v.t == 'v' ? "v<" + v.sig + ">[" : std::string(1, v.t);
        for (auto& c : v.k) {
            if (r.size() > budget) {
                r += "..";
                break;
            }
            r += show(c, budget / 2) + " ";
        }
        r += v.t == '(' ? ")" : v.t == '{' ? "}" : "]";
    } else {
        char b[40];
        snprintf(b, sizeof b, "%c%#" PRIx64, v.t, v.u);
        r = b;
    }
    return r;
}

std::string show(const std::vector<Val>& v)
{
    std::string r;
    for (auto& x : v) {
        r += show(x) + "; ";
        if (r.size() > 600) {
            r += "...";
            break;
        }
    }
    return r;
}

void Enc::align(size_t a)
{
    while ((base + b.size()) % a)
        b.push_back(0);
}

void Enc::num(uint64_t u, size_t n)
{
    align(n);
    for (size_t i = 0; i < n; ++i)
        b.push_back((char)(u >> (8 * (be ? n - 1 - i : i))));
}

void Enc::patch32(size_t at, uint32_t u)
{
    for (size_t i = 0; i < 4; ++i)
        b[at + i] = (char)(u >> (8 * (be ? 3 - i : i)));
}

void Enc::sig(const std::string& s)
{
    b.push_back((char)s.size());
    b += s;
    b.push_back(0);
}

void Enc::val(const Val& v)
{
    switch (v.t) {
    case 's':
    case 'o':
        num(v.s.size(), 4);
        b += v.s;
        b.push_back(0);
        break;
    case 'g':
        sig(v.s);
        break;
    case 'v':
        sig(v.sig);
        val(v.k[0]);
        break;
    case '(':
    case '{':
        align(8);
        for (auto& c : v.k)
            val(c);
        break;
    case 'a': {
        align(4);
        size_t at = b.size();
        num(0, 4);
        align(alignOf(v.sig[0]));
        size_t start = b.size();
        for (auto& c : v.k)
            val(c);
        patch32(at, (uint32_t)(b.size() - start));
        break;
    }
    default:
        num(v.u, sizeOf(v.t));
    }
}

size_t typeEnd(const std::string& s, size_t i, unsigned arrays, unsigned structs, bool inArray)
{
    if (i >= s.size())
        throw Bad("signature ends early");
    const char c = s[i];
    if (isBasic(c) || c == 'v')
        return i + 1;
    if (c == 'a') {
        if (arrays >= 32)
            throw Bad("array depth");
        return typeEnd(s, i + 1, arrays + 1, structs, true);
    }
    if (c == '(') {
        if (structs >= 32)
            throw Bad("struct depth");
        size_t j = i + 1;
        if (j < s.size() && s[j] == ')')
            throw Bad("empty struct");
        while (j < s.size() && s[j] != ')')
            j = typeEnd(s, j, arrays, structs + 1);
        if (j >= s.size())
            throw Bad("unterminated struct");
        return j + 1;
    }
    if (c == '{') {
        if (!inArray)
            throw Bad("dict entry outside array");
        if (structs >= 32)
            throw Bad("struct depth");
        if (i + 1 >= s.size() || !isBasic(s[i + 1]))
            throw Bad("dict key");
        size_t j = typeEnd(s, i + 2, arrays, structs + 1);
        if (j >= s.size() || s[j] != '}')
            throw Bad("dict entry end");
        return j + 1;
    }
    throw Bad(std::string("unknown type ") + c);
}

std::vector<std::string> splitSig(const std::string& s)
{
    if (s.size() > 255)
        throw Bad("signature length");
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        size_t e = typeEnd(s, i);
        r.push_back(s.substr(i, e - i));
        i = e;
    }
    return r;
}

bool validUtf8(const std::string& s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
        if (!n || i + n > s.size())
            return false;
        for (size_t j = 1; j < n; ++j)
            if (((unsigned char)s[i + j] & 0xc0) != 0x80)
                return false;
        i += n;
    }
    return true;
}

void Dec::need(size_t c)
{
    if (c > n - o)
        throw Short("data ends early");
}

void Dec::align(size_t a)
{
    while ((base + o) % a) {
        need(1);
        if (p[o] && !lenient)
            throw Bad("padding is not zero");
        ++o;
    }
}

uint64_t Dec::num(size_t c)
{
    align(c);
    need(c);
    uint64_t u = 0;
    for (size_t i = 0; i < c; ++i)
        u |= (uint64_t)p[o + i] << (8 * (be ? c - 1 - i : i));
    o += c;
    return u;
}

std::string Dec::bytes(size_t c)
{
    need(c);
    std::string r((const char*)p + o, c);
    o += c;
    if (r.find('\0') != std::string::npos && !lenient)
        throw Bad("NUL within string");
    need(1);
    if (p[o] && !lenient)
        throw Bad("string is not terminated");
    ++o;
    return r;
}

Val Dec::val(const std::string& sig)
{
    Val v;
    v.t = sig[0];
    switch (v.t) {
    case 's':
    case 'o':
        v.s = bytes(num(4));
        break;
    case 'g': {
        need(1);
        size_t c = p[o++];
        v.s = bytes(c);
        if (!lenient)
            splitSig(v.s);
        break;
    }
    case 'v': {
        need(1);
        size_t c = p[o++];
        v.sig = bytes(c);
        if (splitSig(v.sig).size() != 1)
            throw Bad("variant signature is not one type");
        if (++depth > 64)
            throw Bad("depth");
        v.k.push_back(val(v.sig));
        --depth;
        break;
    }
    case '(':
    case '{': {
        align(8);
        if (++depth > 64)
            throw Bad("depth");
        for (size_t i = 1; i + 1 < sig.size();) {
            size_t e = typeEnd(sig, i);
            v.k.push_back(val(sig.substr(i, e - i)));
            i = e;
        }
        --depth;
        break;
    }
    case 'a': {
        v.sig = sig.substr(1);
        size_t c = num(4);
        if (c > (64u << 20))
            throw Bad("array length");
        align(alignOf(v.sig[0]));
        need(c);
        if (++depth > 64)
            throw Bad("depth");
        const size_t end = o + c, n0 = n;
        n = end;
        while (o < end)
            v.k.push_back(val(v.sig));
        n = n0;
        --depth;
        break;
    }
    default:
        if (!sizeOf(v.t))
            throw Bad("type");
        v.u = num(sizeOf(v.t));
        if (v.t == 'b' && v.u > 1 && !lenient)
            throw Bad("boolean value");
    }
    return v;
}

std::vector<Val> Dec::vals(const std::string& sig)
{
    std::vector<Val> r;
    for (auto& s : splitSig(sig))
        r.push_back(val(s));
    return r;
}

std::string encode(const Msg& m, const std::string* sig, const std::string* bodyBytes, std::vector<size_t>* marks)
{
    Enc body(m.be);
    for (auto& v : m.body)
        body.val(v);
    const std::string& bb = bodyBytes ? *bodyBytes : body.b;
    const std::string s = sig ? *sig : sigOf(m.body);

    Enc h(m.be);
    h.b.push_back(m.be ? 'B' : 'l');
    h.b.push_back((char)m.type);
    h.b.push_back((char)m.flags);
    h.b.push_back((char)m.version);
    h.num(bb.size(), 4);
    h.num(m.serial, 4);
    h.num(0, 4);
    const size_t start = h.b.size();
    auto field = [&](uint8_t code, const Val& v) {
        h.align(8);
        h.b.push_back((char)code);
        h.val(variant(v));
        if (marks)
            marks->push_back(h.b.size());
    };
    int pos = 0;
    bool sigDone = s.empty();
    for (auto& f : m.fields) {
        if (!sigDone && m.sigPos == pos) {
            field(F_SIGNATURE, str(s, 'g'));
            sigDone = true;
        }
        field(f.first, f.second);
        ++pos;
    }
    if (!sigDone)
        field(F_SIGNATURE, str(s, 'g'));
    h.patch32(12, (uint32_t)(h.b.size() - start));
    h.align(8);
    if (marks)
        marks->push_back(h.b.size());
    return h.b + bb;
}

size_t messageSize(const char* d, size_t n)
{
    if (n < 16)
        return 0;
    const uint8_t* p = (const uint8_t*)d;
    if (p[0] != 'l' && p[0] != 'B')
        throw Bad("byte order mark");
    auto u32 = [&](size_t o) {
        uint64_t u = 0;
        for (int i = 0; i < 4; ++i)
            u |= (uint64_t)p[o + i] << (8 * (p[0] == 'B' ? 3 - i : i));
        return u;
    };
    uint64_t fields = u32(12), body = u32(4);
    if (fields > (64u << 20))
        throw Bad("header fields length");
    uint64_t total = 16 + ((fields + 7) & ~7ull) + body;
    if (total > (128u << 20))
        throw Bad("message length");
    return total;
}

Msg decode(const std::string& d)
{
    if (messageSize(d.data(), d.size()) != d.size())
        throw Bad("message size");
    Msg m;
    m.be = d[0] == 'B';
    Dec h(d, m.be);
    h.o = 1;
    m.type = h.num(1);
    m.flags = h.num(1);
    m.version = h.num(1);
    const size_t bodySize = h.num(4);
    m.serial = h.num(4);
    if (m.type < 1 || m.type > 4)
        throw Bad("message type");
    if (m.flags & ~7)
        throw Bad("flags");
    if (m.version != 1)
        throw Bad("protocol version");
    if (!m.serial)
        throw Bad("serial is zero");
    Val f = h.val("a(yv)");
    h.align(8);
    if (d.size() - h.o != bodySize)
        throw Bad("body size");
    static const char* types[] = { "", "o", "s", "s", "s", "u", "s", "s", "g", "u" };
    std::string sig;
    std::set<int> seen;
    int pos = 0;
    for (auto& x : f.k) {
        int code = x.k[0].u;
        if (code == 0 || code > 9)
            throw Bad("unknown header field");
        if (!seen.insert(code).second)
            throw Bad("header field twice");
        if (x.k[1].sig != types[code])
            throw Bad("type of header field " + std::to_string(code));
        const Val& v = x.k[1].k[0];
        if (code == F_SIGNATURE) {
            sig = v.s;
            m.sigPos = pos;
        } else
            m.fields.push_back({ (uint8_t)code, v });
        ++pos;
    }
    auto required = [&](int c) {
        if (!seen.count(c))
            throw Bad("required header field " + std::to_string(c) + " is missing");
    };
    if (m.type == CALL || m.type == SIGNAL)
        required(F_PATH), required(F_MEMBER);
    if (m.type == SIGNAL)
        required(F_INTERFACE);
    if (m.type == RETURN || m.type == ERROR)
        required(F_REPLY_SERIAL);
    if (m.type == ERROR)
        required(F_ERROR_NAME);
    if (sig.empty() && bodySize)
        throw Bad("body without signature");
    std::string bb = d.substr(h.o);
    Dec b(bb, m.be);
    m.body = b.vals(sig);
    if (b.o != bb.size())
        throw Bad("body is longer than its values");
    return m;
}

uint64_t Gen::number(char t)
{
    size_t n = sizeOf(t);
    if (t == 'b')
        return r.below(2);
    if (t == 'd') {
        static const double ds[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 1e300, 1e-300, 4.9e-324, 1.7976931348623157e308, 123456789.123456789, 3.141592653589793,
            1.0 / 3, 16777217.0, 9007199254740993.0, INFINITY, -INFINITY, NAN, 100000.0, 1234567.0, 0.30000000000000004 };
        uint64_t u;
        if (r.chance(1, 2)) {
            double d = ds[r.below(sizeof ds / sizeof *ds)];
            memcpy(&u, &d, 8);
        } else
            u = r.next();
        return u;
    }
    uint64_t u;
    switch (r.below(6)) {
    case 0:
        u = r.below(4);
        break;
    case 1:
        u = ~r.below(4);
        break;
    case 2:
        u = (1ull << (n * 8 - 1)) - 1 + r.below(3);
        break;
    case 3:
        u = 1ull << r.below(n * 8);
        break;
    case 4:
        u = r.below(256);
        break;
    default:
        u = r.next();
    }
    return n == 8 ? u : u & ((1ull << (8 * n)) - 1);
}

std::string Gen::text(size_t len)
{
    std::string s;
    s.reserve(len + 4);
    const unsigned kind = r.below(rawStrings ? 5 : 4);
    static const char* extra[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "%n%s", "'", ",", "=", "\n", "\t", "\x7f", "\x01" };
    uint64_t w = r.next();
    while (s.size() < len) {
        w = vh::mix(w);
        if (kind == 0)
            s.push_back((char)('a' + w % 26));
        else if (kind == 4)
            s.push_back((char)(1 + w % 255));
        else if (w % 8 == 0 && kind >= 2) {
            const char* e = extra[(w >> 8) % 11];
            if (s.size() + strlen(e) <= len)
                s += e;
            else
                s.push_back('z');
        } else
            s.push_back((char)(' ' + w % 95));
    }
    return s;
}

size_t Gen::length()
{
    static const size_t ls[] = { 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 63, 127, 128, 254, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4096,
        65535, 65536, 65537 };
    size_t l = r.chance(1, 2) ? r.below(24) : ls[r.below(sizeof ls / sizeof *ls)];
    if (l > bytes)
        l = r.below(8);
    bytes -= std::min(bytes, l);
    return l;
}

std::string Gen::name()
{
    static const char* cs = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    std::string s;
    size_t n = r.range(1, 9);
    for (size_t i = 0; i < n; ++i)
        s.push_back(cs[r.below(i ? 63 : 53)]);
    return s;
}

std::string Gen::path()
{
    if (r.chance(1, 12))
        return "/";
    std::string s;
    size_t n = r.range(1, r.chance(1, 10) ? 20 : 4);
    for (size_t i = 0; i < n; ++i)
        s += "/" + name();
    return s;
}

std::string Gen::interface()
{
    std::string s = name();
    size_t n = r.range(1, r.chance(1, 10) ? 12 : 3);
    for (size_t i = 0; i < n; ++i)
        s += "." + name();
    return s;
}

std::string Gen::type(unsigned depth, bool noArray, unsigned arrays, unsigned structs)
{
    if (depth >= maxDepth || r.chance(11, 20))
        return std::string(1, basic());
    switch (r.below(4)) {
    case 0:
        return "v";
    case 1:
        if (!noArray && arrays < 30) {
            if (r.chance(2, 5) && structs < 30) {
                // the value of a dictionary may be an array even when constructed
                return "a{" + std::string(1, basic()) + type(depth + 2, false, arrays + 1, structs + 1) + "}";
            }
            return "a" + type(depth + 1, constructible, arrays + 1, structs);
        }
        // fall through
    default:
        if (structs >= 30)
            return std::string(1, basic());
        std::string s = "(";
        size_t n = r.range(1, r.chance(1, 12) ? 12 : 4);
        for (size_t i = 0; i < n; ++i)
            s += type(depth + 1, constructible, arrays, structs + 1);
        return s + ")";
    }
}

Val Gen::value(const std::string& sig, unsigned depth)
{
    Val v;
    v.t = sig[0];
    if (budget)
        --budget;
    switch (v.t) {
    case 's':
        v.s = text(length());
        break;
    case 'o':
        v.s = path();
        break;
    case 'g': {
        size_t n = r.below(4);
        bool c = constructible;
        constructible = false;
        for (size_t i = 0; i < n; ++i) {
            std::string t = type(4);
            if (v.s.size() + t.size() < 255)
                v.s += t;
        }
        if (r.chance(1, 20))
            v.s = std::string(r.chance(1, 2) ? 255 : 254, 'y');
        constructible = c;
        break;
    }
    case 'v': {
        std::string t;
        if (constructible)
            t = std::string(1, "osug"[r.below(4)]);
        else {
            do
                t = type(depth + 1 > maxDepth ? maxDepth : depth + 1);
            while (t.size() > 255);
        }
        v.sig = t;
        v.k.push_back(value(t, depth + 1));
        break;
    }
    case 'a': {
        v.sig = sig.substr(1);
        size_t n = r.chance(1, 4) ? 0 : r.chance(1, 15) ? r.range(10, 100) : r.range(1, 4);
        for (size_t i = 0; i < n && budget; ++i)
            v.k.push_back(value(v.sig, depth + 1));
        break;
    }
    case '(':
    case '{':
        for (size_t i = 1; i + 1 < sig.size();) {
            size_t e = typeEnd(sig, i);
            v.k.push_back(value(sig.substr(i, e - i), depth + 1));
            i = e;
        }
        break;
    default:
        v.u = number(v.t);
    }
    return v;
}

std::vector<Val> Gen::args(size_t max)
{
    std::vector<Val> r_;
    std::string sig;
    size_t n = r.chance(1, 8) ? 0 : r.range(1, max);
    for (size_t i = 0; i < n; ++i) {
        std::string t = type();
        if (sig.size() + t.size() > 255)
            break;
        sig += t;
        r_.push_back(value(t));
    }
    return r_;
}

uint32_t Gen::serial()
{
    switch (r.below(5)) {
    case 0:
        return 1 + r.below(3);
    case 1:
        return 0xffffffffu - r.below(3);
    case 2:
        return 0x7ffffffeu + r.below(4);
    default: {
        uint32_t s = r.next();
        return s ? s : 1;
    }
    }
}

Msg Gen::message(bool withBody)
{
    Msg m;
    m.be = r.chance(1, 2);
    m.type = 1 + r.below(4);
    m.flags = r.below(8);
    m.serial = serial();
    std::vector<std::pair<uint8_t, Val>> f;
    const bool addr = m.type == CALL || m.type == SIGNAL;
    if (addr || r.chance(1, 6))
        f.push_back({ F_PATH, str(path(), 'o') });
    if (m.type == SIGNAL || (m.type == CALL && r.chance(4, 5)) || r.chance(1, 8))
        f.push_back({ F_INTERFACE, str(interface()) });
    if (addr || r.chance(1, 8))
        f.push_back({ F_MEMBER, str(name()) });
    if (m.type == ERROR || r.chance(1, 10))
        f.push_back({ F_ERROR_NAME, str(interface()) });
    if (m.type == RETURN || m.type == ERROR || r.chance(1, 10))
        f.push_back({ F_REPLY_SERIAL, num('u', serial()) });
    if (r.chance(1, 2))
        f.push_back({ F_DESTINATION, str(busname()) });
    if (r.chance(2, 3))
        f.push_back({ F_SENDER, str(busname()) });
    r.shuffle(f);
    m.fields = f;
    if (withBody)
        m.body = args();
    m.sigPos = (int)r.below(f.size() + 1);
    return m;
}

} // namespace ref
