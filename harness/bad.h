// Messages that are framed well, but whose contents can not be decoded.
#pragma once
#include "ref.h"

namespace ref {
// A complete message whose contents can not be decoded; framed well
inline std::string badMessage(vh::Rng& r, uint32_t serial, std::string* what)
{
    Gen g(r);
    g.bytes = 200;
    g.budget = 20;
    Msg m = g.message();
    m.serial = serial;
    while (m.body.empty() || sigOf(m.body).size() > 200)
        m.body = g.args(4);
    std::string sig = sigOf(m.body);
    Enc e(m.be);
    for (auto& v : m.body)
        e.val(v);
    std::string body = e.b;
    switch (r.below(9)) {
    case 0:
        *what = "missing body data";
        body.resize(r.below(body.size()));
        break;
    case 1:
        *what = "unknown argument type";
        sig.insert(r.below(sig.size() + 1), 1, "hzZ?!r\x7f"[r.below(7)]);
        break;
    case 2:
        *what = "unknown message type";
        m.type = r.range(5, 255);
        break;
    case 3: {
        *what = "string longer than the body";
        sig = "s";
        Enc x(m.be);
        x.num(r.chance(1, 2) ? 0xffffffffu - r.below(9) : r.range(10, 100000), 4);
        x.b += "abc";
        x.b.push_back(0);
        body = x.b;
        break;
    }
    case 4: {
        *what = "array longer than the body";
        sig = "a" + g.type(3);
        Enc x(m.be);
        x.num(r.chance(1, 2) ? 0xffffffffu - r.below(9) : r.range(10, 100000), 4);
        x.num(5, 4);
        body = x.b;
        break;
    }
    case 5:
        *what = "unterminated signature";
        sig = r.chance(1, 2) ? sig + "(" + "i" : r.chance(1, 2) ? sig + "a" : sig + "a{";
        break;
    case 6:
        *what = "body without signature";
        sig = "";
        break;
    case 7: {
        *what = "nested too deeply";
        unsigned n = r.range(66, 200);
        sig = "v";
        body.clear();
        for (unsigned i = 0; i < n; ++i)
            body += std::string("\1v\0", 3);
        body += std::string("\1y\0\7", 4);
        break;
    }
    default: {
        *what = "header field of another type";
        int code = r.pick(std::vector<int> { F_REPLY_SERIAL, F_SIGNATURE });
        if (code == F_SIGNATURE) {
            // the signature as a number: there is none then
            sig = "";
            m.fields.push_back({ F_SIGNATURE, num('u', 115) });
        } else
            m.set(F_REPLY_SERIAL, str("no number"));
    }
    }
    return encode(m, &sig, &body);
}


// The start of a message that can not be framed: the stream is abandoned there
inline std::string framingError(vh::Rng& r, std::string* kind)
{
    const bool be = r.chance(1, 2);
    Enc e(be);
    e.b = be ? "B" : "l";
    e.b += std::string("\1\0\1", 3);
    switch (r.below(4)) {
    case 0:
        *kind = "large header";
        e.num(r.below(1000), 4);
        e.num(77, 4);
        e.num(67108865u + r.below(1000) * 4000000u, 4);
        return e.b;
    case 1:
        *kind = "large body";
        e.num(134217729u + r.below(1000) * 4000000u, 4);
        e.num(77, 4);
        e.num(8, 4);
        e.b += std::string("\2\1s\0\0\0\0\0", 8);
        return e.b;
    case 2:
        *kind = "header field longer than the header";
        e.num(0, 4);
        e.num(77, 4);
        e.num(8, 4);
        e.b += std::string("\1\1s\0\xff\xff\xff\xff", 8);
        return e.b;
    default:
        *kind = "header field of unknown type";
        e.num(0, 4);
        e.num(77, 4);
        e.num(8, 4);
        e.b += std::string("\1\1Z\0\1\0\0\0", 8);
        return e.b;
    }
}
} // namespace ref
