// Hostile streams, and a client that looks at everything it gets from them.
#pragma once
#include "bridge.h"

using namespace vh;
using namespace ref;
using bridge::Receiver;
namespace T = DBus::Type;

namespace {
// What a handler may do with a value whose type is not what it expected
void useBadly(const T::Generic& g)
{
    auto attempt = [](auto f) {
        try {
            f();
        } catch (const std::exception&) {
        }
    };
    attempt([&] { (void)T::asByte(g); });
    attempt([&] { (void)T::asUint32(g); });
    attempt([&] { (void)T::asString(g).size(); });
    attempt([&] { (void)T::refArray(g).size(); });
    attempt([&] { (void)T::refStruct(g).getEntries(); });
    attempt([&] { (void)T::asString(T::refStruct(g)[T::refStruct(g).getEntries()]); });
    attempt([&] { (void)T::refSignature(g).getValue().size(); });
    attempt([&] { (void)T::refVariant(g).getValue(); });
}

// A client that looks at everything it is given, and sends it on
struct Nosy {
    Receiver rec;
    uint64_t delivered = 0, exceptions = 0, text = 0;
    Nosy()
    {
        rec.onMessage = [this](const DBus::Message::Base& m, int) {
            ++delivered;
            DBus::Message::Signal s(DBus::Message::MethodCallIdentifier("/a", "b.c", "d"));
            for (size_t i = 0; i < m.getParameterCount(); ++i) {
                const auto& g = m.getParameter(i);
                useBadly(g);
                text += T::toString(g).size();
                s.addParameter(g);
            }
            // one more than there are
            try {
                useBadly(m.getParameter(m.getParameterCount()));
            } catch (const std::exception&) {
            }
            try {
                (void)s.marshall(m.getHeaderSender());
            } catch (const std::exception&) {
            }
        };
        rec.onSeen = [this](const bridge::Seen&) { rec.got.clear(); };
    }
    void feed(const char* p, size_t n, Rng& r)
    {
        try {
            rec.feed(p, n, r.below(8));
        } catch (const std::exception&) {
            // as the connection does
            ++exceptions;
            rec.protocol.reset();
        }
    }
    void feed(const std::string& s, Rng& r)
    {
        for (auto& c : bridge::cuts(r, s.size()))
            feed(s.data() + c.first, c.second, r);
    }
};

uint32_t evil(Rng& r, size_t near)
{
    static const uint32_t v[] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x3ffffff, 0x4000000, 0x4000001, 0x7ffffff, 0x8000000, 0x8000001,
        0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffff7, 0xfffffff8, 0xfffffffc, 0xffffffff };
    return r.chance(1, 3) ? (uint32_t)(near + r.below(9) - 4) : v[r.below(28)];
}

void mutate(std::string& b, Rng& r, unsigned n)
{
    while (n--) {
        if (b.empty())
            b = "l";
        const size_t at = r.below(b.size());
        switch (r.below(10)) {
        case 0:
            b[at] = (char)r.next();
            break;
        case 1:
            b[at] ^= 1 << r.below(8);
            break;
        case 2: // one of the type codes and brackets
            b[at] = "ybnqiuxtdsogha(){}vrem"[r.below(22)];
            break;
        case 3:
        case 4: { // a length
            const size_t o = at & ~(size_t)3;
            const uint32_t v = evil(r, b.size() - o);
            const bool be = r.chance(1, 2);
            for (size_t i = 0; i < 4 && o + i < b.size(); ++i)
                b[o + i] = (char)(v >> (8 * (be ? 3 - i : i)));
            break;
        }
        case 5:
            b.erase(at, 1 + r.below(r.chance(1, 2) ? 4 : 40));
            break;
        case 6:
            b.insert(at, 1 + r.below(r.chance(1, 2) ? 8 : 60), (char)(r.chance(1, 2) ? 0 : r.next()));
            break;
        case 7: { // something from elsewhere
            const size_t from = r.below(b.size());
            const std::string s = b.substr(from, r.range(1, 40));
            if (r.chance(1, 2))
                b.insert(at, s);
            else
                b.replace(at, s.size(), s);
            break;
        }
        case 8:
            b.resize(at);
            break;
        default:
            b[at] = (char)r.below(3);
        }
    }
}

std::string hostileStream(Rng& r, unsigned maxMessages)
{
    Gen g(r);
    g.bytes = 1500;
    std::string s;
    const size_t n = r.range(1, maxMessages);
    for (size_t i = 0; i < n; ++i) {
        g.budget = 30;
        Msg m = g.message();
        switch (r.below(6)) {
        case 0: { // a wrong body with consistent lengths
            std::string sig = sigOf(m.body);
            Enc e(m.be);
            for (auto& v : m.body)
                e.val(v);
            if (r.chance(1, 2))
                mutate(e.b, r, r.range(1, 4));
            else
                mutate(sig, r, r.range(1, 3));
            sig.resize(std::min<size_t>(sig.size(), 255));
            s += encode(m, &sig, &e.b);
            break;
        }
        case 1: { // wrong header fields with consistent lengths
            for (auto& f : m.fields)
                if (r.chance(1, 3)) {
                    g.budget = 6;
                    f.second = r.chance(1, 2) ? g.value(g.type()) : num('u', evil(r, 4));
                } else if (r.chance(1, 4))
                    f.first = (uint8_t)r.below(12);
            if (r.chance(1, 2))
                m.fields.push_back({ (uint8_t)r.below(12), g.value(g.type()) });
            if (r.chance(1, 2) && !m.fields.empty())
                m.fields.erase(m.fields.begin() + r.below(m.fields.size()));
            m.type = (uint8_t)(r.chance(1, 2) ? r.below(6) : m.type);
            try {
                s += encode(m);
            } catch (const Bad&) {
            }
            break;
        }
        case 2:
            s += encode(m);
            break;
        default: {
            std::string b = encode(m);
            mutate(b, r, r.range(1, r.chance(1, 4) ? 12 : 3));
            s += b;
        }
        }
    }
    return s;
}
}
