// Match rules: a model of what they match, and how they may be written.
#pragma once
#include "conn.h"

namespace {
using conn::Rng;
struct Rule {
    std::string type, sender, interface, member, path, ns, destination;
    std::string text;
    bool installed = false;
};
struct Sig {
    std::string path, interface, member, sender, destination;
};
bool within(const std::string& path, const std::string& ns)
{
    return ns == "/" || path == ns || path.compare(0, ns.size() + 1, ns + "/") == 0;
}
bool satisfies(const Sig& s, const Rule& r)
{
    return (r.type.empty() || r.type == "signal") && (r.sender.empty() || r.sender == s.sender) && (r.interface.empty() || r.interface == s.interface)
        && (r.member.empty() || r.member == s.member) && (r.path.empty() || r.path == s.path) && (r.ns.empty() || within(s.path, r.ns))
        && (r.destination.empty() || r.destination == s.destination);
}
const std::vector<std::string> SENDERS = { ":1.7", ":1.70", "org.freedesktop.DBus", ":1.7'x", "a,b=c", "c\\d", " e " };
const std::vector<std::string> INTERFACES = { "a.b", "a.bc", "a.b.c", "d.e" };
const std::vector<std::string> MEMBERS = { "M", "Mm", "N" };
const std::vector<std::string> PATHS = { "/", "/a", "/a/b", "/a/bc", "/a/b/c", "/ab", "/b" };
const std::vector<std::string> DESTINATIONS = { ":1.5", ":1.55" };
template <class T>
const T& vocab(Rng& r, const std::vector<T>& v, size_t usual)
{
    return v[r.chance(1, 8) ? r.below(v.size()) : r.below(std::min(usual, v.size()))];
}

// The value as it may be written in a rule
std::string written(Rng& r, const std::string& v)
{
    std::string s;
    bool quoted = false;
    const unsigned style = r.below(4); // 0: quoted as a whole, 1: as little as possible, else: in parts
    auto toggle = [&] {
        s += '\'';
        quoted = !quoted;
    };
    if (style == 0)
        toggle();
    for (char c : v) {
        if (c == '\'') {
            if (quoted)
                toggle();
            s += "\\'";
            if (style == 0)
                toggle();
            continue;
        }
        // a backslash before a quote would escape it
        const bool slash = !s.empty() && s.back() == '\\' && !quoted;
        if (!quoted && (c == ',' || (!slash && ((style > 1 && r.chance(1, 3)) || (c == ' ' && r.chance(1, 2))))))
            toggle();
        else if (quoted && style > 0 && c != ',' && r.chance(1, 3))
            toggle();
        s += c;
    }
    if (quoted)
        toggle();
    else if (style > 1 && r.chance(1, 4) && (s.empty() || s.back() != '\\'))
        s += "''";
    return s;
}

Rule anyRule(Rng& r, const std::vector<std::string>& senders = SENDERS, bool destination = true)
{
    Rule u;
    std::vector<std::pair<std::string, std::string>> kv;
    if (r.chance(1, 2)) {
        static const std::vector<std::string> types = { "signal", "signal", "signal", "signal", "signal", "method_call", "method_return", "error" };
        kv.push_back({ "type", u.type = r.pick(types) });
    }
    if (r.chance(1, 3))
        kv.push_back({ "sender", u.sender = vocab(r, senders, 2) });
    if (r.chance(1, 2))
        kv.push_back({ "interface", u.interface = r.pick(INTERFACES) });
    if (r.chance(1, 3))
        kv.push_back({ "member", u.member = r.pick(MEMBERS) });
    if (r.chance(1, 3))
        kv.push_back({ "path", u.path = r.pick(PATHS) });
    else if (r.chance(1, 2))
        kv.push_back({ "path_namespace", u.ns = r.pick(PATHS) });
    if (destination && r.chance(1, 6))
        kv.push_back({ "destination", u.destination = r.pick(DESTINATIONS) });
    r.shuffle(kv);
    static const std::vector<std::string> blanks = { "", "", "", " ", "  ", "\t", "\n " };
    for (auto& p : kv) {
        if (!u.text.empty())
            u.text += ",";
        u.text += r.pick(blanks) + p.first + "=" + written(r, p.second);
    }
    return u;
}
std::string badRule(Rng& r)
{
    const std::string good = anyRule(r).text;
    switch (r.below(6)) {
    case 0:
        return good.empty() ? "type" : good + ",type";
    case 1:
        return "interface='a.b";
    case 2:
        return "='a.b'";
    case 3:
        return "path='/a',path_namespace='/a'";
    case 4:
        return "member='M',,interface";
    default:
        return "sender='a\\''";
    }
}
}
