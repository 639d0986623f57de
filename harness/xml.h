// A small, strict XML reader: doctype, elements, attributes. Entities and comments are refused.
#pragma once
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace xml {
struct Element {
    std::string name;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<Element> children;
    std::string attr(const std::string& n) const
    {
        for (auto& a : attrs)
            if (a.first == n)
                return a.second;
        return "";
    }
};
struct Document {
    std::string doctypeName, publicId, systemId;
    Element root;
};

struct Reader {
    const std::string& s;
    size_t i = 0;
    [[noreturn]] void bad(const std::string& w) { throw std::runtime_error(w + " at " + std::to_string(i)); }
    static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    bool skip()
    {
        const size_t b = i;
        while (i < s.size() && space(s[i]))
            ++i;
        return i > b;
    }
    bool at(const char* w) const { return s.compare(i, std::string(w).size(), w) == 0; }
    void want(const char* w)
    {
        if (!at(w))
            bad(std::string("expected ") + w);
        i += std::string(w).size();
    }
    std::string name()
    {
        const size_t b = i;
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == ':' || s[i] == '-' || s[i] == '.'))
            ++i;
        if (i == b || isdigit((unsigned char)s[b]) || s[b] == '-' || s[b] == '.')
            bad("no name");
        return s.substr(b, i - b);
    }
    std::string quoted()
    {
        if (i >= s.size() || (s[i] != '"' && s[i] != '\''))
            bad("no quote");
        const char q = s[i++];
        const size_t e = s.find(q, i);
        if (e == std::string::npos)
            bad("unterminated text");
        std::string v = s.substr(i, e - i);
        i = e + 1;
        if (v.find_first_of("<&") != std::string::npos)
            bad("markup in text");
        return v;
    }
    Element element()
    {
        Element e;
        want("<");
        e.name = name();
        for (;;) {
            const bool sp = skip();
            if (at("/>")) {
                i += 2;
                return e;
            }
            if (at(">")) {
                ++i;
                break;
            }
            if (!sp)
                bad("no space before an attribute");
            std::string n = name();
            skip();
            want("=");
            skip();
            for (auto& a : e.attrs)
                if (a.first == n)
                    bad("attribute twice");
            e.attrs.push_back({ n, quoted() });
        }
        for (;;) {
            skip();
            if (at("</")) {
                i += 2;
                if (name() != e.name)
                    bad("wrong end tag");
                skip();
                want(">");
                return e;
            }
            e.children.push_back(element());
        }
    }
};

inline Document parse(const std::string& text)
{
    Reader r { text };
    Document d;
    r.skip();
    if (r.at("<?xml")) {
        const size_t e = text.find("?>", r.i);
        if (e == std::string::npos || r.i)
            r.bad("declaration");
        r.i = e + 2;
        r.skip();
    }
    r.want("<!DOCTYPE");
    if (!r.skip())
        r.bad("no space");
    d.doctypeName = r.name();
    r.skip();
    r.want("PUBLIC");
    if (!r.skip())
        r.bad("no space");
    d.publicId = r.quoted();
    if (!r.skip())
        r.bad("no space");
    d.systemId = r.quoted();
    r.skip();
    r.want(">");
    r.skip();
    d.root = r.element();
    r.skip();
    if (r.i != text.size())
        r.bad("something after the end");
    return d;
}
}
