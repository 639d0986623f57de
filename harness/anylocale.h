// A case run under a global locale that writes numbers in another way.
#pragma once
#include "common.h"
#include <clocale>
#include <locale>

namespace vh {
// Numbers are grouped, separated and pointed as told
struct Numbers : std::numpunct<char> {
    std::string groups, yes, no;
    char separator, point;
    Numbers(Rng& r)
    {
        static const char* const G[] = { "\3", "\1", "\2", "\3\2", "\1\2\3", "\3\177", "" };
        static const char S[] = ",.' \xa0_-x0f";
        static const char P[] = ",.;'x";
        groups = G[r.below(7)];
        separator = S[r.below(sizeof S - 1)];
        point = P[r.below(sizeof P - 1)];
        yes = r.chance(1, 2) ? "ja" : "1";
        no = r.chance(1, 2) ? "nein" : "";
    }
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return separator; }
    std::string do_grouping() const override { return groups; }
    std::string do_truename() const override { return yes; }
    std::string do_falsename() const override { return no; }
};
// Other characters are letters, digits and spaces
struct Kinds : std::ctype<char> {
    static const mask* table(Rng& r)
    {
        mask* t = new mask[table_size];
        memcpy(t, classic_table(), table_size * sizeof *t);
        for (int i = 128; i < 256; ++i)
            if (r.chance(1, 3))
                t[i] = r.chance(1, 2) ? space : r.chance(1, 2) ? alpha | lower | print : digit | xdigit | print;
        static const char some[] = "\n\r\t -_.'/=,:*1aF";
        for (const char* c = some; *c; ++c)
            if (r.chance(1, 4))
                t[(unsigned char)*c] = r.chance(1, 2) ? space : alpha | print;
        return t;
    }
    Kinds(Rng& r)
        : std::ctype<char>(table(r), true)
    {
    }
    char do_toupper(char c) const override { return c == 'i' ? 'I' + 1 : std::ctype<char>::do_toupper(c); }
    char do_tolower(char c) const override { return c == 'I' ? 'i' + 1 : std::ctype<char>::do_tolower(c); }
    const char* do_toupper(char* b, const char* e) const override
    {
        for (; b != e; ++b)
            *b = do_toupper(*b);
        return e;
    }
    const char* do_tolower(char* b, const char* e) const override
    {
        for (; b != e; ++b)
            *b = do_tolower(*b);
        return e;
    }
};
// Numbers are written in words of their own
struct Writes : std::num_put<char> {
    template <class T>
    iter_type words(iter_type o, T v) const
    {
        for (char c : "#" + std::to_string(v) + "#")
            *o++ = c;
        return o;
    }
    iter_type do_put(iter_type o, std::ios_base&, char, long v) const override { return words(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long v) const override { return words(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, long long v) const override { return words(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long long v) const override { return words(o, v); }
    iter_type do_put(iter_type o, std::ios_base&, char, double v) const override { return words(o, v); }
};

struct AnyLocale {
    bool c = false;
    AnyLocale(Rng& r)
    {
        Rng q(r.next());
        if (q.chance(1, 4)) {
            c = setlocale(LC_ALL, "C.UTF-8");
            R.add(c ? "locale C.UTF-8" : "no locale C.UTF-8");
        }
        std::locale l = std::locale::classic();
        const unsigned what = 1 + q.below(7);
        if (what & 1) {
            l = std::locale(l, new Numbers(q));
            R.add("other punctuation of numbers");
        }
        if (what & 2) {
            l = std::locale(l, new Kinds(q));
            R.add("other kinds of characters");
        }
        if ((what & 4) && (q.chance(1, 2) || what == 4)) {
            l = std::locale(l, new Writes);
            R.add("other writing of numbers");
        }
        std::locale::global(l);
    }
    ~AnyLocale()
    {
        std::locale::global(std::locale::classic());
        if (c)
            setlocale(LC_ALL, "C");
    }
    AnyLocale(const AnyLocale&) = delete;
};
}

// The workload of another property under any locale
#define IN_ANY_LOCALE(name, fn)                                        \
    static vh::Part C34_##name("C34", #name, [](vh::Rng& r, uint64_t i) { \
        vh::AnyLocale l(r);                                            \
        fn(r, i);                                                      \
    })
