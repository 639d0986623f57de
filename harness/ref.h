// An independent D-Bus codec: value trees, encoder for both byte orders, strict decoder.
// Written from the D-Bus specification; shares no code with the library under test.
#pragma once
#include "common.h"
#include <cmath>

namespace ref {

struct Val {
    char t = 0; // type code: y b n q i u x t d s o g a ( { v
    uint64_t u = 0; // bits of numbers
    std::string s; // s o g
    std::string sig; // a: signature of the elements; v: signature of the content
    std::vector<Val> k; // contents
};

Val num(char t, uint64_t u);
Val str(const std::string& s, char t = 's');

std::string sigOf(const Val& v);
std::string sigOf(const std::vector<Val>& v);

Val variant(const Val& c);
inline Val array(const std::string& elem, std::vector<Val> k = {})
{
    Val v;
    v.t = 'a';
    v.sig = elem;
    v.k = std::move(k);
    return v;
}

size_t alignOf(char c);
size_t sizeOf(char c);

// Are they the same? With nanEqual any NaN equals any NaN.
bool same(const Val& a, const Val& b, bool nanEqual = false);
bool same(const std::vector<Val>& a, const std::vector<Val>& b, bool nanEqual = false);

std::string show(const Val& v, size_t budget = 300);
std::string show(const std::vector<Val>& v);

// ---------------------------------------------------------------- encoder
struct Enc {
    std::string b;
    bool be = false;
    size_t base = 0; // offset of b[0] in the message
    explicit Enc(bool bigEndian = false)
        : be(bigEndian)
    {
    }
    void align(size_t a);
    void num(uint64_t u, size_t n);
    void patch32(size_t at, uint32_t u);
    void sig(const std::string& s);
    void val(const Val& v);
};

// ---------------------------------------------------------------- signatures
struct Bad : std::runtime_error {
    using std::runtime_error::runtime_error;
};
// The values need more data than there is
struct Short : Bad {
    using Bad::Bad;
};

inline bool isBasic(char c) { return c && strchr("ybnqiuxtdsogh", c); }

// end of the single complete type at i; checks the rules of the specification
size_t typeEnd(const std::string& s, size_t i, unsigned arrays = 0, unsigned structs = 0, bool inArray = false);
std::vector<std::string> splitSig(const std::string& s);

bool validUtf8(const std::string& s);

// ---------------------------------------------------------------- decoder
struct Dec {
    const uint8_t* p;
    size_t n, o = 0;
    size_t base = 0;
    bool be = false;
    unsigned depth = 0;
    bool lenient = false; // overlook what does not affect where the values are
    Dec(const std::string& s, bool bigEndian, size_t base_ = 0)
        : p((const uint8_t*)s.data())
        , n(s.size())
        , base(base_)
        , be(bigEndian)
    {
    }
    void need(size_t c);
    void align(size_t a);
    uint64_t num(size_t c);
    std::string bytes(size_t c);
    Val val(const std::string& sig);
    std::vector<Val> vals(const std::string& sig);
};

// ---------------------------------------------------------------- messages
enum { F_PATH = 1,
    F_INTERFACE,
    F_MEMBER,
    F_ERROR_NAME,
    F_REPLY_SERIAL,
    F_DESTINATION,
    F_SENDER,
    F_SIGNATURE,
    F_UNIX_FDS };
enum { CALL = 1,
    RETURN,
    ERROR,
    SIGNAL };

struct Msg {
    bool be = false;
    uint8_t type = CALL, flags = 0, version = 1;
    uint32_t serial = 1;
    std::vector<std::pair<uint8_t, Val>> fields; // without the signature
    std::vector<Val> body;
    int sigPos = -1; // where among the fields the signature goes; -1: last

    const Val* field(uint8_t code) const
    {
        for (auto& f : fields)
            if (f.first == code)
                return &f.second;
        return nullptr;
    }
    std::string text(uint8_t code) const
    {
        auto f = field(code);
        return f ? f->s : "";
    }
    void set(uint8_t code, const Val& v)
    {
        for (auto& f : fields)
            if (f.first == code) {
                f.second = v;
                return;
            }
        fields.push_back({ code, v });
    }
};

// Encodes; `sig` and `bodyBytes` may replace what belongs to the body, for malformed messages.
std::string encode(const Msg& m, const std::string* sig = nullptr, const std::string* bodyBytes = nullptr, std::vector<size_t>* marks = nullptr);

// Total size of the message that starts here, or 0 if its fixed header is incomplete
size_t messageSize(const char* d, size_t n);

// Strict: throws Bad when anything is not as the specification has it
Msg decode(const std::string& d);

// ---------------------------------------------------------------- generator
struct Gen {
    vh::Rng& r;
    unsigned maxDepth = 6;
    size_t budget = 200; // values left for this message
    size_t bytes = 1 << 16; // string bytes left
    bool constructible = false; // only what the library's API can construct
    bool rawStrings = false; // strings need not be UTF-8
    explicit Gen(vh::Rng& rng)
        : r(rng)
    {
    }

    uint64_t number(char t);

    std::string text(size_t len);
    size_t length();
    std::string name();
    std::string path();
    std::string interface();
    std::string busname()
    {
        return r.chance(1, 2) ? ":" + std::to_string(r.below(100)) + "." + std::to_string(r.below(100000)) : interface();
    }

    char basic()
    {
        return "ybnqiuxtdsog"[r.below(12)];
    }
    // constructible arrays can not contain arrays, structs can not contain arrays
    std::string type(unsigned depth = 0, bool noArray = false, unsigned arrays = 0, unsigned structs = 0);
    Val value(const std::string& sig, unsigned depth = 0);
    std::vector<Val> args(size_t max = 6);
    uint32_t serial();
    // A valid message of any type
    Msg message(bool withBody = true);
};

inline uint64_t shapeHash(const Msg& m)
{
    return vh::hashStr(encode(m));
}

} // namespace ref
