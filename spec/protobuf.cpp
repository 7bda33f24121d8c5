// Contracts of the trace encoder: what is appended decodes, by the protobuf wire format, to what was given.
#include "vf.hpp"
#include "extension/trace/protobuf.hpp"
#include "extension/trace/StringInterner.hpp"
namespace pb = NUClear::extension::trace::protobuf;
using Bytes = std::vector<char>;

// ---- the wire format, as the specification sees it ----
struct Reader {
    const Bytes& d;
    size_t pos;
    uint64_t varint() {
        uint64_t v = 0;
        for (unsigned i = 0; i < 10; ++i) {
            vf_assert(pos < d.size(), "the varint ends inside the data");
            const uint8_t b = uint8_t(d[pos++]);
            v |= uint64_t(b & 0x7F) << (7 * i);
            if (!(b & 0x80)) return v;
        }
        vf_fail("a varint is at most ten bytes");
        return v;
    }
    void tag(uint32_t id, unsigned wire) {
        const uint64_t t = varint();
        vf_assert(t == ((uint64_t(id) << 3) | wire), "the field number and wire type are those requested");
    }
};
static uint32_t field_id() {
    const uint32_t id = vf_u32("id");
    vf_assume(id >= 1 && id < (1u << 29));   // valid protobuf field numbers
    return id;
}
static Bytes prefix() {
    Bytes d;
    const char a = char(vf_u8("p0")), b = char(vf_u8("p1"));
    if (vf_choice(2, "prefix")) { d.push_back(a); d.push_back(b); }
    return d;
}
static void kept(const Bytes& before, const Bytes& after) {
    vf_assert(after.size() >= before.size(), "earlier data is kept");
    for (size_t i = 0; i < before.size(); ++i) vf_assert(after[i] == before[i], "earlier data is unchanged");
}
VF_HARNESS(pb_uint64) {
    const uint32_t id = field_id();
    const uint64_t v = vf_u64("v");
    const Bytes b = prefix();
    Bytes d = b;
    pb::uint64(id, v, d);
    kept(b, d);
    Reader r{d, b.size()};
    r.tag(id, 0);
    vf_assert(r.varint() == v, "uint64 decodes to the value");
    vf_assert(r.pos == d.size(), "nothing else is appended");
    vf_cover("uint64");
}
VF_HARNESS(pb_int64) {
    const uint32_t id = field_id();
    const int64_t v = int64_t(vf_u64("v"));
    const Bytes b = prefix();
    Bytes d = b;
    pb::int64(id, v, d);
    kept(b, d);
    Reader r{d, b.size()};
    r.tag(id, 0);
    vf_assert(int64_t(r.varint()) == v, "int64 decodes to the value");
    vf_assert(r.pos == d.size(), "nothing else is appended");
    vf_cover("int64");
}
VF_HARNESS(pb_uint32) {
    const uint32_t id = field_id(), v = vf_u32("v");
    const Bytes b = prefix();
    Bytes d = b;
    pb::uint32(id, v, d);
    kept(b, d);
    Reader r{d, b.size()};
    r.tag(id, 0);
    vf_assert(r.varint() == v, "uint32 decodes to the value");
    vf_assert(r.pos == d.size(), "nothing else is appended");
    vf_cover("uint32");
}
VF_HARNESS(pb_int32) {
    const uint32_t id = field_id();
    const int32_t v = int32_t(vf_u32("v"));
    const Bytes b = prefix();
    Bytes d = b;
    pb::int32(id, v, d);
    kept(b, d);
    Reader r{d, b.size()};
    r.tag(id, 0);
    vf_assert(int32_t(r.varint()) == v, "int32 decodes to the value");   // int32 fields are read as a varint truncated to 32 bits
    vf_assert(r.pos == d.size(), "nothing else is appended");
    vf_cover("int32");
}
VF_HARNESS(pb_fixed64) {
    const uint32_t id = field_id();
    const uint64_t v = vf_u64("v");
    const Bytes b = prefix();
    Bytes d = b;
    pb::fixed64(id, v, d);
    kept(b, d);
    Reader r{d, b.size()};
    r.tag(id, 1);
    vf_assert(r.pos + 8 == d.size(), "fixed64 is eight bytes");
    uint64_t x = 0;
    for (int i = 0; i < 8; ++i) x |= uint64_t(uint8_t(d[r.pos + i])) << (8 * i);
    vf_assert(x == v, "fixed64 decodes to the value");
    vf_cover("fixed64");
}
static void string_case(size_t n) {
    const uint32_t id = 1 + uint32_t(vf_choice(2, "id")) * 40;
    std::string s(n, 'x');
    if (n && n <= 8) vf_sym(&s[0], n, "bytes");
    if (n > 8) vf_sym(&s[n - 4], 4, "bytes");
    const Bytes b = prefix();
    Bytes d = b;
    pb::string(id, s, d);
    kept(b, d);
    Reader r{d, b.size()};
    r.tag(id, 2);
    vf_assert(r.varint() == n, "the length of the string");
    vf_assert(r.pos + n == d.size(), "the string is appended once");
    for (size_t i = 0; i < n; ++i) vf_assert(d[r.pos + i] == s[i], "the bytes of the string");
    vf_cover("string");
}
VF_HARNESS(pb_string) {
    static const size_t N[] = {0, 1, 2, 5, 127, 128, 300};
    string_case(N[vf_choice(7, "n")]);
}
VF_HARNESS(pb_submessage) {
    // any body size below 2^32, any number of reserved bytes the encoder could be asked for
    const uint32_t id = 1 + uint32_t(vf_choice(2, "id")) * 59;
    const uint64_t n = vf_u64("n");
    vf_assume(n < (1ull << 32));
    const size_t reserved = 1 + vf_choice(4, "reserved");
    const char first = char(vf_u8("first"));
    Bytes d;
    d.push_back(first);
    {
        pb::SubMessage m(id, d, reserved);
        d.insert(d.end(), n, 'b');
    }
    vf_assert(d[0] == first, "earlier data is unchanged");
    Reader r{d, 1};
    r.tag(id, 2);
    vf_assert(r.varint() == n, "the encoded length is the size of the sub-message");
    vf_assert(r.pos + n == d.size(), "the sub-message is exactly what was appended to it");
    const uint64_t k = vf_u64("k");
    vf_assume(k < n);
    vf_assert(d[r.pos + k] == 'b', "the body of the sub-message is unchanged");
    vf_cover("submessage");
}
VF_HARNESS(pb_nested) {
    const uint64_t v = vf_u64("v");
    const uint64_t n = vf_u64("n");
    vf_assume(n < (1ull << 31));
    Bytes d;
    {
        pb::SubMessage a(1, d);
        pb::uint64(3, v, d);
        {
            pb::SubMessage b(12, d);
            d.insert(d.end(), n, 'b');
        }
        pb::uint32(7, 5, d);
    }
    Reader r{d, 0};
    r.tag(1, 2);
    const uint64_t outer = r.varint();
    vf_assert(r.pos + outer == d.size(), "outer length");
    r.tag(3, 0);
    vf_assert(r.varint() == v, "field of the outer message");
    r.tag(12, 2);
    const uint64_t inner = r.varint();
    vf_assert(inner == n, "inner length");
    r.pos += inner;
    vf_assert(r.pos + 2 == d.size(), "what follows the inner message");
    r.tag(7, 0);
    vf_assert(r.varint() == 5, "field after the inner message");
    vf_cover("nested");
}
// ---- interning ----
static int writes;
static Bytes* last;
VF_HARNESS(interner) {
    Bytes out;
    last = &out;
    writes = 0;
    NUClear::extension::trace::StringInterner<uint32_t, 2> in(
        1,
        [](const uint32_t& k) { return std::string(1, char(k)); },
        [](const Bytes& d) { ++writes; *last = d; });
    uint32_t keys[3];
    uint64_t ids[3];
    for (int i = 0; i < 3; ++i) {
        keys[i] = vf_u8("key");
        bool fresh = true;
        for (int j = 0; j < i; ++j) fresh = fresh && keys[j] != keys[i];
        const int before = writes;
        ids[i] = in[keys[i]];
        vf_assert(ids[i] != 0, "an interned id is never zero");
        vf_assert(writes == before + (fresh ? 1 : 0), "a definition is written exactly once, before its first use");
        for (int j = 0; j < i; ++j) vf_assert((ids[j] == ids[i]) == (keys[j] == keys[i]), "ids are equal exactly when the keys are");
        if (fresh) {
            Reader r{out, 0};
            r.tag(1, 2);
            r.varint();
            r.tag(10, 0);
            vf_assert(r.varint() == 1, "sequence id");
            r.tag(12, 2);
            r.varint();
            r.tag(2, 2);
            r.varint();
            r.tag(1, 0);
            vf_assert(r.varint() == ids[i], "the definition carries the id");
            r.tag(2, 2);
            vf_assert(r.varint() == 1, "the definition carries the string");
            vf_assert(out[r.pos] == char(keys[i]), "the definition carries the string");
            vf_assert(r.pos + 1 == out.size(), "the packet ends with the definition");
            vf_cover("fresh key");
        }
        else vf_cover("known key");
    }
}
