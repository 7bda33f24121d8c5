// Serialisation, file descriptor ownership, per type registries, log levels
#include <cerrno>
#include <list>
#include <string>
#include "plant.hpp"
#include "message/LogMessage.hpp"
#include "util/FileDescriptor.hpp"
#include "util/serialise/Serialise.hpp"
#include "util/serialise/xxhash.hpp"
// ---- serialisation ---------------------------------------------------------------------------------------------------
using util::serialise::Serialise;
struct Plain { uint32_t a; uint16_t b; uint8_t c[2]; uint64_t d; };
enum class Colour : uint16_t { RED };
template <typename T> static void plain(T (*mk)()) {
    const T x = mk();
    const std::vector<uint8_t> bytes = Serialise<T>::serialise(x);
    vf_assert(bytes.size() == sizeof(T), "as many bytes as the value has");
    for (size_t i = 0; i < sizeof(T); ++i) vf_assert(bytes[i] == reinterpret_cast<const uint8_t*>(&x)[i], "the bytes of the value");
    const T y = Serialise<T>::deserialise(bytes);
    bool same = true;
    for (size_t i = 0; i < sizeof(T); ++i) same &= reinterpret_cast<const uint8_t*>(&y)[i] == reinterpret_cast<const uint8_t*>(&x)[i];
    vf_assert(same, "reading back gives the value written");
    // a message of any other length is refused
    const uint64_t n = vf_choice(sizeof(T) * 2 + 2, "length");
    bool refused = false;
    try { (void) Serialise<T>::deserialise(std::vector<uint8_t>(n)); } catch (const std::length_error&) { refused = true; }
    vf_assert(refused == (n != sizeof(T)), "a message of another length is refused");
    vf_cover("plain");
}
VF_HARNESS(ser_plain) {
    switch (vf_choice(4, "type")) {
        case 0: plain<Plain>([] { Plain p; vf_sym(&p, sizeof p, "value"); return p; }); break;
        case 1: plain<uint8_t>([] { return vf_u8("value"); }); break;
        case 2: plain<uint64_t>([] { return vf_u64("value"); }); break;
        case 3: plain<Colour>([] { return Colour(vf_u16("value")); }); break;
    }
}
template <typename C, typename V> static void container() {
    C x;
    const uint64_t n = vf_choice(5, "items");
    for (uint64_t i = 0; i < n; ++i) { V v; vf_sym(&v, sizeof v, "item"); x.push_back(v); }
    const std::vector<uint8_t> bytes = Serialise<C>::serialise(x);
    vf_assert(bytes.size() == n * sizeof(V), "as many bytes as the items have");
    size_t k = 0;
    for (const V& v : x) for (size_t i = 0; i < sizeof(V); ++i) vf_assert(bytes[k++] == reinterpret_cast<const uint8_t*>(&v)[i], "the items in order");
    const C y = Serialise<C>::deserialise(bytes);
    vf_assert(y.size() == n, "as many items are read back");
    auto it = y.begin();
    for (const V& v : x) {
        bool same = true;
        for (size_t i = 0; i < sizeof(V); ++i) same &= reinterpret_cast<const uint8_t*>(&v)[i] == reinterpret_cast<const uint8_t*>(&*it)[i];
        vf_assert(same, "the items are read back");
        ++it;
    }
    const uint64_t m = vf_choice(3 * sizeof(V) + 1, "length");
    bool refused = false;
    try { const C z = Serialise<C>::deserialise(std::vector<uint8_t>(m)); vf_assert(z.size() == m / sizeof(V), "whole items"); }
    catch (const std::length_error&) { refused = true; }
    vf_assert(refused == (m % sizeof(V) != 0), "a message which is not a whole number of items is refused");
    vf_cover("container");
}
VF_HARNESS(ser_vector) { container<std::vector<uint32_t>, uint32_t>(); }
VF_HARNESS(ser_structs) { container<std::vector<Plain>, Plain>(); }
VF_HARNESS(ser_list) { container<std::list<uint16_t>, uint16_t>(); }
VF_HARNESS(ser_string) { container<std::string, char>(); }
VF_HARNESS(ser_hash) {
    // a type is identified by the hash of its name alone, whatever has been hashed before
    const uint64_t a = Serialise<Plain>::hash(), b = Serialise<std::vector<Plain>>::hash(), c = Serialise<Colour>::hash();
    vf_assert(a == Serialise<Plain>::hash() && b == Serialise<std::vector<Plain>>::hash() && c == Serialise<Colour>::hash(), "the same in every process");
    const std::string n1 = util::demangle(typeid(Plain).name()), n2 = util::demangle(typeid(std::vector<Plain>).name());
    vf_assert(a == util::serialise::xxhash64(n1.data(), n1.size(), 0x4e55436c) && b == util::serialise::xxhash64(n2.data(), n2.size(), 0x4e55436c), "the hash of the name with the seed of the protocol");
    vf_cover("hash");
}
// ---- file descriptors ------------------------------------------------------------------------------------------------
static unsigned closed[8], cleaned[8];
static bool order_ok;
extern "C" int fcntl(int fd, int, ...) { if (fd < 900 || closed[fd - 900]) { errno = EBADF; return -1; } return 0; }
extern "C" int close(int fd) { if (fd >= 900 && fd < 908) { ++closed[fd - 900]; } return 0; }
VF_HARNESS(file_descriptor) {
    using util::FileDescriptor;
    order_ok = true;
    for (int i = 0; i < 8; ++i) closed[i] = cleaned[i] = 0;
    bool owned[3] = {true, true, false};      // 900 with a clean up, 901 without, 902 is an empty one's
    unsigned released = 0;
    bool had[2] = {true, true};
    {
        auto cleanup = [](fd_t fd) { ++cleaned[fd - 900]; order_ok = order_ok && closed[fd - 900] == 0; };
        FileDescriptor d[3] = {FileDescriptor(900, cleanup), FileDescriptor(901), FileDescriptor()};
        int at[3] = {0, 1, -1};   // which resource each holds
        for (int step = 0; step < 3; ++step) {
            const uint64_t i = vf_choice(3, "from"), j = vf_choice(3, "to");
            switch (vf_choice(4, "operation")) {
                case 0: {   // move assignment
                    d[j] = std::move(d[i]);
                    if (i != j) { at[j] = at[i]; at[i] = -1; }
                    break;
                }
                case 1: d[i].close(); at[i] = -1; break;
                case 2: { FileDescriptor t(std::move(d[i])); d[j] = std::move(t); const int a = at[i]; at[i] = -1; at[j] = a; break; }
                case 3: {
                    const fd_t f = d[i].release();
                    vf_assert(f == (at[i] < 0 ? INVALID_SOCKET : 900 + at[i]), "release gives up the descriptor");
                    if (at[i] >= 0) { vf_assert(closed[at[i]] == 0, "not closed"); released |= 1u << at[i]; }
                    at[i] = -1;
                    break;
                }
            }
            for (int k = 0; k < 3; ++k) {
                vf_assert(d[k].valid() == (at[k] >= 0), "valid while it owns a descriptor");
                vf_assert(d[k].get() == (at[k] < 0 ? INVALID_SOCKET : 900 + at[k]), "it gives the descriptor it owns");
            }
            for (int r = 0; r < 2; ++r) {
                bool held = false;
                for (int k = 0; k < 3; ++k) held |= at[k] == r;
                const bool rel = (released >> r) & 1;
                vf_assert(closed[r] == (held || rel ? 0u : 1u), "closed exactly when the owner lets go of it");
            }
        }
    }
    for (int r = 0; r < 2; ++r) vf_assert(closed[r] == ((released >> r) & 1 ? 0u : 1u), "every descriptor is closed exactly once, a released one never");
    vf_assert(cleaned[0] == closed[0], "the clean up runs once for each close");
    vf_assert(cleaned[1] == 0, "no clean up of another descriptor");
    vf_assert(order_ok, "the clean up runs before the descriptor is closed");
    vf_assert(closed[2] == 0, "only owned descriptors are closed");
    vf_cover("descriptors");
    (void) owned; (void) had;
}
// ---- log levels ------------------------------------------------------------------------------------------------------
struct Say { int via; };
VF_HARNESS(log_filter) {
    const uint8_t lv = vf_u8("level"), show = vf_u8("display level"), min = vf_u8("minimum level");
    vf_assume(lv <= 6 && show <= 6 && min <= 6);
    const uint64_t via = vf_choice(4, "how it is logged");
    unsigned got = 0;
    program([&](Body& r) {
        r.log_level = LogLevel::Value(show);
        r.min_log_level = LogLevel::Value(min);
        r.on<Trigger<message::LogMessage>, MainThread>().then([&](const message::LogMessage& m) {
            ++got;
            vf_assert(m.level() == lv, "the level of the message");
            vf_assert(via == 3 || m.display_level() == show, "the level the reactor displays");
        });
        r.on<Trigger<Say>, MainThread>().then([&] {
            const LogLevel at{LogLevel::Value(lv)};
            switch (via) {
                case 0: r.powerplant.log(at); break;
                case 1: r.powerplant.log(&r, at); break;
                case 2: NUClear::log(at); break;
                case 3: break;
            }
        });
        r.on<Startup, MainThread>().then([&] {
            r.emit(mk<Say>(0));
            r.powerplant.shutdown();
        });
        if (via == 3) r.powerplant.log(LogLevel(LogLevel::Value(lv)));   // outside of any reaction
    });
    vf_assert(got == (via == 3 || lv >= show || lv >= min ? 1u : 0u), "a message is published exactly when its level reaches one of the thresholds of its reactor");
    vf_cover("log");
}
VF_HARNESS(log_levels) {
    const LogLevel::Value all[7] = {LogLevel::UNKNOWN, LogLevel::TRACE, LogLevel::DEBUG, LogLevel::INFO, LogLevel::WARN, LogLevel::ERROR, LogLevel::FATAL};
    for (unsigned i = 0; i < 7; ++i) {
        const LogLevel a(all[i]);
        vf_assert(LogLevel(std::string(a)) == a, "the name of a level names it");
        for (unsigned j = 0; j < 7; ++j) {
            const LogLevel b(all[j]);
            vf_assert((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j) && (a == b) == (i == j) && (a != b) == (i != j), "levels are ordered by severity");
            vf_assert((a < all[j]) == (i < j) && (all[i] < b) == (i < j) && (a >= all[j]) == (i >= j) && (all[i] >= b) == (i >= j), "levels are ordered by severity");
            vf_assert((std::string(a) == std::string(b)) == (i == j), "different levels have different names");
        }
    }
    vf_cover("levels");
}
