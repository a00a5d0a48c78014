// Element types the container harnesses are instantiated with; 0 is the zero-filled default.
#pragma once
#include "common.hpp"
#include <fu/vec.h>
#include <fu/str.h>

struct P3  { uint8_t b[3]; };
struct P6  { uint16_t b[3]; };
struct P12 { uint32_t b[3]; };
struct P16 { uint64_t b[2]; };
struct P24 { uint64_t b[3]; };
struct alignas(16) A16 { uint64_t a, b; };

#define E_NUM(NAME, TYPE, MASK) \
    struct NAME { typedef TYPE T; static constexpr bool COPY = true, MANAGED = false; \
        static const char* name() { return #NAME; } \
        static uint64_t mask(uint64_t v) { return v & MASK; } \
        static T make(uint64_t v) { return (T) v; } \
        static bool eq(const T& t, uint64_t v) { return t == (T) v; } };

E_NUM(e_char, char, 0xff)
E_NUM(e_u8, unsigned char, 0xff)
E_NUM(e_short, short, 0x7fff)
E_NUM(e_int, int, 0x7fffffff)
E_NUM(e_long, uint64_t, 0xffffffffffffull)
E_NUM(e_bool, bool, 1)
struct e_double { typedef double T; static constexpr bool COPY = true, MANAGED = false; static const char* name() { return "e_double"; }
    static uint64_t mask(uint64_t v) { return v & 0xfffff; } static T make(uint64_t v) { return (double) v; }
    static bool eq(const T& t, uint64_t v) { return t == (double) v; } };

#define E_POD(NAME, TYPE, FIELD, N) \
    struct NAME { typedef TYPE T; static constexpr bool COPY = true, MANAGED = false; \
        static const char* name() { return #NAME; } \
        static uint64_t mask(uint64_t v) { return v & 0x7fff; } \
        static T make(uint64_t v) { T t; typedef std::remove_reference_t<decltype(t.FIELD[0])> F; \
            for (int i = 0; i < N; i++) t.FIELD[i] = (F)(v * (unsigned)(i + 1) + (v ? (unsigned) i : 0)); return t; } \
        static bool eq(const T& t, uint64_t v) { T u = make(v); return !memcmp(&t, &u, sizeof(T)); } };
E_POD(e_p3, P3, b, 3)
E_POD(e_p6, P6, b, 3)
E_POD(e_p12, P12, b, 3)
E_POD(e_p16, P16, b, 2)
E_POD(e_p24, P24, b, 3)
struct e_a16 { typedef A16 T; static constexpr bool COPY = true, MANAGED = false; static const char* name() { return "e_a16"; }
    static uint64_t mask(uint64_t v) { return v & 0xffffff; } static T make(uint64_t v) { return A16 { v, v * 3 }; }
    static bool eq(const T& t, uint64_t v) { return t.a == v && t.b == v * 3; } };

struct e_track { typedef Tracked<true> T; static constexpr bool COPY = true, MANAGED = true; static const char* name() { return "e_track"; }
    static uint64_t mask(uint64_t v) { return v & 0x7fffffff; }
    static T make(uint64_t v) { return v ? T((uint32_t) v) : T(); }
    static bool eq(const T& t, uint64_t v) { return t.v == (uint32_t) v && (v ? t.token && t.token[0] == (int) v && t.token[1] == 0x600d && t.chk == ~t.v : !t.token); } };
struct e_uniq { typedef Tracked<false> T; static constexpr bool COPY = false, MANAGED = true; static const char* name() { return "e_uniq"; }
    static uint64_t mask(uint64_t v) { return v & 0x7fffffff; }
    static T make(uint64_t v) { return v ? T((uint32_t) v) : T(); }
    static bool eq(const T& t, uint64_t v) { return t.v == (uint32_t) v && (v ? t.token && t.token[0] == (int) v && t.token[1] == 0x600d && t.chk == ~t.v : !t.token); } };

inline std::string str_of(uint64_t v) {
    if (!v) return "";
    std::string s = std::to_string(v);
    if (v % 3 == 0) while (s.size() < 20 + v % 23) s += (char)('a' + (s.size() + v) % 26);
    return s;
}
struct e_str { typedef fu::str T; static constexpr bool COPY = true, MANAGED = true; static const char* name() { return "e_str"; }
    static uint64_t mask(uint64_t v) { return v & 0xffffff; }
    static T make(uint64_t v) { std::string s = str_of(v); T t; t.append_copy(fu_ZERO(), s.data(), (int) s.size()); return t; }
    static bool eq(const T& t, uint64_t v) { std::string s = str_of(v); return (size_t) t.size() == s.size() && (s.empty() || !memcmp(t.data(), s.data(), s.size())); } };
struct e_vecs { typedef fu::vec<fu::str> T; static constexpr bool COPY = true, MANAGED = true; static const char* name() { return "e_vecs"; }
    static uint64_t mask(uint64_t v) { return v & 0xffffff; }
    static T make(uint64_t v) { T t; for (uint64_t i = 0; i < v % 5; i++) t.push(e_str::make(v + i)); return t; }
    static bool eq(const T& t, uint64_t v) { if ((uint64_t) t.size() != v % 5) return false; for (int i = 0; i < t.size(); i++) if (!e_str::eq(t[i], v + (uint64_t) i)) return false; return true; } };
// a struct of mixed members, as compiled programs have
struct Mix { int a; fu::str s; fu::vec<int> n; };
struct e_mix { typedef Mix T; static constexpr bool COPY = true, MANAGED = true; static const char* name() { return "e_mix"; }
    static uint64_t mask(uint64_t v) { return v & 0xffffff; }
    static T make(uint64_t v) { T t {}; t.a = (int) v; t.s = e_str::make(v); if (v) for (uint64_t i = 0; i < v % 41; i++) t.n.push((int)(v + i)); return t; }
    static bool eq(const T& t, uint64_t v) { if (t.a != (int) v || !e_str::eq(t.s, v) || (uint64_t) t.n.size() != (v ? v % 41 : 0)) return false;
        for (int i = 0; i < t.n.size(); i++) if (t.n[i] != (int)(v + (uint64_t) i)) return false; return true; } };
