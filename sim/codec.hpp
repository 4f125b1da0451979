// Reference encoding and decoding of the scalar types of both formats, written
// from the format definitions and independent of the library's code.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

enum class VT { int8, uint8, int16, uint16, int24, uint24, int32, uint32, int64, uint64, ibm, ieee_single, ieee_double };
inline int vt_size(VT t)
{
    static int const n[] = { 1, 1, 2, 2, 3, 3, 4, 4, 8, 8, 4, 4, 8 };
    return n[static_cast<int>(t)];
}
inline bool vt_float(VT t) { return t >= VT::ibm; }

// n-byte unsigned integer at p
inline void put_uint(char* p, uint64_t v, int n, bool le)
{
    for (int i = 0; i < n; ++i) p[le ? i : n - 1 - i] = static_cast<char>(v >> (8 * i));
}
inline uint64_t get_uint(char const* p, int n, bool le)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v |= static_cast<uint64_t>(static_cast<uint8_t>(p[le ? i : n - 1 - i])) << (8 * i);
    return v;
}
inline int64_t sext(uint64_t v, int n)
{
    if (n < 8 && (v >> (8 * n - 1) & 1)) v |= ~uint64_t(0) << (8 * n);
    return static_cast<int64_t>(v);
}
inline void app_uint(std::string& s, uint64_t v, int n, bool le = false)
{
    char b[8];
    put_uint(b, v, n, le);
    s.append(b, n);
}
inline double ibm_value(uint32_t u)
{
    double m = std::ldexp(static_cast<double>(u & 0xffffff), -24 + 4 * (static_cast<int>(u >> 24 & 0x7f) - 64));
    return u >> 31 ? -m : m;
}
inline float f32(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline double f64(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
inline uint32_t u32(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t u64(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
// value of an encoded scalar; integers are exact in `i`
struct Scalar { bool is_double = false; int64_t i = 0; double d = 0; };
inline Scalar vt_decode(char const* p, VT t, bool le)
{
    Scalar r;
    int n = vt_size(t);
    uint64_t u = get_uint(p, n, le);
    switch (t) {
    case VT::int8: case VT::int16: case VT::int24: case VT::int32: case VT::int64: r.i = sext(u, n); break;
    case VT::uint8: case VT::uint16: case VT::uint24: case VT::uint32: case VT::uint64: r.i = static_cast<int64_t>(u); break;
    case VT::ibm: r.is_double = true; r.d = ibm_value(static_cast<uint32_t>(u)); break;
    case VT::ieee_single: r.is_double = true; r.d = f32(static_cast<uint32_t>(u)); break;
    case VT::ieee_double: r.is_double = true; r.d = f64(u); break;
    }
    return r;
}
inline bool same_double(double a, double b)
{
    // bitwise, except that every NaN equals every NaN
    return (a != a && b != b) || u64(a) == u64(b) || (a == 0 && b == 0);
}
// exact value of a sample as an IBM number if it is one: nearest lower magnitude
inline bool ibm_close(double want, uint32_t got)
{
    double v = ibm_value(got);
    if (want == 0) return v == 0;
    int e;
    std::frexp(std::fabs(want), &e); // want = m * 2^e, 0.5 <= m < 1
    int e16 = (e + 3) >> 2;          // smallest 16^e16 > |want|
    double ulp = std::ldexp(1.0, 4 * e16 - 24);
    double q = want / ulp;
    if (q == std::trunc(q)) return v == want; // exactly representable
    return std::fabs(v - want) < ulp;
}
