// Reference model: straight transcriptions of the specifications on bit strings, written to be obviously right.
#pragma once
#include <cstdint>
#include <utility>
#include <cstring>
#include <vector>
#include <string>
#include <map>
#include <algorithm>
#include <cstdlib>
#include <cstdio>

namespace ref {
typedef std::vector<uint8_t> Bytes;
typedef uint64_t u64;
typedef uint32_t u32;

inline u64 rol64(u64 x, unsigned n) { n &= 63; return n ? (x << n) | (x >> (64 - n)) : x; }
inline u32 rol32(u32 x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }

// ---------------------------------------------------------------------------------------------------- Keccak-p[1600]
struct KeccakTables {
    u64 rc[24] = {}; unsigned rho[25] = {};
    constexpr KeccakTables()
    {
        uint8_t lfsr = 1;
        for (int i = 0; i < 24; i++) {
            rc[i] = 0;
            for (int j = 0; j < 7; j++) {
                if (lfsr & 1) rc[i] ^= (u64)1 << ((1 << j) - 1);
                lfsr = (lfsr & 0x80) ? (uint8_t)((lfsr << 1) ^ 0x71) : (uint8_t)(lfsr << 1);
            }
        }
        int x = 1, y = 0;
        rho[0] = 0;
        for (int t = 0; t < 24; t++) {
            rho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
            int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny;
        }
    }
};
inline constexpr KeccakTables kt;

/// rho and pi of the lane (X, Y), with everything known at compile time
template <int I> inline __attribute__((always_inline)) void rho_pi(const u64 *A, u64 *B)
{ constexpr int x = I % 5, y = I / 5; constexpr unsigned r = kt.rho[I]; B[y + 5 * ((2 * x + 3 * y) % 5)] = r ? (A[I] << r) | (A[I] >> ((64 - r) % 64)) : A[I]; }
template <int... I> inline __attribute__((always_inline)) void rho_pi_all(const u64 *A, u64 *B, std::integer_sequence<int, I...>) { (rho_pi<I>(A, B), ...); }

inline void keccakp_lanes(u64 *S, int nr)
{
    u64 A[25]; for (int i = 0; i < 25; i++) A[i] = S[i];
    for (int ir = 24 - nr; ir < 24; ir++) {
        u64 C[5], D[5], B[25];
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
#pragma GCC unroll 5
        for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ (C[(x + 1) % 5] << 1 | C[(x + 1) % 5] >> 63);
#pragma GCC unroll 25
        for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
        rho_pi_all(A, B, std::make_integer_sequence<int, 25>());
#pragma GCC unroll 25
        for (int i = 0; i < 25; i++) A[i] = B[i] ^ (~B[(i % 5 + 1) % 5 + i / 5 * 5] & B[(i % 5 + 2) % 5 + i / 5 * 5]);
        A[0] ^= kt.rc[ir];
    }
    for (int i = 0; i < 25; i++) S[i] = A[i];
}
inline void keccakp(uint8_t *s, int nr)
{
    u64 A[25];
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
    memcpy(A, s, 200); keccakp_lanes(A, nr); memcpy(s, A, 200);
#else
    for (int i = 0; i < 25; i++) { A[i] = 0; for (int j = 0; j < 8; j++) A[i] |= (u64)s[8 * i + j] << (8 * j); }
    keccakp_lanes(A, nr);
    for (int i = 0; i < 25; i++) for (int j = 0; j < 8; j++) s[8 * i + j] = (uint8_t)(A[i] >> (8 * j));
#endif
}

// ---------------------------------------------------------------------------------------------------- Xoodoo
inline void xoodoo(uint8_t *s, int nr)
{
    static const u32 rc[12] = {0x58, 0x38, 0x3C0, 0xD0, 0x120, 0x14, 0x60, 0x2C, 0x380, 0xF0, 0x1A0, 0x12};
    u32 a[3][4];
    for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) { a[y][x] = 0; for (int j = 0; j < 4; j++) a[y][x] |= (u32)s[4 * (4 * y + x) + j] << (8 * j); }
    for (int i = 12 - nr; i < 12; i++) {
        u32 p[4], e[4], b[3][4];
        for (int x = 0; x < 4; x++) p[x] = a[0][x] ^ a[1][x] ^ a[2][x];
        for (int x = 0; x < 4; x++) e[x] = rol32(p[(x + 3) % 4], 5) ^ rol32(p[(x + 3) % 4], 14);
        for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) a[y][x] ^= e[x];
        for (int x = 0; x < 4; x++) { b[0][x] = a[0][x]; b[1][x] = a[1][(x + 3) % 4]; b[2][x] = rol32(a[2][x], 11); }
        b[0][0] ^= rc[i];
        for (int x = 0; x < 4; x++) {
            a[0][x] = b[0][x] ^ (~b[1][x] & b[2][x]);
            a[1][x] = b[1][x] ^ (~b[2][x] & b[0][x]);
            a[2][x] = b[2][x] ^ (~b[0][x] & b[1][x]);
        }
        for (int x = 0; x < 4; x++) { b[1][x] = rol32(a[1][x], 1); b[2][x] = rol32(a[2][(x + 2) % 4], 8); }
        for (int x = 0; x < 4; x++) { a[1][x] = b[1][x]; a[2][x] = b[2][x]; }
    }
    for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) for (int j = 0; j < 4; j++) s[4 * (4 * y + x) + j] = (uint8_t)(a[y][x] >> (8 * j));
}

// ---------------------------------------------------------------------------------------------------- bit strings
/// Bit i is bit (i mod 8) of byte i/8; bits beyond n in the last byte are zero.
struct Bits {
    Bytes b; size_t n = 0;
    Bits() {}
    Bits(const uint8_t *p, size_t bits) { append(p, bits); }
    explicit Bits(const Bytes &v) : b(v), n(8 * v.size()) {}
    void bit(int v) { if (n % 8 == 0) b.push_back(0); if (v) b[n / 8] |= (uint8_t)(1 << (n % 8)); n++; }
    int get(size_t i) const { return (b[i / 8] >> (i % 8)) & 1; }
    void append(const uint8_t *p, size_t bits)
    {
        if (n % 8 == 0) {
            b.insert(b.end(), p, p + (bits + 7) / 8); n += bits;
            if (bits % 8) b.back() &= (uint8_t)((1 << (bits % 8)) - 1);
        } else for (size_t i = 0; i < bits; i++) bit((p[i / 8] >> (i % 8)) & 1);
    }
    void append(const Bits &o) { append(o.b.data(), o.n); }
    void append(const Bytes &o) { append(o.data(), 8 * o.size()); }
    void byte(uint8_t v) { append(&v, 8); }
    Bits sub(size_t from, size_t len) const { Bits r; for (size_t i = 0; i < len; i++) r.bit(get(from + i)); return r; }
    bool operator==(const Bits &o) const { return n == o.n && b == o.b; }
};

// ---------------------------------------------------------------------------------------------------- sponge
/// Keccak[r, 1600-r] with nr rounds: absorbs whole padded strings, then squeezes on demand.  Rate in bytes.
struct Sponge {
    uint8_t s[200]; size_t rate; int nr; size_t pos; bool sq = false;
    explicit Sponge(size_t rateBytes = 136, int rounds = 24) : rate(rateBytes), nr(rounds), pos(0) { memset(s, 0, 200); }
    void absorb(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { s[pos++] ^= p[i]; if (pos == rate) { keccakp(s, nr); pos = 0; } } }
    void finish(uint8_t delim)
    {   // trailing bits, delimited by the first padding bit, then the last padding bit
        s[pos] ^= delim;
        if (delim >= 0x80 && pos == rate - 1) keccakp(s, nr);
        s[rate - 1] ^= 0x80;
        keccakp(s, nr); pos = 0; sq = true;
    }
    void squeeze(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { if (pos == rate) { keccakp(s, nr); pos = 0; } p[i] = s[pos++]; } }
    Bytes squeeze(size_t n) { Bytes o(n); squeeze(o.data(), n); return o; }
};
inline Bytes sponge(size_t rateBytes, int nr, const Bytes &m, uint8_t delim, size_t out)
{ Sponge s(rateBytes, nr); s.absorb(m.data(), m.size()); s.finish(delim); return s.squeeze(out); }

/// Sponge on a bit string with pad10*1 applied bit by bit.
inline Sponge sponge_bits(size_t rateBytes, int nr, const Bits &m)
{
    Bits p = m; p.bit(1);
    while (p.n % (8 * rateBytes) != 8 * rateBytes - 1) p.bit(0);
    p.bit(1);
    Sponge s(rateBytes, nr); s.absorb(p.b.data(), p.b.size()); s.pos = 0; s.sq = true; return s;
}
/// FIPS 202: message bits followed by the domain bits given as delimited suffix.
inline Bits with_suffix(Bits m, uint8_t delim) { int top = 7; while (!((delim >> top) & 1)) top--; for (int i = 0; i < top; i++) m.bit((delim >> i) & 1); return m; }

// ---------------------------------------------------------------------------------------------------- KangarooTwelve
inline Bytes k12_right_encode(u64 v) { Bytes e; u64 t = v; while (t) { e.insert(e.begin(), (uint8_t)t); t >>= 8; } e.push_back((uint8_t)e.size()); return e; }

/// KangarooTwelve of prefixes of one message; chaining values of whole leaves are remembered.
struct K12 {
    int level; size_t rate, cvlen; const Bytes &m; std::vector<Bytes> cvs; std::vector<Sponge> upto;
    K12(int lvl, const Bytes &msg) : level(lvl), rate((1600 - 2 * lvl) / 8), cvlen(2 * lvl / 8), m(msg) {}
    Bytes leaf(const uint8_t *p, size_t n) const { Sponge s(rate, 12); s.absorb(p, n); s.finish(0x0B); return s.squeeze(cvlen); }
    Sponge operator()(size_t n, const Bytes &custom)
    {
        Bytes tail; size_t whole = 0;    // whole leaves of the message come from the cache; everything else is in tail
        const size_t B = 8192;
        whole = n / B; if (whole == 0) whole = 0;
        Bytes enc = k12_right_encode(custom.size());
        size_t total = n + custom.size() + enc.size();
        auto at_end = [&](size_t from) { Bytes t(m.begin() + from, m.begin() + n); t.insert(t.end(), custom.begin(), custom.end()); t.insert(t.end(), enc.begin(), enc.end()); return t; };
        if (total <= B) { Bytes t = at_end(0); Sponge s(rate, 12); s.absorb(t.data(), t.size()); s.finish(0x07); return s; }
        Sponge s(rate, 12);
        if (whole >= 1) {
            while (upto.size() < whole) {   // state of the final node after that many message chunks
                size_t i = upto.size();
                Sponge f(rate, 12);
                if (i == 0) { f.absorb(m.data(), B); Bytes z = {3, 0, 0, 0, 0, 0, 0, 0}; f.absorb(z.data(), 8); }
                else { f = upto[i - 1]; Bytes c = leaf(m.data() + i * B, B); f.absorb(c.data(), cvlen); }
                upto.push_back(f);
            }
            s = upto[whole - 1];
            tail = at_end(whole * B);
        } else {
            tail = at_end(0);
            s.absorb(tail.data(), B); Bytes z = {3, 0, 0, 0, 0, 0, 0, 0}; s.absorb(z.data(), 8);
            tail.erase(tail.begin(), tail.begin() + B); whole = 1;
        }
        size_t count = whole - 1;
        for (size_t o = 0; o < tail.size(); o += B) { Bytes c = leaf(tail.data() + o, std::min(B, tail.size() - o)); s.absorb(c.data(), cvlen); count++; }
        Bytes e = k12_right_encode(count); e.push_back(0xFF); e.push_back(0xFF);
        s.absorb(e.data(), e.size()); s.finish(0x06);
        return s;
    }
};

// ---------------------------------------------------------------------------------------------------- SP 800-185
struct SP185 {
    int level; size_t rate;
    explicit SP185(int l) : level(l), rate((1600 - 2 * l) / 8) {}
    static Bits left_encode(u64 v) { Bytes e; do { e.insert(e.begin(), (uint8_t)v); v >>= 8; } while (v); e.insert(e.begin(), (uint8_t)e.size()); return Bits(e); }
    static Bits right_encode(u64 v) { Bytes e; do { e.insert(e.begin(), (uint8_t)v); v >>= 8; } while (v); e.push_back((uint8_t)e.size()); return Bits(e); }
    static Bits encode_string(const Bits &s) { Bits r = left_encode(s.n); r.append(s); return r; }
    Bits bytepad(const Bits &x) const { Bits r = left_encode(rate); r.append(x); while (r.n % 8) r.bit(0); while ((r.n / 8) % rate) r.byte(0); return r; }
    Sponge cshake(const Bits &x, const Bits &name, const Bits &custom) const
    {
        if (name.n == 0 && custom.n == 0) { Bits b = x; for (int i = 0; i < 4; i++) b.bit(1); return sponge_bits(rate, 24, b); }
        Bits e = encode_string(name); e.append(encode_string(custom));
        Bits b = bytepad(e); b.append(x); b.bit(0); b.bit(0);
        return sponge_bits(rate, 24, b);
    }
    static Bits ascii(const char *s) { return Bits((const uint8_t *)s, 8 * strlen(s)); }
    /// outbits 0: arbitrary-length output
    Sponge kmac(const Bits &key, const Bits &x, const Bits &custom, u64 outbits) const
    { Bits b = bytepad(encode_string(key)); b.append(x); b.append(right_encode(outbits)); return cshake(b, ascii("KMAC"), custom); }
    Sponge parallel(const Bytes &x, size_t block, const Bits &custom, u64 outbits) const
    {
        Bits b = left_encode(block); size_t n = 0;
        for (size_t o = 0; o < x.size(); o += block, n++) {
            size_t k = std::min(block, x.size() - o);
            b.append(sponge(rate, 24, Bytes(x.begin() + o, x.begin() + o + k), 0x1F, 2 * level / 8));
        }
        b.append(right_encode(n)); b.append(right_encode(outbits));
        return cshake(b, ascii("ParallelHash"), custom);
    }
    Sponge tuple(const std::vector<Bytes> &x, const Bits &custom, u64 outbits) const
    { Bits b; for (auto &e : x) b.append(encode_string(Bits(e))); b.append(right_encode(outbits)); return cshake(b, ascii("TupleHash"), custom); }
};
/// n bits of output, unused bits of the last byte zero
inline Bytes squeeze_bits(Sponge s, size_t bits) { Bytes o = s.squeeze((bits + 7) / 8); if (bits % 8) o.back() &= (uint8_t)((1 << bits % 8) - 1); return o; }
} // namespace ref
