/* Stand-in for <ethash/keccak.hpp>: Keccak-256 (original padding). */
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
union ethash_hash256 { uint64_t word64s[4]; uint32_t word32s[8]; uint8_t bytes[32]; char str[32]; };
namespace ethash {
using hash256 = ethash_hash256;
namespace detail {
inline uint64_t rotl(uint64_t v, int n) { return n ? (v << n) | (v >> (64 - n)) : v; }
inline void keccak_f(uint64_t a[25]) {
  uint8_t lfsr = 1;
  for (int round = 0; round < 24; ++round) {
    uint64_t c[5], b[25];
    for (int x = 0; x < 5; ++x) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; ++x) {
      const uint64_t d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
      for (int y = 0; y < 25; y += 5) a[x + y] ^= d;
    }
    int x = 1, y = 0;
    b[0] = a[0];
    for (int t = 0; t < 24; ++t) {
      const int nx = y, ny = (2 * x + 3 * y) % 5;
      b[nx + 5 * ny] = rotl(a[x + 5 * y], (t + 1) * (t + 2) / 2 % 64);
      x = nx; y = ny;
    }
    for (int yy = 0; yy < 25; yy += 5)
      for (int xx = 0; xx < 5; ++xx) a[xx + yy] = b[xx + yy] ^ (~b[(xx + 1) % 5 + yy] & b[(xx + 2) % 5 + yy]);
    for (int j = 0; j < 7; ++j) {
      if (lfsr & 1) a[0] ^= uint64_t{1} << ((1 << j) - 1);
      lfsr = static_cast<uint8_t>((lfsr << 1) ^ ((lfsr & 0x80) ? 0x71 : 0));
    }
  }
}
}  // namespace detail
inline hash256 keccak256(const uint8_t* data, size_t size) noexcept {
  uint64_t a[25] = {};
  auto absorb = [&](const uint8_t* p) {
    for (int i = 0; i < 17; ++i) { uint64_t w; std::memcpy(&w, p + 8 * i, 8); a[i] ^= w; }
    detail::keccak_f(a);
  };
  while (size >= 136) { absorb(data); data += 136; size -= 136; }
  uint8_t last[136] = {};
  if (size) std::memcpy(last, data, size);
  last[size] ^= 0x01;
  last[135] ^= 0x80;
  absorb(last);
  hash256 h;
  std::memcpy(h.bytes, a, 32);
  return h;
}
inline hash256 keccak256(const hash256& in) noexcept { return keccak256(in.bytes, 32); }
}  // namespace ethash
