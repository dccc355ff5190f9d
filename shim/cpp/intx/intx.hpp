/* Stand-in for <intx/intx.hpp>: 256-bit integers, the parts used by evmzero. */
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
namespace intx {
struct uint256;
constexpr uint64_t bswap(uint64_t x) noexcept { return __builtin_bswap64(x); }
constexpr uint32_t bswap(uint32_t x) noexcept { return __builtin_bswap32(x); }
template <typename Q, typename R = Q> struct div_result { Q quot; R rem; };
template <typename T> struct result_with_carry { T value; bool carry; };

struct uint256 {
  uint64_t words_[4];
  constexpr uint256() noexcept : words_{} {}
  constexpr uint256(uint64_t a, uint64_t b, uint64_t c, uint64_t d) noexcept : words_{a, b, c, d} {}
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  constexpr uint256(T v) noexcept : words_{static_cast<uint64_t>(v), 0, 0, 0} {
    if constexpr (std::is_signed_v<T>) {
      if (v < 0) words_[1] = words_[2] = words_[3] = ~uint64_t{0};
    }
  }
  constexpr uint64_t& operator[](size_t i) noexcept { return words_[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return words_[i]; }
  constexpr explicit operator bool() const noexcept { return (words_[0] | words_[1] | words_[2] | words_[3]) != 0; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
  constexpr explicit operator T() const noexcept { return static_cast<T>(words_[0]); }
};
constexpr bool operator==(const uint256& a, const uint256& b) noexcept { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]; }
constexpr bool operator!=(const uint256& a, const uint256& b) noexcept { return !(a == b); }
constexpr bool operator<(const uint256& a, const uint256& b) noexcept {
  for (int i = 3; i > 0; --i) if (a[i] != b[i]) return a[i] < b[i];
  return a[0] < b[0];
}
constexpr bool operator>(const uint256& a, const uint256& b) noexcept { return b < a; }
constexpr bool operator<=(const uint256& a, const uint256& b) noexcept { return !(b < a); }
constexpr bool operator>=(const uint256& a, const uint256& b) noexcept { return !(a < b); }
constexpr bool slt(const uint256& a, const uint256& b) noexcept {
  const bool an = a[3] >> 63, bn = b[3] >> 63;
  return an != bn ? an : a < b;
}
constexpr uint256 operator~(const uint256& a) noexcept { return {~a[0], ~a[1], ~a[2], ~a[3]}; }
constexpr uint256 operator&(const uint256& a, const uint256& b) noexcept { return {a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}; }
constexpr uint256 operator|(const uint256& a, const uint256& b) noexcept { return {a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]}; }
constexpr uint256 operator^(const uint256& a, const uint256& b) noexcept { return {a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]}; }
constexpr result_with_carry<uint256> addc(const uint256& a, const uint256& b, bool carry = false) noexcept {
  uint256 r; unsigned __int128 c = carry;
  for (int i = 0; i < 4; ++i) { c += a[i]; c += b[i]; r[i] = static_cast<uint64_t>(c); c >>= 64; }
  return {r, c != 0};
}
constexpr result_with_carry<uint64_t> addc(uint64_t a, uint64_t b, bool carry = false) noexcept {
  unsigned __int128 c = carry; c += a; c += b;
  return {static_cast<uint64_t>(c), (c >> 64) != 0};
}
constexpr uint256 operator+(const uint256& a, const uint256& b) noexcept { return addc(a, b).value; }
constexpr uint256 operator-(const uint256& a) noexcept { return addc(~a, uint256{1}).value; }
constexpr uint256 operator-(const uint256& a, const uint256& b) noexcept { return addc(a, ~b, true).value; }
constexpr uint256 operator*(const uint256& a, const uint256& b) noexcept {
  uint256 r;
  for (int i = 0; i < 4; ++i) {
    unsigned __int128 c = 0;
    for (int j = 0; i + j < 4; ++j) {
      c += static_cast<unsigned __int128>(a[i]) * b[j] + r[i + j];
      r[i + j] = static_cast<uint64_t>(c);
      c >>= 64;
    }
  }
  return r;
}
constexpr uint256 operator<<(const uint256& a, uint64_t n) noexcept {
  if (n >= 256) return {};
  uint256 r; const int w = static_cast<int>(n / 64), s = static_cast<int>(n % 64);
  for (int i = 3; i >= w; --i) {
    r[i] = a[i - w] << s;
    if (s && i - w - 1 >= 0) r[i] |= a[i - w - 1] >> (64 - s);
  }
  return r;
}
constexpr uint256 operator>>(const uint256& a, uint64_t n) noexcept {
  if (n >= 256) return {};
  uint256 r; const int w = static_cast<int>(n / 64), s = static_cast<int>(n % 64);
  for (int i = 0; i + w < 4; ++i) {
    r[i] = a[i + w] >> s;
    if (s && i + w + 1 < 4) r[i] |= a[i + w + 1] << (64 - s);
  }
  return r;
}
constexpr uint256 operator<<(const uint256& a, const uint256& n) noexcept { return (n[1] | n[2] | n[3]) ? uint256{} : a << n[0]; }
constexpr uint256 operator>>(const uint256& a, const uint256& n) noexcept { return (n[1] | n[2] | n[3]) ? uint256{} : a >> n[0]; }
template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, uint64_t>>>
constexpr uint256 operator<<(const uint256& a, T n) noexcept { return a << static_cast<uint64_t>(n); }
template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, uint64_t>>>
constexpr uint256 operator>>(const uint256& a, T n) noexcept { return a >> static_cast<uint64_t>(n); }
constexpr uint256 sar(const uint256& a, const uint256& n) noexcept {
  const bool neg = a[3] >> 63;
  if (n > uint256{255}) return neg ? ~uint256{} : uint256{};
  return neg ? ~(~a >> n[0]) : a >> n[0];
}
constexpr unsigned bit_length(const uint256& a) noexcept {
  for (int i = 3; i >= 0; --i) if (a[i]) return static_cast<unsigned>(64 * i + 64 - __builtin_clzll(a[i]));
  return 0;
}
constexpr unsigned count_significant_bytes(const uint256& a) noexcept { return (bit_length(a) + 7) / 8; }
constexpr unsigned count_significant_bytes(uint64_t a) noexcept { return count_significant_bytes(uint256{a}); }
namespace detail {
/* Schoolbook binary division of an n-word number by a 256-bit divisor. */
template <int N> constexpr div_result<uint256> divN(const uint64_t (&n)[N], const uint256& d) noexcept {
  uint256 q, r;
  int top = N - 1;
  while (top >= 0 && n[top] == 0) --top;
  for (int i = (top + 1) * 64 - 1; i >= 0; --i) {
    const bool carry = r[3] >> 63;
    r = r << uint64_t{1};
    r[0] |= (n[i / 64] >> (i % 64)) & 1;
    if (carry || r >= d) {
      r = r - d;
      if (i < 256) q[static_cast<size_t>(i / 64)] |= uint64_t{1} << (i % 64);
    }
  }
  return {q, r};
}
}  // namespace detail
constexpr div_result<uint256> udivrem(const uint256& a, const uint256& b) noexcept {
  if (!(a[1] | a[2] | a[3] | b[1] | b[2] | b[3])) return {uint256{a[0] / b[0]}, uint256{a[0] % b[0]}};
  return detail::divN<4>(a.words_, b);
}
constexpr div_result<uint256> sdivrem(const uint256& a, const uint256& b) noexcept {
  const bool an = a[3] >> 63, bn = b[3] >> 63;
  const auto r = udivrem(an ? -a : a, bn ? -b : b);
  return {an != bn ? -r.quot : r.quot, an ? -r.rem : r.rem};
}
constexpr uint256 operator/(const uint256& a, const uint256& b) noexcept { return udivrem(a, b).quot; }
constexpr uint256 operator%(const uint256& a, const uint256& b) noexcept { return udivrem(a, b).rem; }
constexpr uint256 addmod(const uint256& a, const uint256& b, const uint256& m) noexcept {
  const auto s = addc(a, b);
  const uint64_t n[5] = {s.value[0], s.value[1], s.value[2], s.value[3], s.carry};
  return detail::divN<5>(n, m).rem;
}
constexpr uint256 mulmod(const uint256& a, const uint256& b, const uint256& m) noexcept {
  uint64_t n[8] = {};
  for (int i = 0; i < 4; ++i) {
    unsigned __int128 c = 0;
    for (int j = 0; j < 4; ++j) {
      c += static_cast<unsigned __int128>(a[i]) * b[j] + n[i + j];
      n[i + j] = static_cast<uint64_t>(c);
      c >>= 64;
    }
    n[i + 4] = static_cast<uint64_t>(c);
  }
  return detail::divN<8>(n, m).rem;
}
constexpr uint256 exp(uint256 base, uint256 e) noexcept {
  uint256 r{1};
  for (unsigned i = 0, n = bit_length(e); i < n; ++i) {
    if ((e[i / 64] >> (i % 64)) & 1) r = r * base;
    base = base * base;
  }
  return r;
}
#define INTX_SHIM_OP(op) constexpr uint256& operator op##=(uint256& a, const uint256& b) noexcept { return a = a op b; }
INTX_SHIM_OP(+) INTX_SHIM_OP(-) INTX_SHIM_OP(*) INTX_SHIM_OP(/) INTX_SHIM_OP(%) INTX_SHIM_OP(&) INTX_SHIM_OP(|) INTX_SHIM_OP(^)
#undef INTX_SHIM_OP
template <typename T> constexpr uint256& operator<<=(uint256& a, const T& b) noexcept { return a = a << b; }
template <typename T> constexpr uint256& operator>>=(uint256& a, const T& b) noexcept { return a = a >> b; }
constexpr uint256& operator++(uint256& a) noexcept { return a = a + uint256{1}; }
constexpr uint256& operator--(uint256& a) noexcept { return a = a - uint256{1}; }
inline uint8_t* as_bytes(uint256& x) noexcept { return reinterpret_cast<uint8_t*>(x.words_); }
inline const uint8_t* as_bytes(const uint256& x) noexcept { return reinterpret_cast<const uint8_t*>(x.words_); }
constexpr uint256 bswap(const uint256& a) noexcept { return {bswap(a[3]), bswap(a[2]), bswap(a[1]), bswap(a[0])}; }
inline std::string to_string(uint256 x, int base = 10) {
  if (!x) return "0";
  std::string s;
  while (x) {
    const auto r = udivrem(x, uint256{base});
    const auto c = static_cast<int>(r.rem[0]);
    s.push_back(static_cast<char>(c < 10 ? '0' + c : 'a' + c - 10));
    x = r.quot;
  }
  std::reverse(s.begin(), s.end());
  return s;
}
inline std::string hex(const uint256& x) { return to_string(x, 16); }
namespace be {
template <typename IntT, typename T> inline IntT load(const T& t) noexcept {
  static_assert(sizeof(t.bytes) <= 32);
  uint8_t b[32] = {};
  std::memcpy(b + 32 - sizeof(t.bytes), t.bytes, sizeof(t.bytes));
  uint256 r; std::memcpy(r.words_, b, 32);
  return bswap(r);
}
template <typename T> inline T store(const uint256& x) noexcept {
  T r{}; static_assert(sizeof(r.bytes) == 32);
  const auto s = bswap(x); std::memcpy(r.bytes, s.words_, 32); return r;
}
template <typename T> inline T trunc(const uint256& x) noexcept {
  T r{}; const auto s = bswap(x);
  std::memcpy(r.bytes, reinterpret_cast<const uint8_t*>(s.words_) + 32 - sizeof(r.bytes), sizeof(r.bytes));
  return r;
}
}  // namespace be
constexpr uint256 operator""_u256(unsigned long long v) noexcept { return uint256{static_cast<uint64_t>(v)}; }
}  // namespace intx
