/* Stand-in for <evmc/evmc.hpp>: the parts used by evmzero. */
#pragma once
#include <evmc/evmc.h>
#include <evmc/utils.h>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string_view>
namespace evmc {
using bytes_view = std::basic_string_view<uint8_t>;
struct address : evmc_address {
  constexpr address(evmc_address init = {}) noexcept : evmc_address{init} {}
  constexpr explicit address(uint64_t v) noexcept : evmc_address{} {
    for (int i = 0; i < 8; ++i) bytes[19 - i] = static_cast<uint8_t>(v >> (8 * i));
  }
  constexpr explicit operator bool() const noexcept { for (auto b : bytes) if (b) return true; return false; }
};
struct bytes32 : evmc_bytes32 {
  constexpr bytes32(evmc_bytes32 init = {}) noexcept : evmc_bytes32{init} {}
  constexpr explicit bytes32(uint64_t v) noexcept : evmc_bytes32{} {
    for (int i = 0; i < 8; ++i) bytes[31 - i] = static_cast<uint8_t>(v >> (8 * i));
  }
  constexpr explicit operator bool() const noexcept { for (auto b : bytes) if (b) return true; return false; }
};
using uint256be = bytes32;
inline bool operator==(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) == 0; }
inline bool operator!=(const address& a, const address& b) noexcept { return !(a == b); }
inline bool operator<(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) < 0; }
inline bool operator==(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) == 0; }
inline bool operator!=(const bytes32& a, const bytes32& b) noexcept { return !(a == b); }
inline bool operator<(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) < 0; }
inline bool is_zero(const bytes32& a) noexcept { return !static_cast<bool>(a); }
inline bool is_zero(const address& a) noexcept { return !static_cast<bool>(a); }

class Result : private evmc_result {
 public:
  using evmc_result::create_address;
  using evmc_result::gas_left;
  using evmc_result::gas_refund;
  using evmc_result::output_data;
  using evmc_result::output_size;
  using evmc_result::status_code;
  explicit Result(evmc_status_code sc = EVMC_INTERNAL_ERROR, int64_t gas = 0, int64_t refund = 0) noexcept : evmc_result{} {
    status_code = sc; gas_left = gas; gas_refund = refund;
  }
  explicit Result(const evmc_result& r) noexcept : evmc_result{r} {}
  ~Result() noexcept { if (release != nullptr) release(this); }
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  Result& operator=(Result&& o) noexcept {
    if (this != &o) {
      if (release) release(this);
      static_cast<evmc_result&>(*this) = o;
      o.release = nullptr;
    }
    return *this;
  }
  Result(const Result&) = delete;
  Result& operator=(const Result&) = delete;
  evmc_result release_raw() noexcept { auto r = evmc_result{*this}; this->release = nullptr; return r; }
};

class HostInterface {
 public:
  virtual ~HostInterface() noexcept = default;
  virtual bool account_exists(const address&) const noexcept = 0;
  virtual bytes32 get_storage(const address&, const bytes32&) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address&, const bytes32&, const bytes32&) noexcept = 0;
  virtual uint256be get_balance(const address&) const noexcept = 0;
  virtual size_t get_code_size(const address&) const noexcept = 0;
  virtual bytes32 get_code_hash(const address&) const noexcept = 0;
  virtual size_t copy_code(const address&, size_t, uint8_t*, size_t) const noexcept = 0;
  virtual bool selfdestruct(const address&, const address&) noexcept = 0;
  virtual Result call(const evmc_message&) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t) const noexcept = 0;
  virtual void emit_log(const address&, const uint8_t*, size_t, const bytes32[], size_t) noexcept = 0;
  virtual evmc_access_status access_account(const address&) noexcept = 0;
  virtual evmc_access_status access_storage(const address&, const bytes32&) noexcept = 0;
  virtual bytes32 get_transient_storage(const address&, const bytes32&) const noexcept = 0;
  virtual void set_transient_storage(const address&, const bytes32&, const bytes32&) noexcept = 0;
};

class HostContext : public HostInterface {
  const evmc_host_interface* host = nullptr;
  evmc_host_context* context = nullptr;

 public:
  HostContext() = default;
  HostContext(const evmc_host_interface& interface, evmc_host_context* ctx) noexcept : host{&interface}, context{ctx} {}
  HostContext(const evmc_host_interface* interface, evmc_host_context* ctx) noexcept : host{interface}, context{ctx} {}
  bool account_exists(const address& a) const noexcept final { return host->account_exists(context, &a); }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept final { return host->get_storage(context, &a, &k); }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { return host->set_storage(context, &a, &k, &v); }
  uint256be get_balance(const address& a) const noexcept final { return host->get_balance(context, &a); }
  size_t get_code_size(const address& a) const noexcept final { return host->get_code_size(context, &a); }
  bytes32 get_code_hash(const address& a) const noexcept final { return host->get_code_hash(context, &a); }
  size_t copy_code(const address& a, size_t o, uint8_t* b, size_t n) const noexcept final { return host->copy_code(context, &a, o, b, n); }
  bool selfdestruct(const address& a, const address& b) noexcept final { return host->selfdestruct(context, &a, &b); }
  Result call(const evmc_message& m) noexcept final { return Result{host->call(context, &m)}; }
  evmc_tx_context get_tx_context() const noexcept final { return host->get_tx_context(context); }
  bytes32 get_block_hash(int64_t n) const noexcept final { return host->get_block_hash(context, n); }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32 t[], size_t tn) noexcept final { host->emit_log(context, &a, d, n, t, tn); }
  evmc_access_status access_account(const address& a) noexcept final { return host->access_account(context, &a); }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept final { return host->access_storage(context, &a, &k); }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept final { return host->get_transient_storage(context, &a, &k); }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { host->set_transient_storage(context, &a, &k, &v); }
};

class Host : public HostInterface {
 public:
  static const evmc_host_interface& get_interface() noexcept;
  evmc_host_context* to_context() noexcept { return reinterpret_cast<evmc_host_context*>(this); }
  template <typename D = Host> static D* from_context(evmc_host_context* c) noexcept { return static_cast<D*>(reinterpret_cast<Host*>(c)); }
};
inline const evmc_host_interface& Host::get_interface() noexcept {
  static const evmc_host_interface i = {
      [](evmc_host_context* h, const evmc_address* a) { return from_context(h)->account_exists(*a); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k) -> evmc_bytes32 { return from_context(h)->get_storage(*a, *k); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { return from_context(h)->set_storage(*a, *k, *v); },
      [](evmc_host_context* h, const evmc_address* a) -> evmc_uint256be { return from_context(h)->get_balance(*a); },
      [](evmc_host_context* h, const evmc_address* a) { return from_context(h)->get_code_size(*a); },
      [](evmc_host_context* h, const evmc_address* a) -> evmc_bytes32 { return from_context(h)->get_code_hash(*a); },
      [](evmc_host_context* h, const evmc_address* a, size_t o, uint8_t* b, size_t n) { return from_context(h)->copy_code(*a, o, b, n); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_address* b) { return from_context(h)->selfdestruct(*a, *b); },
      [](evmc_host_context* h, const evmc_message* m) -> evmc_result { return from_context(h)->call(*m).release_raw(); },
      [](evmc_host_context* h) { return from_context(h)->get_tx_context(); },
      [](evmc_host_context* h, int64_t n) -> evmc_bytes32 { return from_context(h)->get_block_hash(n); },
      [](evmc_host_context* h, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t tn) { from_context(h)->emit_log(*a, d, n, static_cast<const bytes32*>(t), tn); },
      [](evmc_host_context* h, const evmc_address* a) { return from_context(h)->access_account(*a); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k) { return from_context(h)->access_storage(*a, *k); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k) -> evmc_bytes32 { return from_context(h)->get_transient_storage(*a, *k); },
      [](evmc_host_context* h, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { from_context(h)->set_transient_storage(*a, *k, *v); },
  };
  return i;
}
}  // namespace evmc
template <> struct std::hash<evmc::address> {
  size_t operator()(const evmc::address& a) const noexcept { return std::hash<std::string_view>{}({reinterpret_cast<const char*>(a.bytes), 20}); }
};
template <> struct std::hash<evmc::bytes32> {
  size_t operator()(const evmc::bytes32& a) const noexcept { return std::hash<std::string_view>{}({reinterpret_cast<const char*>(a.bytes), 32}); }
};
