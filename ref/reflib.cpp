// C ABI over the references, for validation against independent implementations.
#include "ref.hpp"
#include "registry.hpp"
extern "C" int ref_digest(const char* alg, const uint8_t* p, uint64_t n, uint8_t* out) {
  ref::Bytes d; if (!ref::digest(alg, p, n, d)) return -1;
  memcpy(out, d.data(), d.size()); return (int)d.size();
}
extern "C" int ref_cshake(int bits, int outLen, const char* N, int nl, const char* S, int sl, const uint8_t* p, uint64_t n, uint8_t* out) {
  ref::Bytes d = ref::cshake(bits, outLen, std::string(N, nl), std::string(S, sl), p, n);
  memcpy(out, d.data(), d.size()); return (int)d.size();
}
extern "C" int ref_tuplehash(int bits, int outLen, const char* S, int sl, const uint8_t* p, const int* lens, int cnt, uint8_t* out) {
  std::vector<ref::Bytes> x; for (int i = 0; i < cnt; ++i) { x.emplace_back(p, p + lens[i]); p += lens[i]; }
  ref::Bytes d = ref::tuple_hash(bits, outLen, std::string(S, sl), x);
  memcpy(out, d.data(), d.size()); return (int)d.size();
}
extern "C" void ref_siphash(const uint8_t* k, const uint8_t* p, uint64_t n, uint8_t* out) { ref::Bytes d = ref::siphash24(k, p, n); memcpy(out, d.data(), 8); }
