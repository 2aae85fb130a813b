// The index checksum against the bit-at-a-time definition of CRC-32C.
// params: 0 variant (0 one step from any state, 1 whole strings, 2 chaining, 3 changed byte), 1 length
#include "sx.h"
#include "z5/util/crc32c.hxx"
static uint32_t step(uint32_t c, uint8_t b) { c ^= b; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82f63b78u & (0u - (c & 1u))); return c; }
static uint32_t ref(const uint8_t *p, size_t n, uint32_t seed = 0) { uint32_t c = ~seed; for (size_t i = 0; i < n; i++) c = step(c, p[i]); return ~c; }
extern "C" void sx_main() {
    int var = sx_param(0); size_t n = sx_param(1); uint8_t b[128], c[128];
    if (var == 0) { b[0] = sx_byte("byte"); uint32_t s = (uint32_t)sx_sym("state", 32, 0, ~0ull); SX_CHECK(z5::util::crc32c((const char *)b, 1, s) == ref(b, 1, s), "one byte advances the checksum as CRC-32C does"); SX_CHECK(z5::util::crc32c((const char *)b, 0, s) == s, "no bytes leave the checksum as it is"); sx_cover("step"); }
    else if (var == 1) { sx_bytes(b, n, "data"); uint32_t r = z5::util::crc32c((const char *)b, n); sx_observe(r); SX_CHECK(r == ref(b, n), "the checksum of a string is its CRC-32C"); sx_cover("string"); }
    else if (var == 2) { sx_bytes(b, n, "data"); for (size_t k = 0; k <= n; k++) SX_CHECK(z5::util::crc32c((const char *)b + k, n - k, z5::util::crc32c((const char *)b, k)) == z5::util::crc32c((const char *)b, n), "a checksum can be continued"); SX_CHECK(z5::util::crc32c("123456789", 9) == 0xe3069283u, "check value of CRC-32C"); sx_cover("chain"); }
    else { sx_bytes(b, n, "data"); size_t k = sx_choose("position", n); for (size_t i = 0; i < n; i++) c[i] = b[i]; c[k] = sx_byte("other"); sx_assume(c[k] != b[k]); SX_CHECK(z5::util::crc32c((const char *)b, n) != z5::util::crc32c((const char *)c, n), "a changed byte changes the checksum"); sx_cover("changed"); }
}
