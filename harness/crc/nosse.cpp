#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#define util util_nosse
#include <nmmintrin.h>
#define __builtin_cpu_supports(x) 0
#include <libloong/util/crc32c.cpp>
uint32_t crc_seed_nosse(uint32_t c, const void* d, size_t n) { return loongarch::util_nosse::crc32c(c, d, n); }
uint32_t crc_plain_nosse(const void* d, size_t n) { return loongarch::util_nosse::crc32c(d, n); }
