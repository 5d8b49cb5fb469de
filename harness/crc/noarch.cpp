#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#define util util_noarch
#undef __x86_64__
#include <libloong/util/crc32c.cpp>
uint32_t crc_seed_noarch(uint32_t c, const void* d, size_t n) { return loongarch::util_noarch::crc32c(c, d, n); }
uint32_t crc_plain_noarch(const void* d, size_t n) { return loongarch::util_noarch::crc32c(d, n); }
uint32_t crc_table_noarch(uint32_t c, const void* d, size_t n) { return loongarch::util_noarch::crc32_sw<0x82F63B78>(c, d, n); }
uint32_t crc_ieee_noarch(const void* d, size_t n) { return loongarch::util_noarch::crc32<>(d, n); }
