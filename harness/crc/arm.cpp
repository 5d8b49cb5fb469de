#include <array>
#include <cstddef>
#include <cstdint>
#include <cstring>
#define util util_arm
#undef __x86_64__
#define __aarch64__ 1
#include "arm/arm_acle.h"
#include <libloong/util/crc32c.cpp>
uint32_t crc_seed_arm(uint32_t c, const void* d, size_t n) { return loongarch::util_arm::crc32c(c, d, n); }
uint32_t crc_plain_arm(const void* d, size_t n) { return loongarch::util_arm::crc32c(d, n); }
