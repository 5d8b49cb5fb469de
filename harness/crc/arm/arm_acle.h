// stand-in for the ARM CRC32 intrinsics: bitwise CRC-32C steps
#pragma once
#include <stdint.h>
static inline uint32_t vp_crc_step(uint32_t c, uint64_t v, int bits) { c ^= 0; for (int i = 0; i < bits; i++) { uint32_t b = (c ^ (uint32_t)(v >> i)) & 1; c = (c >> 1) ^ (b ? 0x82F63B78u : 0); } return c; }
static inline uint32_t __crc32cb(uint32_t c, uint8_t v) { return vp_crc_step(c, v, 8); }
static inline uint32_t __crc32ch(uint32_t c, uint16_t v) { return vp_crc_step(c, v, 16); }
static inline uint32_t __crc32cw(uint32_t c, uint32_t v) { return vp_crc_step(c, v, 32); }
static inline uint32_t __crc32cd(uint32_t c, uint64_t v) { return vp_crc_step(c, v, 64); }
