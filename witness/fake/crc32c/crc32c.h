// stands for the optional library's header
#pragma once
#include <cstddef>
#include <cstdint>
namespace crc32c {
uint32_t Extend(uint32_t crc, const uint8_t *data, size_t count);
uint32_t Crc32c(const uint8_t *data, size_t count);
}
