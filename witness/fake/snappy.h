// stands for the optional library's header: only what port_stdcxx.h may use (its documented interface)
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace snappy {
size_t MaxCompressedLength(size_t source_bytes);
void RawCompress(const char *input, size_t input_length, char *compressed, size_t *compressed_length);
size_t Compress(const char *input, size_t input_length, std::string *output);
bool GetUncompressedLength(const char *compressed, size_t compressed_length, size_t *result);
bool RawUncompress(const char *compressed, size_t compressed_length, char *uncompressed);
}
