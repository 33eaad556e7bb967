// Declarations only: lets the analyses parse the ADA_USE_SIMDUTF configuration without the library.
#pragma once
#include <cstddef>
namespace simdutf {
size_t utf32_length_from_utf8(const char* input, size_t length) noexcept;
size_t utf8_length_from_utf32(const char32_t* input, size_t length) noexcept;
size_t convert_utf8_to_utf32(const char* input, size_t length, char32_t* out) noexcept;
size_t convert_utf32_to_utf8(const char32_t* input, size_t length, char* out) noexcept;
bool validate_utf8(const char* input, size_t length) noexcept;
bool validate_utf32(const char32_t* input, size_t length) noexcept;
}  // namespace simdutf
