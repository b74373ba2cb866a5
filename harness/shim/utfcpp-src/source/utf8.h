// Minimal stand-in for the parts of utfcpp that SeQuant uses; utfcpp is not
// available offline.  BMP-only on the UTF-16 side plus surrogate pairs.
#ifndef VERIF_SHIM_UTF8_H
#define VERIF_SHIM_UTF8_H
#include <stdexcept>
#include <string>
#include <string_view>
namespace utf8 {
inline std::string utf16to8(const std::u16string& in) {
  std::string out;
  for (std::size_t i = 0; i < in.size(); ++i) {
    char32_t c = in[i];
    if (c >= 0xD800 && c < 0xDC00 && i + 1 < in.size()) {
      c = 0x10000 + ((c - 0xD800) << 10) + (in[++i] - 0xDC00);
    }
    if (c < 0x80) out += char(c);
    else if (c < 0x800) { out += char(0xC0 | (c >> 6)); out += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { out += char(0xE0 | (c >> 12)); out += char(0x80 | ((c >> 6) & 63)); out += char(0x80 | (c & 63)); }
    else { out += char(0xF0 | (c >> 18)); out += char(0x80 | ((c >> 12) & 63)); out += char(0x80 | ((c >> 6) & 63)); out += char(0x80 | (c & 63)); }
  }
  return out;
}
inline std::u16string utf8to16(std::string_view in) {
  std::u16string out;
  for (std::size_t i = 0; i < in.size();) {
    unsigned char b = in[i];
    int n = b < 0x80 ? 1 : (b >> 5) == 6 ? 2 : (b >> 4) == 14 ? 3 : (b >> 3) == 30 ? 4 : 0;
    if (n == 0 || i + n > in.size()) throw std::runtime_error("invalid utf-8");
    char32_t c = n == 1 ? b : b & (0xFF >> (n + 1));
    for (int k = 1; k < n; ++k) {
      unsigned char d = in[i + k];
      if ((d >> 6) != 2) throw std::runtime_error("invalid utf-8");
      c = (c << 6) | (d & 63);
    }
    i += n;
    if (c < 0x10000) out += char16_t(c);
    else { c -= 0x10000; out += char16_t(0xD800 + (c >> 10)); out += char16_t(0xDC00 + (c & 0x3FF)); }
  }
  return out;
}
}  // namespace utf8
#endif
