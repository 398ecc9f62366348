// Stand-in for mapbox/gzip-hpp (not installed here), on top of zlib.
#ifndef VERIF_STANDIN_GZIP_DECOMPRESS_HPP
#define VERIF_STANDIN_GZIP_DECOMPRESS_HPP
#include <zlib.h>

#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <string>

namespace gzip {
inline std::string decompress(const char *data, std::size_t size) {
  z_stream s;
  std::memset(&s, 0, sizeof(s));
  if (inflateInit2(&s, 15 + 32) != Z_OK) {
    throw std::runtime_error("inflate init failed");
  }
  std::string out;
  char buf[4096];
  s.next_in = reinterpret_cast<z_const Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<unsigned int>(size);
  int rc = Z_OK;
  do {
    s.next_out = reinterpret_cast<Bytef *>(buf);
    s.avail_out = sizeof(buf);
    rc = inflate(&s, Z_FINISH);
    if (rc != Z_STREAM_END && rc != Z_OK && rc != Z_BUF_ERROR) {
      const std::string msg = s.msg ? s.msg : "inflate failed";
      inflateEnd(&s);
      throw std::runtime_error(msg);
    }
    const std::size_t got = sizeof(buf) - s.avail_out;
    out.append(buf, got);
    if (rc == Z_BUF_ERROR && got == 0) {
      inflateEnd(&s);
      throw std::runtime_error("truncated gzip data");
    }
  } while (rc != Z_STREAM_END);
  inflateEnd(&s);
  return out;
}
} // namespace gzip
#endif
