// Stand-in for mapbox/gzip-hpp (not installed here), on top of zlib.
#ifndef VERIF_STANDIN_GZIP_COMPRESS_HPP
#define VERIF_STANDIN_GZIP_COMPRESS_HPP
#include <zlib.h>

#include <cstddef>
#include <cstring>
#include <stdexcept>
#include <string>

namespace gzip {
inline std::string compress(const char *data, std::size_t size,
                            int level = Z_DEFAULT_COMPRESSION) {
  z_stream s;
  std::memset(&s, 0, sizeof(s));
  if (deflateInit2(&s, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY) !=
      Z_OK) {
    throw std::runtime_error("deflate init failed");
  }
  std::string out;
  char buf[4096];
  s.next_in = reinterpret_cast<z_const Bytef *>(const_cast<char *>(data));
  s.avail_in = static_cast<unsigned int>(size);
  int rc = Z_OK;
  do {
    s.next_out = reinterpret_cast<Bytef *>(buf);
    s.avail_out = sizeof(buf);
    rc = deflate(&s, Z_FINISH);
    out.append(buf, sizeof(buf) - s.avail_out);
  } while (rc == Z_OK || rc == Z_BUF_ERROR);
  deflateEnd(&s);
  return out;
}
} // namespace gzip
#endif
