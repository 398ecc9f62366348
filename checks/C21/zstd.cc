// pbt: san=1
#include <albatross/Common>
#include "pbt.hpp"

#include <array>
#include <cstring>

namespace {

std::string bytes(pbt::Case &c, std::size_t max_len) {
  const int style = c.pick<int>(
      {0, 1, 2, 3, 0, 1, 2, 3, 0, 1, 2, 3, 1, 2, 3, 5, 5, 5, 5, 4});
  std::string s;
  std::size_t n = c.size(0, max_len);
  if (style == 0) {
    s.assign(n, static_cast<char>(c.i(0, 255)));
  } else if (style == 1) { // incompressible
    for (std::size_t k = 0; k < n; ++k)
      s.push_back(static_cast<char>(c.i(0, 255)));
  } else if (style == 2) { // small alphabet
    for (std::size_t k = 0; k < n; ++k)
      s.push_back(static_cast<char>(c.i(0, 2)));
  } else if (style == 3) { // repeated phrase
    std::string phrase = c.str(20);
    while (s.size() < n && !phrase.empty())
      s += phrase;
  } else if (style == 4) { // long: more than one block
    std::uint64_t x = c.u64() | 1;
    n = c.size(1, 280) * 1024;
    const bool noisy = c.coin();
    for (std::size_t k = 0; k < n; ++k) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      s.push_back(static_cast<char>(noisy ? x >> 56 : (x >> 60) & 3));
    }
  } else { // looks like a frame itself
    s = albatross::zstd::compress(c.str(30));
  }
  c.note() << "style=" << style << " bytes=" << s.size() << " ";
  c.sync();
  return s;
}

int level(pbt::Case &c) {
  int l = c.coin() ? albatross::zstd::kDefaultCompressionLevel
                   : static_cast<int>(c.i(-7, 22));
  c.show("level", l);
  return l;
}

// decompression by the reference library alone
std::string reference(pbt::Case &c, const std::string &z) {
  const auto n = ZSTD_getFrameContentSize(z.data(), z.size());
  c.check(n != ZSTD_CONTENTSIZE_ERROR && n != ZSTD_CONTENTSIZE_UNKNOWN,
          "compressed data does not declare its size");
  std::string out(n, 0);
  const auto got = ZSTD_decompress(&out[0], n, z.data(), z.size());
  c.check(!ZSTD_isError(got) && got == n, "compressed data is not a zstd frame");
  return out;
}

template <typename T>
void round_trip_elements(pbt::Case &c, const char *name) {
  const std::size_t n = c.size(0, 200);
  std::vector<T> data(n);
  for (auto &x : data) {
    std::uint64_t r = c.coin() ? c.u64() : static_cast<std::uint64_t>(c.i(0, 3));
    std::memcpy(&x, &r, std::min(sizeof(T), sizeof r));
  }
  const int l = level(c);
  c.show("type", name).show("n", n);
  c.nontrivial(n >= 2);
  const std::vector<T> copy = data;
  const std::string z = albatross::zstd::compress(data.data(), n, l);
  c.check(n == 0 || std::memcmp(data.data(), copy.data(), n * sizeof(T)) == 0,
          "compress modified its input");
  const std::string raw(reinterpret_cast<const char *>(data.data()),
                        n * sizeof(T));
  c.check(reference(c, z) == raw, "frame does not hold the input bytes");
  // exact destination: a write outside is caught by the address sanitizer
  std::unique_ptr<T[]> dst(new T[n]);
  std::memset(static_cast<void *>(dst.get()), 0x5a, n * sizeof(T));
  c.check(albatross::zstd::maybe_decompress(z, dst.get(), n),
          "maybe_decompress failed on valid data");
  c.check(n == 0 || std::memcmp(dst.get(), data.data(), n * sizeof(T)) == 0,
          "elements differ after maybe_decompress");
  std::memset(static_cast<void *>(dst.get()), 0x5a, n * sizeof(T));
  albatross::zstd::decompress(z, dst.get(), n);
  c.check(n == 0 || std::memcmp(dst.get(), data.data(), n * sizeof(T)) == 0,
          "elements differ after decompress");
  // element-wise and string forms interoperate
  c.check(albatross::zstd::decompress(z) == raw, "string form of the elements");
  const std::string z2 = albatross::zstd::compress(raw, l);
  std::memset(static_cast<void *>(dst.get()), 0x5a, n * sizeof(T));
  c.check(albatross::zstd::maybe_decompress(z2, dst.get(), n) &&
              (n == 0 ||
               std::memcmp(dst.get(), data.data(), n * sizeof(T)) == 0),
          "elements from the string form");
  // a wrong number of elements is refused
  for (std::size_t wrong : {n + 1, n > 0 ? n - 1 : n + 2, 2 * n + 3}) {
    std::unique_ptr<T[]> bad(new T[wrong]);
    c.check(!albatross::zstd::maybe_decompress(z, bad.get(), wrong),
            "maybe_decompress accepted a wrong element count");
  }
}

} // namespace

PBT_CHECK(string_round_trip, 20000, 200000,
          "byte strings (constant, random, repetitive, multi-block up to 300 "
          "kB, nested frames) at every level; non-trivial: 8+ bytes.") {
  const std::string in = bytes(c, 400);
  const int l = level(c);
  c.nontrivial(in.size() >= 8);
  c.label_if(in.size() > (1u << 17), "more than one block");
  c.label_if(in.empty(), "empty");
  const std::string copy = in;
  const std::string z = albatross::zstd::compress(in, l);
  c.check(in == copy, "compress modified its input");
  c.check(reference(c, z) == in, "frame does not hold the input");
  c.check(albatross::zstd::decompress(z) == in, "decompress");
  std::string out = c.coin() ? std::string() : c.str(50);
  c.check(albatross::zstd::maybe_decompress(z, &out), "maybe_decompress failed");
  c.check(out == in, "maybe_decompress content");
  c.check(albatross::zstd::compress(in, l) == z, "compress is deterministic");
}

PBT_CHECK(element_round_trip, 20000, 200000,
          "arrays of 1, 2, 4, 8 byte integers, floats, doubles and structs, "
          "with right and wrong element counts; non-trivial: 2+ elements.") {
  struct Pod {
    double a;
    std::int32_t b;
    char c[4];
  };
  switch (c.i(0, 7)) {
  case 0:
    return round_trip_elements<char>(c, "char");
  case 1:
    return round_trip_elements<std::uint8_t>(c, "u8");
  case 2:
    return round_trip_elements<std::int16_t>(c, "i16");
  case 3:
    return round_trip_elements<std::uint32_t>(c, "u32");
  case 4:
    return round_trip_elements<std::int64_t>(c, "i64");
  case 5:
    return round_trip_elements<float>(c, "float");
  case 6:
    return round_trip_elements<double>(c, "double");
  default:
    return round_trip_elements<Pod>(c, "struct");
  }
}

PBT_CHECK(foreign_frames, 10000, 100000,
          "frames made by zstd itself with checksums, without a declared size, "
          "with magic-less or skippable frames, concatenated; non-trivial: the "
          "payload is not empty.") {
  const std::string in = bytes(c, 300);
  c.nontrivial(!in.empty());
  ZSTD_CCtx *ctx = ZSTD_createCCtx();
  const int kind = static_cast<int>(c.i(0, 4));
  c.show("kind", kind);
  ZSTD_CCtx_setParameter(ctx, ZSTD_c_compressionLevel,
                         static_cast<int>(c.i(1, 9)));
  ZSTD_CCtx_setParameter(ctx, ZSTD_c_checksumFlag, kind == 0);
  ZSTD_CCtx_setParameter(ctx, ZSTD_c_contentSizeFlag, kind != 1);
  std::string z(ZSTD_compressBound(in.size()), 0);
  const std::size_t n =
      ZSTD_compress2(ctx, &z[0], z.size(), in.data(), in.size());
  ZSTD_freeCCtx(ctx);
  c.check(!ZSTD_isError(n), "reference compression");
  z.resize(n);
  std::string out;
  if (kind == 1) {
    // size unknown: refused, not guessed
    if (ZSTD_getFrameContentSize(z.data(), z.size()) ==
        ZSTD_CONTENTSIZE_UNKNOWN) {
      c.label("unknown size");
      c.check(!albatross::zstd::maybe_decompress(z, &out),
              "accepted a frame of unknown size");
      std::vector<char> dst(in.size() + 1);
      c.check(!albatross::zstd::maybe_decompress(z, dst.data(), in.size()),
              "accepted a frame of unknown size into an array");
      return;
    }
  }
  if (kind == 2) { // two frames: more content than declared
    std::string zz = z + z;
    if (!in.empty()) {
      if (albatross::zstd::maybe_decompress(zz, &out))
        c.check(out == in + in, "two frames: success with wrong content");
      std::unique_ptr<char[]> dst(new char[in.size()]);
      c.check(!albatross::zstd::maybe_decompress(zz, dst.get(), in.size()) ||
                  std::memcmp(dst.get(), in.data(), in.size()) == 0,
              "two frames into an array");
    }
    return;
  }
  if (kind == 3) { // trailing garbage
    std::string zz = z + c.str(10);
    if (albatross::zstd::maybe_decompress(zz, &out))
      c.check(out == in, "trailing bytes: success with wrong content");
    return;
  }
  c.check(albatross::zstd::maybe_decompress(z, &out) && out == in,
          "valid frame of the reference library");
  c.check(albatross::zstd::decompress(z) == in, "decompress of the same");
}

PBT_CHECK(corrupt_input, 60000, 1000000,
          "valid frames truncated, extended, with flipped / overwritten / "
          "deleted bytes (headers favoured), and random bytes; the string and "
          "array forms must report success only with exactly the declared "
          "number of bytes and never write elsewhere; non-trivial: the input "
          "differs from every valid frame used.") {
  std::string z;
  std::string in;
  const int kind = static_cast<int>(c.i(0, 5));
  c.show("kind", kind);
  if (kind == 0) {
    z = c.str(40);
    for (auto &ch : z)
      if (c.coin())
        ch = static_cast<char>(c.i(0, 255));
  } else {
    in = bytes(c, 200);
    z = albatross::zstd::compress(in, static_cast<int>(c.i(1, 5)));
    if (kind == 1) {
      z.resize(c.i(0, static_cast<long>(z.size()) - 1));
    } else if (kind == 2) {
      z += c.str(5);
    } else if (kind == 3 || kind == 4) {
      const long m = c.i(1, 3);
      for (long k = 0; k < m; ++k) {
        const std::size_t limit =
            kind == 3 ? std::min<std::size_t>(z.size(), 14) : z.size();
        auto &ch = z[static_cast<std::size_t>(
            c.i(0, static_cast<long>(limit) - 1))];
        if (c.coin())
          ch = static_cast<char>(ch ^ (1 << c.i(0, 7)));
        else
          ch = static_cast<char>(c.i(0, 255));
      }
    } else {
      const std::size_t at =
          static_cast<std::size_t>(c.i(0, static_cast<long>(z.size()) - 1));
      z.erase(at, static_cast<std::size_t>(c.i(1, 4)));
    }
  }
  c.note() << "input=";
  for (std::size_t k = 0; k < z.size() && k < 24; ++k) {
    char b[4];
    std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(z[k]));
    c.note() << b;
  }
  c.note() << " ";
  c.sync();
  c.nontrivial(kind == 0 || z != albatross::zstd::compress(in));
  const auto declared = ZSTD_getFrameContentSize(z.data(), z.size());
  const bool known = declared != ZSTD_CONTENTSIZE_ERROR &&
                     declared != ZSTD_CONTENTSIZE_UNKNOWN;
  c.label_if(known, "header still valid");
  c.label_if(known && declared > (1u << 30), "declares more than 1 GB");
  std::string out = "previous";
  const bool ok = albatross::zstd::maybe_decompress(z, &out);
  c.label_if(ok, "accepted");
  c.check(!ok || (known && out.size() == declared),
          "success, but the size is not the declared one");
  if (ok) {
    std::string ref(out.size(), 0);
    const auto got = ZSTD_decompress(&ref[0], ref.size(), z.data(), z.size());
    c.check(!ZSTD_isError(got) && got == out.size() && ref == out,
            "success, but the reference library disagrees");
  } else if (known && declared < (1u << 24)) {
    std::string ref(declared, 0);
    const auto got = ZSTD_decompress(&ref[0], ref.size(), z.data(), z.size());
    c.check(ZSTD_isError(got) || got != declared,
            "refused data that decodes to its declared size");
  }
  // fixed size destination
  const std::size_t n = c.coin() && known && declared < 4096
                            ? static_cast<std::size_t>(declared)
                            : in.size();
  std::unique_ptr<char[]> dst(new char[n]);
  const bool ok2 = albatross::zstd::maybe_decompress(z, dst.get(), n);
  if (ok2) {
    c.check(known && declared == n, "array: success with another size");
    c.check(ok && std::memcmp(dst.get(), out.data(), n) == 0,
            "array: content differs from the string form");
  } else {
    c.check(!(ok && declared == n), "array: refused what the string form read");
  }
}

PBT_CHECK(strict_decompress_rejects, 400, 4000,
          "truncated or mismatched input given to the asserting forms, each in "
          "a forked process which must not end normally; non-trivial: all.") {
  const std::string in = bytes(c, 60);
  std::string z = albatross::zstd::compress(in);
  c.nontrivial();
  if (c.coin()) {
    z.resize(static_cast<std::size_t>(c.i(0, static_cast<long>(z.size()) - 1)));
    c.show("truncated to", z.size());
    c.check(pbt::rejects([&] { (void)albatross::zstd::decompress(z); }),
            "decompress accepted truncated input");
  } else {
    const std::size_t wrong = in.size() + static_cast<std::size_t>(c.i(1, 9));
    c.show("wrong size", wrong);
    c.check(pbt::rejects([&] {
              std::vector<char> dst(wrong);
              albatross::zstd::decompress(z, dst.data(), wrong);
            }),
            "decompress accepted a wrong element count");
  }
}
