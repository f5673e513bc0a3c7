// bit-level writer used by the demonstrations
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <vector>

struct Bits {
  std::vector<uint8_t> bytes;
  int n = 0;
  Bits& u(int width, uint64_t v) {
    for (int i = width - 1; i >= 0; --i) {
      if (n % 8 == 0) bytes.push_back(0);
      if ((v >> i) & 1) bytes.back() |= 0x80 >> (n % 8);
      ++n;
    }
    return *this;
  }
  Bits& ue(uint64_t v) {
    uint64_t x = v + 1;
    int len = 0;
    while (x >> (len + 1)) ++len;
    u(len, 0);
    return u(len + 1, x);
  }
  Bits& se(int64_t v) { return ue(v > 0 ? 2 * v - 1 : -2 * v); }
  Bits& trail() {
    u(1, 1);
    while (n % 8) u(1, 0);
    return *this;
  }
  // the bytes with emulation prevention applied
  std::vector<uint8_t> esc() const {
    std::vector<uint8_t> o;
    int z = 0;
    for (uint8_t b : bytes) {
      if (z >= 2 && b <= 3) {
        o.push_back(3);
        z = 0;
      }
      o.push_back(b);
      z = b ? 0 : z + 1;
    }
    return o;
  }
};

#define CHECK(c)                                                  \
  do {                                                            \
    if (!(c)) {                                                   \
      printf("FAILED %s:%d: %s\n", __FILE__, __LINE__, #c);       \
      exit(1);                                                    \
    }                                                             \
  } while (0)
