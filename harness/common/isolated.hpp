#pragma once
#include "sim.hpp"

#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace iso {

/// Serialised values; doubles bit by bit.
struct Bytes {
  std::string s;
  std::size_t pos = 0;
  template <typename T> void put(const T& x) {
    s.append(reinterpret_cast<const char*>(&x), sizeof(T));
  }
  void put_string(const std::string& x) {
    put(x.size());
    s += x;
  }
  void put_doubles(const double* p, std::size_t n) {
    put(n);
    s.append(reinterpret_cast<const char*>(p), n * sizeof(double));
  }
  template <typename T> T get() {
    T x{};
    if (pos + sizeof(T) <= s.size()) {
      std::memcpy(&x, s.data() + pos, sizeof(T));
    }
    pos += sizeof(T);
    return x;
  }
  std::string get_string() {
    const auto n = get<std::size_t>();
    std::string x = pos + n <= s.size() ? s.substr(pos, n) : std::string();
    pos += n;
    return x;
  }
  std::vector<double> get_doubles() {
    const auto n = get<std::size_t>();
    std::vector<double> x;
    if (n < 100000 && pos + n * sizeof(double) <= s.size()) {
      x.resize(n);
      std::memcpy(x.data(), s.data() + pos, n * sizeof(double));
      pos += n * sizeof(double);
    }
    return x;
  }
};

/// Runs fn in a process of its own that contains nothing but this one call and
/// returns what it wrote; died tells how it ended if it did not return.
std::string isolated(const std::function<std::string()>& fn, std::string& died);
extern bool in_isolation;

} // namespace iso
