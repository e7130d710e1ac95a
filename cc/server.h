// Length-prefixed request/response loop shared by the drivers.
#ifndef VERIF_CC_SERVER_H_
#define VERIF_CC_SERVER_H_
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace verif {
using Fields = std::vector<std::string>;
using Handler = std::function<Fields(const Fields&)>;

inline std::map<std::string, Handler>& Registry() {
  static auto* m = new std::map<std::string, Handler>;
  return *m;
}
struct Reg {
  Reg(const char* name, Handler h) { Registry()[name] = std::move(h); }
};
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
#define HANDLER(name)                                                   \
  static ::verif::Fields VERIF_CAT(Handle_, name)(const ::verif::Fields&); \
  static ::verif::Reg VERIF_CAT(reg_, name)(#name, VERIF_CAT(Handle_, name)); \
  static ::verif::Fields VERIF_CAT(Handle_, name)(const ::verif::Fields& f)

inline std::vector<double> D(const std::string& s) {
  std::vector<double> v(s.size() / 8);
  if (!v.empty()) memcpy(v.data(), s.data(), v.size() * 8);
  return v;
}
inline std::vector<int64_t> I(const std::string& s) {
  std::vector<int64_t> v(s.size() / 8);
  if (!v.empty()) memcpy(v.data(), s.data(), v.size() * 8);
  return v;
}
inline std::vector<int> I32(const std::string& s) {
  std::vector<int64_t> v = I(s);
  return std::vector<int>(v.begin(), v.end());
}
inline std::vector<float> F32(const std::string& s) {
  std::vector<double> v = D(s);
  return std::vector<float>(v.begin(), v.end());
}
template <class C>
std::string PD(const C& c) {
  std::string s;
  for (const auto& x : c) {
    double d = static_cast<double>(x);
    s.append(reinterpret_cast<const char*>(&d), 8);
  }
  return s;
}
template <class C>
std::string PI(const C& c) {
  std::string s;
  for (const auto& x : c) {
    int64_t d = static_cast<int64_t>(x);
    s.append(reinterpret_cast<const char*>(&d), 8);
  }
  return s;
}
inline std::string P1(double d) { return PD(std::vector<double>{d}); }
inline std::string PI1(int64_t d) { return PI(std::vector<int64_t>{d}); }
inline Fields Unpack(const std::string& s) {
  Fields out;
  uint32_t n, m;
  memcpy(&n, s.data(), 4);
  size_t o = 4;
  for (uint32_t i = 0; i < n; ++i) {
    memcpy(&m, s.data() + o, 4);
    o += 4;
    out.push_back(s.substr(o, m));
    o += m;
  }
  return out;
}
inline std::string Pack(const Fields& f) {
  std::string s;
  uint32_t n = f.size();
  s.append(reinterpret_cast<char*>(&n), 4);
  for (const auto& x : f) {
    uint32_t m = x.size();
    s.append(reinterpret_cast<char*>(&m), 4);
    s += x;
  }
  return s;
}
template <class M>
M Proto(const std::string& s) {
  M m;
  if (!m.ParseFromString(s)) throw std::runtime_error("unparsable request proto");
  return m;
}
template <class M>
std::vector<M> Protos(const std::string& s) {
  std::vector<M> v;
  for (const auto& x : Unpack(s)) v.push_back(Proto<M>(x));
  return v;
}
template <class C>
std::string PackProtos(const C& c) {
  Fields f;
  for (const auto& m : c) f.push_back(m.SerializeAsString());
  return Pack(f);
}

inline bool ReadN(int fd, char* p, size_t n) {
  while (n) {
    ssize_t r = read(fd, p, n);
    if (r <= 0) return false;
    p += r;
    n -= r;
  }
  return true;
}
inline int Serve() {
  int out = dup(1);
  dup2(2, 1);  // anything the code under test prints goes to stderr
  while (true) {
    uint32_t n, m;
    if (!ReadN(0, reinterpret_cast<char*>(&n), 4)) return 0;
    Fields f(n);
    for (uint32_t i = 0; i < n; ++i) {
      if (!ReadN(0, reinterpret_cast<char*>(&m), 4)) return 0;
      f[i].resize(m);
      if (m && !ReadN(0, &f[i][0], m)) return 0;
    }
    Fields r;
    auto it = Registry().find(f[0]);
    if (it == Registry().end()) {
      r = {"bad", "unknown command " + f[0]};
    } else {
      f.erase(f.begin());
      try {
        r = it->second(f);
        r.insert(r.begin(), "ok");
      } catch (const std::runtime_error& e) {
        r = {"bad", e.what()};
      }
    }
    std::string s = Pack(r);
    size_t o = 0;
    while (o < s.size()) {
      ssize_t w = write(out, s.data() + o, s.size() - o);
      if (w <= 0) return 1;
      o += w;
    }
  }
}
}  // namespace verif
#endif  // VERIF_CC_SERVER_H_
