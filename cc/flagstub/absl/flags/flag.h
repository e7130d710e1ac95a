// Stand-in for absl/flags, which is not linkable here: --name=value and
// --name value for strings, lists of strings, integers, floats and booleans.
#ifndef VERIF_FLAGSTUB_H_
#define VERIF_FLAGSTUB_H_
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>
namespace absl {
inline std::map<std::string, std::function<void(const std::string&)>>& Flags() {
  static auto* m =
      new std::map<std::string, std::function<void(const std::string&)>>;
  return *m;
}
inline void Parse(const std::string& s, std::string* v) { *v = s; }
inline void Parse(const std::string& s, std::vector<std::string>* v) {
  v->clear();
  if (s.empty()) return;
  size_t a = 0;
  for (size_t b; (b = s.find(',', a)) != std::string::npos; a = b + 1)
    v->push_back(s.substr(a, b - a));
  v->push_back(s.substr(a));
}
inline void Parse(const std::string& s, bool* v) { *v = s == "true" || s == "1"; }
inline void Parse(const std::string& s, int32_t* v) { *v = std::stol(s); }
inline void Parse(const std::string& s, int64_t* v) { *v = std::stoll(s); }
inline void Parse(const std::string& s, uint64_t* v) { *v = std::stoull(s); }
inline void Parse(const std::string& s, float* v) { *v = std::stof(s); }
inline void Parse(const std::string& s, double* v) { *v = std::stod(s); }
template <typename T>
struct Flag {
  T value;
  Flag(const char* name, T v) : value(v) {
    Flags()[name] = [this](const std::string& s) { Parse(s, &value); };
  }
};
template <typename T>
T GetFlag(const Flag<T>& f) { return f.value; }
template <typename T, typename V>
void SetFlag(Flag<T>* f, const V& v) { f->value = v; }
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) \
  absl::Flag<T> FLAGS_##name(#name, T(def))
#endif
