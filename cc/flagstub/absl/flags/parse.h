#ifndef VERIF_FLAGSTUB_PARSE_H_
#define VERIF_FLAGSTUB_PARSE_H_
#include "absl/flags/flag.h"
namespace absl {
inline std::vector<char*> ParseCommandLine(int argc, char** argv) {
  std::vector<char*> rest = {argv[0]};
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--")) {
      rest.push_back(argv[i]);
      continue;
    }
    a = a.substr(2);
    size_t e = a.find('=');
    std::string name = a.substr(0, e), value;
    if (e != std::string::npos) value = a.substr(e + 1);
    else if (i + 1 < argc) value = argv[++i];
    auto it = Flags().find(name);
    if (it == Flags().end()) {
      std::cerr << "Unknown flag " << name << "\n";
      exit(1);
    }
    it->second(value);
  }
  return rest;
}
}  // namespace absl
#endif
