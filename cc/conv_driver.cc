// Scenario proto -> tf.Example conversion, behind a pipe.
#include "server.h"
#include "waymo_open_dataset/data_conversion/scenario_conversion.h"

using namespace waymo::open_dataset;  // NOLINT
using namespace verif;                // NOLINT

// scenario, config, use counters? -> ok, then key, kind, values per feature
HANDLER(convert) {
  std::map<std::string, int> counters;
  auto r = ScenarioToExample(Proto<Scenario>(f[0]),
                             Proto<MotionExampleConversionConfig>(f[1]),
                             I(f[2])[0] ? &counters : nullptr);
  Fields out = {PI1(r.ok())};
  Fields names;
  std::vector<int64_t> counts;
  for (const auto& [k, v] : counters) {
    names.push_back(k);
    counts.push_back(v);
  }
  out.push_back(Pack(names));
  out.push_back(PI(counts));
  if (!r.ok()) return out;
  for (const auto& [k, v] : r->features().feature()) {
    out.push_back(k);
    if (v.has_bytes_list()) {
      out.push_back("b");
      Fields b(v.bytes_list().value().begin(), v.bytes_list().value().end());
      out.push_back(Pack(b));
    } else if (v.has_float_list()) {
      out.push_back("f");
      out.push_back(PD(v.float_list().value()));
    } else {
      out.push_back("i");
      out.push_back(PI(v.int64_list().value()));
    }
  }
  return out;
}

int main() { return Serve(); }
