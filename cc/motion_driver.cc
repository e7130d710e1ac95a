// Motion prediction metrics of the tree, behind a pipe.
#include "absl/container/flat_hash_map.h"
#include "server.h"
#include "waymo_open_dataset/metrics/motion_metrics.h"
#include "waymo_open_dataset/metrics/motion_metrics_utils.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"
#include "waymo_open_dataset/protos/motion_submission.pb.h"
#include "waymo_open_dataset/protos/scenario.pb.h"

using namespace waymo::open_dataset;  // NOLINT
using namespace verif;                // NOLINT

static std::string Dump(int type, int step, const MetricsStats& s) {
  std::vector<double> v = {double(type), double(step)};
  for (const Accumulator* a :
       {&s.min_average_displacement, &s.min_final_displacement, &s.miss_rate,
        &s.overlap_rate}) {
    v.push_back(a->total);
    v.push_back(a->num_measurements);
  }
  auto custom = s.custom_metrics.find("verif");
  v.push_back(custom == s.custom_metrics.end() ? 0 : custom->second.total);
  v.push_back(custom == s.custom_metrics.end()
                  ? 0
                  : custom->second.num_measurements);
  for (const auto* m :
       {&s.mean_average_precision, &s.soft_mean_average_precision}) {
    v.push_back(m->pr_buckets.size());
    for (const auto& b : m->pr_buckets) {
      v.push_back(b.num_trajectories);
      v.push_back(b.samples.size());
      for (const auto& x : b.samples) {
        v.push_back(x.confidence);
        v.push_back(x.true_positive);
      }
    }
  }
  return PD(v);
}
static Status Custom(const MotionMetricsConfig&,
                     const absl::flat_hash_map<int, const Track*>& ids,
                     const Scenario& scenario, int step,
                     const MultimodalPrediction& p, MetricsStats& m) {
  m.custom_metrics["verif"].Add(step + 100 * p.joint_predictions_size() +
                                10000 * scenario.tracks_size() +
                                1000000 * int(ids.size()));
  return OkStatus();
}
static std::string DumpAll(const BucketedMetricsStats& s) {
  Fields out;
  for (const auto& [type, m] : s.stats)
    for (const auto& [step, x] : m) out.push_back(Dump(type, step, x));
  return Pack(out);
}
static CustomMetricsFn Fn(const std::string& s) {
  return I(s)[0] ? CustomMetricsFn(Custom) : CustomMetricsFn();
}

// config, predictions, scenario, custom? -> ok, dump
HANDLER(stats) {
  BucketedMetricsStats s;
  Status st = ComputeMetricsStats(
      Proto<MotionMetricsConfig>(f[0]), Proto<ScenarioPredictions>(f[1]),
      Proto<Scenario>(f[2]), &s, Fn(f[3]));
  return {PI1(st.ok()), DumpAll(s)};
}
// config, [predictions], [scenario], group of each, custom?
// -> ok, metrics of the direct call, metrics accumulated group by group,
//    dump of the accumulated stats, dump across types
HANDLER(bundle) {  // an empty config: the challenge's
  auto config = f[0].empty() ? GetChallengeConfig() : Proto<MotionMetricsConfig>(f[0]);
  auto preds = Protos<ScenarioPredictions>(f[1]);
  auto scenarios = Protos<Scenario>(f[2]);
  auto group = I32(f[3]);
  auto fn = Fn(f[4]);
  absl::flat_hash_map<std::string, ScenarioPredictions> pm;
  absl::flat_hash_map<std::string, Scenario> sm;
  for (const auto& p : preds) pm[p.scenario_id()] = p;
  for (const auto& s : scenarios) sm[s.scenario_id()] = s;
  MotionMetrics direct;
  Status st = ComputeMotionMetrics(config, pm, sm, &direct, fn);
  if (!st.ok()) return {PI1(0)};
  std::map<int, BucketedMetricsStats> groups;
  for (size_t i = 0; i < preds.size(); ++i) {
    BucketedMetricsStats one;
    st = ComputeMetricsStats(config, preds[i], sm[preds[i].scenario_id()],
                             &one, fn);
    if (!st.ok()) return {PI1(0)};
    groups[group[i]].Accumulate(one);
  }
  BucketedMetricsStats total;
  for (const auto& [k, g] : groups) total.Accumulate(g);
  std::string dump = DumpAll(total);
  Fields across;
  for (const auto& [step, m] : total.AccumulateAcrossTypes())
    across.push_back(Dump(-1, step, m));
  MotionMetrics m = ComputeMotionMetrics(&total);
  return {PI1(1), direct.SerializeAsString(), m.SerializeAsString(), dump,
          Pack(across)};
}
// config, predictions by key, keys, scenarios by key, keys -> ok
HANDLER(keyed) {
  auto preds = Protos<ScenarioPredictions>(f[1]);
  auto scenarios = Protos<Scenario>(f[3]);
  auto pk = Unpack(f[2]), sk = Unpack(f[4]);
  absl::flat_hash_map<std::string, ScenarioPredictions> pm;
  absl::flat_hash_map<std::string, Scenario> sm;
  for (size_t i = 0; i < preds.size(); ++i) pm[pk[i]] = preds[i];
  for (size_t i = 0; i < scenarios.size(); ++i) sm[sk[i]] = scenarios[i];
  MotionMetrics m;
  Status st =
      ComputeMotionMetrics(Proto<MotionMetricsConfig>(f[0]), pm, sm, &m);
  return {PI1(st.ok()), m.SerializeAsString()};
}
// step, track -> type or -1
HANDLER(classify) {
  auto t = ClassifyTrack(I(f[0])[0], Proto<Track>(f[1]));
  return {PI1(t ? int(*t) : -1)};
}
// confidences, tps, gt count -> recalls, precisions, sorted confs, tps, area
HANDLER(prcurve) {
  auto c = D(f[0]);
  auto t = I(f[1]);
  PredictionStats a, b;
  for (size_t i = 0; i < c.size(); ++i) a.samples.emplace_back(c[i], t[i]);
  a.num_trajectories = I(f[2])[0];
  b = a;
  auto pr = ComputePrCurve(&a.samples, a.num_trajectories);
  std::vector<double> r, p, sc, stp;
  for (auto& x : pr) r.push_back(x.recall), p.push_back(x.precision);
  for (auto& x : a.samples)
    sc.push_back(x.confidence), stp.push_back(x.true_positive);
  return {PD(r), PD(p), PD(sc), PD(stp), P1(ComputeMeanAveragePrecision(&b))};
}
// [confs], [tps], counts -> mAP over the buckets
HANDLER(mapmetric) {
  auto c = Unpack(f[0]), t = Unpack(f[1]);
  auto n = I(f[2]);
  MeanAveragePrecisionStats s;
  for (size_t k = 0; k < c.size(); ++k) {
    s.pr_buckets.emplace_back();
    auto cs = D(c[k]);
    auto ts = I(t[k]);
    for (size_t i = 0; i < cs.size(); ++i)
      s.pr_buckets.back().samples.emplace_back(cs[i], ts[i]);
    s.pr_buckets.back().num_trajectories = n[k];
  }
  return {P1(ComputeMapMetric(&s))};
}
HANDLER(confidences) {
  return {PD(GetNormalizedConfidences(Proto<MultimodalPrediction>(f[0])))};
}
// config, trajectory, track, step, current dims? -> corners
HANDLER(poly) {
  auto c = Proto<MotionMetricsConfig>(f[0]);
  auto p = PredictionToPolygon(c, Proto<SingleTrajectory>(f[1]), I(f[3])[0],
                               Proto<Track>(f[2]), I(f[4])[0]);
  std::vector<double> v;
  for (const auto& q : p.points()) v.push_back(q.x()), v.push_back(q.y());
  return {PD(v), PI(std::vector<int>{PredictionToTrackStep(c, I(f[3])[0]),
                                     CurrentTrackStep(c)})};
}
HANDLER(avg_angle) { return {P1(AverageAngle(D(f[0])[0], D(f[0])[1]))}; }
// challenge predictions, submission type
// -> converted?, result, validated?
HANDLER(challenge) {
  ScenarioPredictions r;
  Status st =
      ConvertChallengePredictions(Proto<ChallengeScenarioPredictions>(f[0]), &r);
  Status v = ValidateChallengePredictions(
      r, static_cast<MotionChallengeSubmission::SubmissionType>(I(f[1])[0]));
  return {PI1(st.ok()), r.SerializeAsString(), PI1(v.ok())};
}
HANDLER(validate_challenge) {
  return {PI1(ValidateChallengePredictions(
                  Proto<ScenarioPredictions>(f[0]),
                  static_cast<MotionChallengeSubmission::SubmissionType>(
                      I(f[1])[0]))
                  .ok())};
}
HANDLER(challenge_config) {
  return {GetChallengeConfig().SerializeAsString()};
}

int main() { return Serve(); }
