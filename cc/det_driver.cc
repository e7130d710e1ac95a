// Detection / tracking / segmentation metrics of the tree, behind a pipe.
#include "server.h"
#include "waymo_open_dataset/label.pb.h"
#include "waymo_open_dataset/metrics/breakdown_generator.h"
#include "waymo_open_dataset/metrics/config_util.h"
#include "waymo_open_dataset/metrics/detection_metrics.h"
#include "waymo_open_dataset/metrics/hungarian.h"
#include "waymo_open_dataset/metrics/iou.h"
#include "waymo_open_dataset/metrics/matcher.h"
#include "waymo_open_dataset/metrics/metrics_utils.h"
#include "waymo_open_dataset/metrics/mot.h"
#include "waymo_open_dataset/metrics/segmentation_metrics.h"
#include "waymo_open_dataset/metrics/tracking_metrics.h"
#include "waymo_open_dataset/protos/metrics.pb.h"
#include "waymo_open_dataset/protos/motion_metrics.pb.h"

using namespace waymo::open_dataset;  // NOLINT
using namespace verif;                // NOLINT
using LetConfig = Config::LongitudinalErrorTolerantConfig;

static Label::Box Box(const double* v) {
  Label::Box b;
  b.set_center_x(v[0]);
  b.set_center_y(v[1]);
  b.set_center_z(v[2]);
  b.set_length(v[3]);
  b.set_width(v[4]);
  b.set_height(v[5]);
  b.set_heading(v[6]);
  return b;
}
static std::vector<double> Unbox(const Label::Box& b) {
  return {b.center_x(), b.center_y(), b.center_z(), b.length(),
          b.width(),    b.height(),   b.heading()};
}

// type, boxes A (n x 7), boxes B (m x 7) -> n x m single, n x m batch.
HANDLER(iou) {
  auto t = static_cast<Label::Box::Type>(I(f[0])[0]);
  auto a = D(f[1]), b = D(f[2]);
  std::vector<double> one, batch;
  std::vector<Label::Box> bs;
  for (size_t j = 0; j < b.size(); j += 7) bs.push_back(Box(&b[j]));
  for (size_t i = 0; i < a.size(); i += 7) {
    for (const auto& x : bs) one.push_back(ComputeIoU(Box(&a[i]), x, t));
    auto r = BatchComputeIoU(Box(&a[i]), bs, t);
    batch.push_back(r.size());
    batch.insert(batch.end(), r.begin(), r.end());
  }
  return {PD(one), PD(batch)};
}
// let config, pd box, gt box -> affinity, affinity via functor.
HANDLER(let_affinity) {
  auto c = Proto<LetConfig>(f[0]);
  auto p = D(f[1]), g = D(f[2]);
  auto fn = GetComputeLongitudinalAffinityFunc(c);
  return {P1(ComputeLongitudinalAffinity(Box(p.data()), Box(g.data()), c)),
          P1(fn(Box(p.data()), Box(g.data())))};
}
HANDLER(let_align) {
  auto p = D(f[1]), g = D(f[2]);
  return {PD(Unbox(AlignedPredictionBox(
      Box(p.data()), Box(g.data()),
      static_cast<LetConfig::AlignType>(I(f[0])[0]))))};
}
// let config, box type, pd, gt
HANDLER(let_iou) {
  auto c = Proto<LetConfig>(f[0]);
  auto t = static_cast<Label::Box::Type>(I(f[1])[0]);
  auto p = D(f[2]), g = D(f[3]);
  auto fn = GetComputeLetIoUFunc(c.sensor_location(), c.align_type(), t);
  return {P1(ComputeLetIoU(Box(p.data()), Box(g.data()), c.sensor_location(),
                           c.align_type(), t)),
          P1(fn(Box(p.data()), Box(g.data())))};
}
// n, edge
HANDLER(hungarian) {
  int n = I(f[0])[0];
  auto e = I32(f[1]);
  std::vector<int> perm(n, -7);
  Hungarian(n, e.data(), perm.data());
  std::vector<int> perm2(n, -7), lx(n), ly(n);
  Hungarian(n, e.data(), perm2.data(), lx.data(), ly.data());
  return {PI(perm), PI(perm2), PI(lx), PI(ly)};
}

static void RunMatches(Matcher* m, const std::vector<Object>& pds,
                       const std::vector<Object>& gts, const Fields& f,
                       size_t from, Fields* out) {
  std::vector<int> reuse_p, reuse_g;
  for (size_t k = from; k + 2 < f.size(); k += 3) {
    m->SetPredictionSubset(I32(f[k]));
    m->SetGroundTruthSubset(I32(f[k + 1]));
    int mode = I(f[k + 2])[0];
    if (mode == 1) {  // output vectors reused between calls
      m->Match(&reuse_p, &reuse_g);
      out->push_back(PI(reuse_p));
      out->push_back(PI(reuse_g));
    } else if (mode == 2) {
      std::vector<int> p;
      m->Match(&p, nullptr);
      out->push_back(PI(p));
      out->push_back("");
    } else if (mode == 3) {
      std::vector<int> g;
      m->Match(nullptr, &g);
      out->push_back("");
      out->push_back(PI(g));
    } else {
      std::vector<int> p, g;
      m->Match(&p, &g);
      out->push_back(PI(p));
      out->push_back(PI(g));
    }
  }
}
// config, pds, gts, then per call: pd subset, gt subset, mode.
// -> iou matrix, canmatch matrix, weight matrix, then 2 fields per call
HANDLER(match) {
  Config c = Proto<Config>(f[0]);
  auto pds = Protos<Object>(f[1]), gts = Protos<Object>(f[2]);
  auto m = Matcher::Create(c);
  m->SetPredictions(pds);
  m->SetGroundTruths(gts);
  Fields out(4);
  Fields calls;
  RunMatches(m.get(), pds, gts, f, 3, &calls);
  std::vector<double> iou, aff;
  std::vector<int> can, w;
  for (size_t i = 0; i < pds.size(); ++i)
    for (size_t j = 0; j < gts.size(); ++j) {
      iou.push_back(m->IoU(i, j));
      can.push_back(m->CanMatch(i, j));
      w.push_back(m->MatchingWeight(i, j));
      if (c.let_metric_config().enabled())
        aff.push_back(m->LongitudinalAffinity(i, j));
    }
  out[0] = PD(iou);
  out[1] = PI(can);
  out[2] = PI(w);
  out[3] = PD(aff);
  out.insert(out.end(), calls.begin(), calls.end());
  return out;
}
// matcher type, thresholds, weight matrix n x m (ints), pds, gts, calls...
HANDLER(match_weights) {
  auto type = static_cast<MatcherProto_Type>(I(f[0])[0]);
  auto w = I32(f[2]);
  auto pds = Protos<Object>(f[3]), gts = Protos<Object>(f[4]);
  int cols = gts.size();
  auto can = I32(f[5]);
  auto m = Matcher::Create(type, F32(f[1]), Label::Box::TYPE_3D);
  m->SetPredictions(pds);
  m->SetGroundTruths(gts);
  m->SetCustomCanMatchFunc([&](const Matcher&, int i, int j) {
    return can[i * cols + j] != 0;
  });
  m->SetCustomMatchingWeightFunc(
      [&](const Matcher&, int i, int j) { return w[i * cols + j]; });
  Fields out;
  RunMatches(m.get(), pds, gts, f, 6, &out);
  return out;
}

// config, then per round: pds, gts, what to replace (1 pds, 2 gts, 3 both),
// pd subset, gt subset -> one matcher used for every round: 2 fields each.
HANDLER(rematch) {
  auto m = Matcher::Create(Proto<Config>(f[0]));
  Fields out;
  std::vector<std::vector<Object>> keep;
  keep.reserve(2 * f.size());
  for (size_t k = 1; k + 4 < f.size(); k += 5) {
    int what = I(f[k + 2])[0];
    if (what & 1) {
      keep.push_back(Protos<Object>(f[k]));
      m->SetPredictions(keep.back());
    }
    if (what & 2) {
      keep.push_back(Protos<Object>(f[k + 1]));
      m->SetGroundTruths(keep.back());
    }
    m->SetPredictionSubset(I32(f[k + 3]));
    m->SetGroundTruthSubset(I32(f[k + 4]));
    std::vector<int> p, g;
    m->Match(&p, &g);
    out.push_back(PI(p));
    out.push_back(PI(g));
  }
  return out;
}

// An IoU of another box type than the configuration's, when field k is there.
static ComputeIoUFunc Custom(const Fields& f, size_t k) {
  if (f.size() <= k) return nullptr;
  const auto t = static_cast<Label::Box::Type>(I(f[k])[0]);
  return [t](const Label::Box& a, const Label::Box& b) { return ComputeIoU(a, b, t); };
}
// config, pds, gts[, box type of a custom IoU] -> measurements
HANDLER(det_measure) {
  return {PackProtos(ComputeDetectionMeasurements(
      Proto<Config>(f[0]), Protos<Object>(f[1]), Protos<Object>(f[2]), Custom(f, 3)))};
}
static std::vector<std::vector<Object>> Frames(const std::string& s) {
  std::vector<std::vector<Object>> v;
  for (const auto& x : Unpack(s)) v.push_back(Protos<Object>(x));
  return v;
}
static std::vector<std::vector<std::vector<Object>>> Scenes(
    const std::string& s) {
  std::vector<std::vector<std::vector<Object>>> v;
  for (const auto& x : Unpack(s)) v.push_back(Frames(x));
  return v;
}
// config, frames of pds, frames of gts[, box type of a custom IoU] -> metrics
HANDLER(det_metrics) {
  return {PackProtos(ComputeDetectionMetrics(Proto<Config>(f[0]), Frames(f[1]),
                                             Frames(f[2]), Custom(f, 3)))};
}
// config, list of list of measurements -> metrics
HANDLER(det_metrics_from) {
  std::vector<std::vector<DetectionMeasurements>> v;
  for (const auto& x : Unpack(f[1]))
    v.push_back(Protos<DetectionMeasurements>(x));
  return {PackProtos(ComputeDetectionMetrics(Proto<Config>(f[0]), v))};
}
HANDLER(det_merge) {
  std::vector<std::vector<DetectionMeasurements>> v;
  for (const auto& x : Unpack(f[1]))
    v.push_back(Protos<DetectionMeasurements>(x));
  return {PackProtos(MergeDetectionMeasurements(Proto<Config>(f[0]), v))};
}
HANDLER(det_cutoffs) {
  return {EstimateScoreCutoffs(Proto<Config>(f[0]), Frames(f[1]), Frames(f[2]))
              .SerializeAsString()};
}
HANDLER(decide_cutoffs) {
  return {PD(internal::DecideScoreCutoffs(F32(f[0]), I(f[1])[0]))};
}
HANDLER(mean_ap) {
  return {P1(internal::ComputeMeanAveragePrecision(F32(f[0]), F32(f[1]),
                                                   D(f[2])[0]))};
}
HANDLER(heading_accuracy) {
  // pds, gts single objects
  auto pds = Protos<Object>(f[0]), gts = Protos<Object>(f[1]);
  auto m = Matcher::Create(MatcherProto::TYPE_HUNGARIAN,
                           std::vector<float>(10, 0.5), Label::Box::TYPE_3D);
  m->SetPredictions(pds);
  m->SetGroundTruths(gts);
  return {P1(internal::ComputeHeadingAccuracy(*m, 0, 0))};
}
// config -> names; objects: generator id -> shards
HANDLER(names) {
  return {Pack(GetBreakdownNamesFromConfig(Proto<Config>(f[0])))};
}
HANDLER(motion_names) {
  return {Pack(
      GetBreakdownNamesFromMotionConfig(Proto<MotionMetricsConfig>(f[0])))};
}
HANDLER(breakdown_info) {
  auto g = BreakdownGenerator::Create(
      static_cast<Breakdown::GeneratorId>(I(f[0])[0]));
  Fields names;
  for (int i = 0; i < g->NumShards(); ++i) names.push_back(g->ShardName(i));
  return {PI1(g->NumShards()), PI1(g->Id()),
          PI1(g->IsGroundTruthOnlyBreakdown()), Pack(names)};
}
HANDLER(shards) {
  auto g = BreakdownGenerator::Create(
      static_cast<Breakdown::GeneratorId>(I(f[0])[0]));
  std::vector<int> s;
  Fields multi;
  for (const auto& o : Protos<Object>(f[1])) {
    s.push_back(g->Shard(o));
    multi.push_back(PI(g->ShardsForMatching(o)));
  }
  return {PI(s), Pack(multi)};
}
// tracking
HANDLER(trk_measure) {
  return {PackProtos(ComputeTrackingMeasurements(Proto<Config>(f[0]),
                                                 Frames(f[1]), Frames(f[2])))};
}
HANDLER(trk_metrics) {
  return {PackProtos(ComputeTrackingMetrics(Proto<Config>(f[0]), Scenes(f[1]),
                                            Scenes(f[2])))};
}
HANDLER(trk_metrics_from) {
  std::vector<std::vector<TrackingMeasurements>> v;
  for (const auto& x : Unpack(f[1]))
    v.push_back(Protos<TrackingMeasurements>(x));
  return {PackProtos(ComputeTrackingMetrics(Proto<Config>(f[0]), v))};
}
HANDLER(trk_cutoffs) {
  return {EstimateScoreCutoffs(Proto<Config>(f[0]), Scenes(f[1]), Scenes(f[2]))
              .SerializeAsString()};
}
// config, level, details, then per frame: pds, gts
HANDLER(mot) {
  Config c = Proto<Config>(f[0]);
  auto level = static_cast<Label::DifficultyLevel>(I(f[1])[0]);
  MOT mot;
  Fields out;
  for (size_t k = 3; k + 1 < f.size(); k += 2) {
    auto pds = Protos<Object>(f[k]), gts = Protos<Object>(f[k + 1]);
    auto m = Matcher::Create(c);
    std::vector<int> ps, gs;
    for (size_t i = 0; i < pds.size(); ++i) ps.push_back(i);
    for (size_t i = 0; i < gts.size(); ++i) gs.push_back(i);
    m->SetPredictions(pds);
    m->SetGroundTruths(gts);
    m->SetPredictionSubset(ps);
    m->SetGroundTruthSubset(gs);
    mot.Eval(m.get(), level, I(f[2])[0] != 0);
    out.push_back(mot.measurement().SerializeAsString());
  }
  return out;
}
// segmentation: config, then ops: "u" pred gt | "r" | "c" | "m" measurements
HANDLER(seg) {
  auto c = Proto<SegmentationMetricsConfig>(f[0]);
  SegmentationMetricsIOU s(c);
  Fields out;
  size_t k = 1;
  auto conv = [](const std::string& x) {
    std::vector<Segmentation::Type> v;
    for (int64_t y : I(x)) v.push_back(static_cast<Segmentation::Type>(y));
    return v;
  };
  while (k < f.size()) {
    const std::string op = f[k++];
    if (op == "u") {
      auto p = conv(f[k++]);
      auto g = conv(f[k++]);
      Status st = s.Update(p, g);
      out.push_back(st.ok() ? "ok" : "rejected");
    } else if (op == "r") {
      s.Reset();
      out.push_back("");
    } else if (op == "c") {
      out.push_back(s.ComputeIOU().SerializeAsString());
    } else if (op == "m") {
      out.push_back(s.MergeResults(Protos<SegmentationMeasurements>(f[k++]))
                        .SerializeAsString());
    }
  }
  return out;
}

int main() { return Serve(); }
