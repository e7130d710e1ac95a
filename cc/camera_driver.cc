// Camera model of the tree, behind a pipe.
#include "server.h"
#include "waymo_open_dataset/dataset.pb.h"
#include "waymo_open_dataset/wdl_limited/camera/camera_model.h"

using namespace waymo::open_dataset;  // NOLINT
using namespace verif;                // NOLINT

// calibration, images prepared one after the other, points (x y z vx vy vz),
// check bounds?, pixels (u v depth)
// -> per point (ok u v depth) by each of three calls, per pixel world and
//    vehicle positions and whether it is inside the image
HANDLER(camera) {
  CameraModel m(Proto<CameraCalibration>(f[0]));
  for (const auto& image : Protos<CameraImage>(f[1])) m.PrepareProjection(image);
  const auto p = D(f[2]);
  const bool bounds = I(f[3])[0];
  const auto q = D(f[4]);
  std::vector<double> moving, depth, plain, world, inside;
  for (size_t i = 0; i + 5 < p.size(); i += 6) {
    double u = -777, v = -777, d = -777;
    bool ok = m.WorldToImageMovingPointWithDepth(
        p[i], p[i + 1], p[i + 2], p[i + 3], p[i + 4], p[i + 5], bounds, &u, &v, &d);
    moving.insert(moving.end(), {double(ok), u, v, d});
    u = v = d = -777;
    ok = m.WorldToImageWithDepth(p[i], p[i + 1], p[i + 2], bounds, &u, &v, &d);
    depth.insert(depth.end(), {double(ok), u, v, d});
    u = v = -777;
    ok = m.WorldToImage(p[i], p[i + 1], p[i + 2], bounds, &u, &v);
    plain.insert(plain.end(), {double(ok), u, v});
  }
  for (size_t i = 0; i + 2 < q.size(); i += 3) {
    double x, y, z;
    m.ImageToWorld(q[i], q[i + 1], q[i + 2], &x, &y, &z);
    world.insert(world.end(), {x, y, z});
    m.ImageToVehicleGlobalShutter(q[i], q[i + 1], q[i + 2], &x, &y, &z);
    world.insert(world.end(), {x, y, z});
    inside.push_back(m.InImage(q[i], q[i + 1]));
  }
  return {PD(moving), PD(depth), PD(plain), PD(world), PD(inside)};
}

int main() { return Serve(); }
