"""The drivers and the BUILD targets each one links."""
from vlib import build
from vlib.driver import Driver

M = '//waymo_open_dataset/metrics:'
DEPS = {
    'det_driver': [M + x for x in (
        'iou', 'hungarian', 'matcher', 'detection_metrics', 'metrics_utils',
        'breakdown_generator', 'mot', 'tracking_metrics',
        'segmentation_metrics', 'config_util')],
    'geom_driver': ['//waymo_open_dataset/math:' + x for x in (
        'aabox2d', 'box2d', 'polygon2d', 'segment2d', 'vec2d', 'vec3d',
        'math_util', 'exactfloat')],
    'motion_driver': [M + 'motion_metrics', M + 'motion_metrics_utils',
                      M + 'config_util'],
    'conv_driver': ['//waymo_open_dataset/data_conversion:scenario_conversion'],
    'camera_driver': ['//waymo_open_dataset/wdl_limited/camera:camera_model'],
    'ops_driver': ['//waymo_open_dataset/metrics/ops:metrics_ops.so',
                   '//waymo_open_dataset/wdl_limited/camera/ops:camera_model_ops.so'],
}


def prepare(name):
  def fn(tier):
    return {'driver': build.build(name, DEPS[name], san=(tier == 'thorough'))}
  return fn


def open_env(env):
  return dict(env, drv=Driver(env['driver']))


def close_env(env):
  env['drv'].stop()
