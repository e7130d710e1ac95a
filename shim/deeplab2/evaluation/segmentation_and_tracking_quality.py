"""A recording stand-in for DeepLab2's STQuality."""
import numpy as np


class STQuality:

  def __init__(self, num_classes, things_list, ignore_label, max_instances_per_category, offset, name='stq'):
    self.config = (num_classes, tuple(things_list), ignore_label, max_instances_per_category, offset)
    self.updates = []

  def update_state(self, y_true, y_pred, sequence_id=0, weights=None):
    self.updates.append((np.array(y_true), np.array(y_pred), sequence_id, None if weights is None else np.array(weights)))

  def merge_state(self, metrics):
    for m in metrics:
      self.updates.extend(m.updates)

  def reset_states(self):
    self.updates = []

  def result(self):
    """Three numbers which depend on everything that was accumulated."""
    tot = weighted = miss = 0.0
    for t, p, _, w in self.updates:
      w = np.ones(t.shape) if w is None else w
      tot += float(w.sum())
      weighted += float((w * (t == p)).sum())
      miss += float((w * (t % 7 == p % 7)).sum())
    tot = tot or 1.0
    return {'STQ': weighted / tot, 'AQ': miss / tot, 'IoU': 1 / (1 + len(self.updates)), 'STQ_per_seq': [], 'ID_per_seq': []}
