"""Planted bugs, fifth set."""
S = []


def s(id, property, edits, needs, breaks, demo):
  S.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


DU = 'dataloader/dataloader_utils.py'
LOAD = """
import os, tempfile
from unittest import mock
import tensorflow as tf
from waymax.dataloader import dataloader_utils as du
def load(files, recs, procs=1, objects=0, **kw):
  out = []
  with tempfile.TemporaryDirectory() as tmp:
    base = os.path.join(tmp, 'set')
    for i in range(files):
      with tf.io.TFRecordWriter(base if files == 1 else '%s-%05d-of-%05d' % (base, i, files)) as w:
        for r in range(recs):
          w.write(np.array([100 * i + r], np.int32).tobytes())
    pre = lambda b: {'v': tf.io.decode_raw(b, tf.int32)[0]} if not objects else {'v': tf.repeat(tf.io.decode_raw(b, tf.int32), objects)}
    for q in range(procs):
      with mock.patch.object(jax, 'process_count', lambda *a: procs), mock.patch.object(jax, 'process_index', lambda *a, q=q: q):
        ds = du.tf_examples_dataset(base if files == 1 else '%s@%d' % (base, files), config.DataFormat.TFRECORD, pre, repeat=1, **kw)
        out += [np.asarray(e['v']) for e in ds.as_numpy_iterator()]
  return out
"""

s('c34_hostshuffle', 'C34', [(DU, """    random.seed(shuffle_seed)
""", """    random.seed(shuffle_seed + jax.process_index())
""")], 'several processes and a shuffle seed', 'Each process shuffles the file list differently, so files are loaded twice or never.', LOAD + """
bad = [s for s in range(1, 9) if sorted(int(x) for x in load(4, 1, procs=2, shuffle_seed=s)) != [0, 100, 200, 300]]
check(not bad, 'records lost or repeated for seeds %s' % bad)
""")

s('c34_nested', 'C34', [(DU, """            drop_remainder=drop_remainder,
            num_parallel_calls=AUTOTUNE,
""", """            drop_remainder=drop_remainder and batch_size == batch_dims[-1],
            num_parallel_calls=AUTOTUNE,
""")], 'two batch dimensions of different size and a remainder', 'Incomplete outer batches are delivered although dropping is configured.', LOAD + """
o = load(1, 9, batch_dims=(2, 3))
check([x.shape for x in o] == [(2, 3)], str([x.shape for x in o]))
""")

s('c34_order', 'C34', [(DU, """      for batch_size in reversed(batch_dims):
""", """      for batch_size in sorted(batch_dims):
""")], 'a first batch dimension smaller than the second', 'The batch dimensions come out in the wrong order.', LOAD + """
o = load(1, 6, batch_dims=(2, 3))
check([x.shape for x in o] == [(2, 3)], str([x.shape for x in o]))
""")

s('c34_workers', 'C34', [(DU, """    local_files = local_files.shard(num_shards, shard_index)
""", """    local_files = local_files.shard(
        num_shards, shard_index // jax.process_count() * jax.process_count()
        + (shard_index + jax.process_index()) % jax.process_count()
        if num_shards % jax.process_count() == 0 or num_shards > 2
        else shard_index
    )
""")], 'three workers in each of two processes', 'Workers of some processes load the wrong share of files.', LOAD + """
try:
  o = sorted(int(x) for x in load(6, 1, procs=2, num_shards=3))
except Exception as e:
  fail(repr(e))
check(o == [0, 100, 200, 300, 400, 500], str(o))
""")

s('c34_devices', 'C34', [(DU, """    batch_dims = (jax.local_device_count(),) + batch_dims
""", """    batch_dims = batch_dims[:1] + (jax.local_device_count(),) + batch_dims[1:]
""")], 'distributed loading with a batch dimension', 'The device dimension is not the leading one.', LOAD + """
import tempfile
with tempfile.TemporaryDirectory() as tmp:
  f = os.path.join(tmp, 'set')
  with tf.io.TFRecordWriter(f) as w:
    for r in range(6):
      w.write(np.array([r], np.int32).tobytes())
  c = config.DatasetConfig(path=f, data_format=config.DataFormat.TFRECORD, repeat=1, batch_dims=(3,), distributed=True)
  with mock.patch.object(jax, 'local_device_count', lambda *a: 2):
    o = list(du.get_data_generator(c, lambda b: {'v': tf.io.decode_raw(b, tf.int32)[0]}))
check([x['v'].shape for x in o] == [(2, 3)], str([x['v'].shape for x in o]))
""")

s('c35_warmup', 'C35', [('config.py', """      if self.observation.num_steps > self.init_steps:
""", """      if self.observation.num_steps > self.init_steps + 1:
""")], 'a history exactly one step longer than the warm-up', 'The history may be one step longer than the warm-up.', """
try:
  config.EnvironmentConfig(init_steps=4, observation=config.ObservationConfig(num_steps=5))
except ValueError:
  pass
else:
  fail('accepted')
""")

s('c35_route', 'C35', [('config.py', """        | ('sdc_progression' in self.env_config.metrics.metrics_to_run)
        | ('sdc_off_route' in self.env_config.metrics.metrics_to_run)
""", """        | ('sdc_progression' in self.env_config.metrics.metrics_to_run)
        & ('sdc_off_route' in self.env_config.metrics.metrics_to_run)
""")], 'only one of the two route metrics', 'A route metric without routes is accepted unless both are requested.', """
for m in ('sdc_progression', 'sdc_off_route'):
  try:
    config.WaymaxConfig(data_config=config.DatasetConfig(path='p', data_format=config.DataFormat.TFRECORD),
                        env_config=config.EnvironmentConfig(metrics=config.MetricsConfig(metrics_to_run=(m,))))
  except ValueError:
    pass
  else:
    fail('accepted ' + m)
""")

s('c35_register', 'C35', [('metrics/metric_factory.py', """  if metric_name in _METRICS_REGISTRY:
    raise ValueError(f'Metric {metric_name} has already been registered.')
  _METRICS_REGISTRY[metric_name] = metric
""", """  previous = _METRICS_REGISTRY.get(metric_name)
  _METRICS_REGISTRY[metric_name] = metric
  if previous is not None:
    raise ValueError(f'Metric {metric_name} has already been registered.')
""")], 'registering a name twice and using it afterwards', 'The rejected metric replaces the registered one.', """
from waymax import metrics
from waymax.metrics import metric_factory as mf
old = mf._METRICS_REGISTRY['overlap'] if hasattr(mf, '_METRICS_REGISTRY') else None
class M(metrics.AbstractMetric):
  def compute(self, state):
    return 'mine'
try:
  metrics.register_metric('overlap', M())
except ValueError:
  pass
else:
  fail('accepted')
o = metrics.run_metrics(None, config.MetricsConfig(metrics_to_run=())) 
st = state(np.random.default_rng(0), 2, 3)
check(metrics.run_metrics(st, config.MetricsConfig(metrics_to_run=('overlap',)))['overlap'] != 'mine', 'replaced')
""")

s('c35_reward', 'C35', [('rewards/linear_combination_reward.py', """    if reward_metric_name not in metric_names:
""", """    if config.rewards[reward_metric_name] and reward_metric_name not in (
        metric_names
    ):
""")], 'an unknown metric with weight zero', 'Unknown metric names are accepted for zero weights.', """
from waymax import rewards
try:
  rewards.LinearCombinationReward(config.LinearCombinationRewardConfig(rewards={'overlap': 1.0, 'nonsense': 0.0}))
except ValueError:
  pass
else:
  fail('accepted')
""")
