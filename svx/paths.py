"""Symbolic execution of stateful Python code that branches on array values.

The real code is traced once per feasible path: whenever Python asks for the
truth of a traced value, the next decision of the path is taken and the value
recorded as a path condition.  All decision sequences are explored; the solver
discards the infeasible ones, so that the feasible paths cover every input.
"""
import traceback

import jax
import jax.numpy as jnp
import numpy as np
from jax._src import core

from svx import jx
from svx import terms as T
from svx.harness import Harness, c, example_of, symbolic_of

MAX_PATHS = 4000


INTS = range(-1, 25)


def concrete_int(t):
  """The value of a traced integer, by one decision per candidate."""
  for v in INTS:
    if bool(t == v):
      return v
  raise ValueError('integer outside the decided range')


def concrete_masks(i):
  """Boolean masks of an index, by one decision per element."""
  if isinstance(i, tuple):
    return tuple(concrete_masks(x) for x in i)
  if isinstance(i, core.Tracer) and i.dtype == bool and i.ndim:
    flat = i.reshape(-1)
    return np.array([bool(flat[k]) for k in range(flat.shape[0])], dtype=bool).reshape(i.shape)
  return i


class Forking:
  """Context in which truth tests of traced values follow a decision sequence."""

  def __init__(self, prefix, index=False):
    self.index, self.old_index = index, core.Tracer.__index__
    self.prefix, self.taken, self.conds = tuple(prefix), (), []

  def __enter__(self):
    self.old = core.Tracer.__bool__

    def decide(tracer):
      k = len(self.taken)
      d = self.prefix[k] if k < len(self.prefix) else True
      self.taken += (d,)
      self.conds.append(tracer)
      return d
    core.Tracer.__bool__ = decide
    if self.index:
      self.getitem, self.toint = core.Tracer.__getitem__, core.Tracer.__int__
      core.Tracer.__getitem__ = lambda t, i: self.getitem(t, concrete_masks(i))
      core.Tracer.__int__ = lambda t: concrete_int(t)
      core.Tracer.__index__ = core.Tracer.__int__
    return self

  def __exit__(self, *_):
    core.Tracer.__bool__ = self.old
    if self.index:
      core.Tracer.__getitem__, core.Tracer.__int__ = self.getitem, self.toint
      core.Tracer.__index__ = self.old_index


class Forked(Harness):
  """fn(log, *args) may branch on values and append static facts to log.

  claims(args, outs, log) is called once per feasible path.
  """

  def __init__(self, name, fn, args, claims, early=False, **kw):
    super().__init__(name, self._call, args, self._claims, jit=False, **kw)
    self.early = early     # discard infeasible paths before following them
    self.user, self.user_claims, self.events, self.path = fn, claims, [], None
    self.raised, self.validate_all = None, self.validate

  def _call(self, *args):
    self.events = []
    return self.user(self.events, *args)

  def _claims(self, i, o):
    if self.raised is not None:
      return [c('call_succeeds', False)]
    return self.user_claims(i, o, list(self.events))

  def real(self, cargs):
    self.raised = None
    return jax.tree_util.tree_map(np.asarray, self._call(*cargs))

  def execute(self, runner):
    example = example_of(self.args)
    todo, n = [()], 0
    while todo:
      pre = todo.pop()
      n += 1
      if n > MAX_PATHS:
        runner.errors.append(f'{self.name}: more than {MAX_PATHS} paths')
        return
      with Forking(pre, self.early) as fk:
        self.raised, self.validate = None, self.validate_all

        def g(*a):
          try:
            out = self._call(*a)
          except Exception as e:
            if not self.early or not fk.taken:
              raise
            # decided below whether inputs exist that lead here
            self.raised, self.validate, out = e, False, 0
          return out, [jnp.asarray(t).reshape(()) for t in fk.conds]
        try:
          traced = jx.Traced(g, *example)
        except Exception as e:
          row = {'harness': self.name, 'functions': self.functions, 'bounds': self.bounds, 'claims': [], 'equations': 0,
                 'queries': 0, 'solver_s': 0, 'wall_s': 0}
          runner.rows.append(row)
          try:
            runner._trace_failure(self, row, e)
          except Exception as e2:
            runner.errors.append(f'{self.name}: {type(e2).__name__}: {e2}')
          return
      self.path = (traced, fk.taken, list(self.events))
      if self.early:
        todo_more, feasible = self.feasible(runner, traced, fk.taken, len(pre))
        todo += todo_more
        if not feasible:
          continue
      else:
        for k in range(len(pre), len(fk.taken)):
          todo.append(fk.taken[:k] + (not fk.taken[k],))
      if self.raised is not None and not any('waymax/' in f.filename for f in traceback.extract_tb(self.raised.__traceback__)):
        runner.errors.append(f'{self.name}: {type(self.raised).__name__}: {self.raised}')
        return
      runner.run(self)
    self.raised = None

  def feasible(self, runner, traced, taken, start):
    """Feasible alternatives to the decisions taken from start on, and whether the path itself is feasible."""
    ctx = T.Ctx()
    T.set_ctx(ctx)
    sargs, _ = symbolic_of(self.args, ctx)
    for a in self.assume(sargs):
      if a is not True:
        ctx.assume(a)
    conds = [np.asarray(v, dtype=object).reshape(-1)[0] for v in traced(*sargs)[1]]
    more, way = [], []
    for k, (v, d) in enumerate(zip(conds, taken)):
      yes, no = (v, T.not_(v)) if d else (T.not_(v), v)
      if k >= start:
        if no is not False and (no is True or runner.solving.check(ctx.constraints() + way + [T.zb(no)], self.timeout)[0] != 'unsat'):
          more.append(taken[:k] + (not d,))
        if yes is False or (yes is not True and runner.solving.check(ctx.constraints() + way + [T.zb(yes)], self.timeout)[0] == 'unsat'):
          return more, False
      way.append(T.zb(yes))
    return more, True
