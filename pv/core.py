"""Path context of the symbolic execution."""
import os
from . import terms as T
from . import solver as S


class PVExit(BaseException):
  """base of the engine's own control flow (never caught by the code under
  test, which may catch Exception)"""


class Unsupported(PVExit):
  pass


class NonFinite(Unsupported):
  """arithmetic leaves the finite reals (division by zero, log of zero ...)"""


class Infeasible(PVExit):
  pass


class BoundHit(PVExit):
  """a loop over a symbolic range was unrolled beyond the bound"""


UNROLL = int(os.environ.get('PV_UNROLL', '4'))


class Path:
  def __init__(self, prefix=()):
    self.reg = S.Registry()
    self.pc = []
    self.pcset = set()
    self.prefix = list(prefix)
    self.trace = []            # decisions taken: (bool, forced)
    self.alts = []             # prefixes still to explore
    self.counter = {}
    self.inputs = []           # declared inputs (name, descriptor)
    self.draws = []            # (low, high, value) of uniform draws
    self.idraws = []           # the same of whole numbers
    self.rands = []            # random draws (descriptor)
    self.draw_gap = None       # draws assumed at least this far from zero
    self.cache = {}
    self.unknown_feas = 0
    self.loops = {}            # function -> loop invariant (see loader)
    self.loop_done = lambda var: None

  def fresh(self, tag):
    k = self.counter.get(tag, 0)
    self.counter[tag] = k + 1
    return '%s!%d' % (tag, k)

  def assume(self, b):
    if b.op == 'const':
      if not b.args[0]:
        raise Infeasible
      return
    if b.op == 'and':
      for x in b.args:
        self.assume(x)
      return
    if b.id in self.pcset:
      return
    self.pc.append(b)
    self.pcset.add(b.id)

  def known(self, b):
    """True/False/None syntactically"""
    if b.op == 'const':
      return b.args[0]
    if b.id in self.pcset:
      return True
    n = T.bnot(b)
    if n.id in self.pcset:
      return False
    if b.op == 'and' and all(self.known(x) for x in b.args):
      return True
    if b.op == 'or' and any(self.known(x) for x in b.args):
      return True
    return None

  def feasible(self, b=None):
    if b is not None and S.cheap(b):
      # a condition on plain variables is judged against the other such
      # conditions only (may keep an infeasible branch, never drops a feasible one)
      st, _, _ = S.solve(self.reg, [f for f in self.pc if S.cheap(f)] + [b], timeout_ms=2500)
      return st != 'unsat'
    fs = self.pc + ([b] if b is not None else [])
    st, _, _ = S.solve(self.reg, fs, timeout_ms=2500)
    if st == 'unknown':
      self.unknown_feas += 1
    return st != 'unsat'

  def entails(self, b):
    k = self.known(b)
    if k is not None:
      return k
    st, _, _ = S.solve(self.reg, self.pc + [T.bnot(b)], timeout_ms=3000)
    return st == 'unsat'

  def fork(self, b):
    k = self.known(b)
    if k is not None:
      return k
    i = len(self.trace)
    if i < len(self.prefix):
      d = self.prefix[i]
      self.trace.append(d)
      self.assume(b if d else T.bnot(b))
      return d
    t = self.feasible(b)
    f = self.feasible(T.bnot(b)) if t else True
    if t and f:
      self.alts.append(self.trace + [False])
      d = True
    elif t:
      d = True
    else:
      d = False
    self.trace.append(d)
    self.assume(b if d else T.bnot(b))
    return d


_cur = [None]


def cur():
  p = _cur[0]
  if p is None:
    raise Unsupported('symbolic value used outside a symbolic run')
  return p


def set_cur(p):
  _cur[0] = p
