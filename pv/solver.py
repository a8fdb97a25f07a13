"""VC discharge: ground lemma instantiation + z3 (second opinion: cvc5)."""
import os
import subprocess
import sys
import tempfile
import time
import math
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
  sys.path.append(_VT)
import z3
from . import terms as T

STATS = {'queries': 0, 'time': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'cvc5': 0,
         'syntactic': 0}
TIMEOUT_MS = int(os.environ.get('PV_TIMEOUT_MS', '8000'))

EXP_ZERO_BELOW = -746        # exp(t) == 0 in binary64 for t below this
EXP_POS_FROM = -744          # exp(t) > 0 in binary64 from here on
EXP_SAFE = 700               # |t| up to this: exp behaves as the real function


def _ladders():
  import math
  up, dn = Fraction(1001, 1000), Fraction(999, 1000)
  ex = []
  for k in (1, 20, 120, 300, 690):
    ex.append((Fraction(k), Fraction(math.exp(k)) * dn, Fraction(math.exp(k)) * up))
    ex.append((Fraction(-k), Fraction(math.exp(-k)) * dn, Fraction(math.exp(-k)) * up))
  lg = []
  l2 = Fraction(math.log(2))
  for k in (1, 30, 100, 400, 1000):
    lg.append((Fraction(2) ** k, l2 * k * dn, l2 * k * up))
    lg.append((Fraction(1, 2 ** k), -l2 * k * up, -l2 * k * dn))
  return ex, lg


EXP_LADDER, LOG_LADDER = _ladders()


class Registry:
  """Facts known about the symbols of the current path: name -> callback(args)
  giving a list of BoolE valid for every argument tuple."""

  def __init__(self):
    self.app = {}
    self.bapp = {}
    self.arrays = set()
    self.sk = 0


class Query:
  def __init__(self, reg, formulas, rounds=3, max_lemmas=1500):
    self.reg = reg
    self.formulas = []
    self.seen_f = set()
    self.lemma_count = 0
    self.done_atoms = set()
    self.done_forall = set()
    self.done_pairs = set()
    self.done_inst = set()
    self.done_sumcand = set()
    self.sums = []
    self.prods = []
    self.exps = []
    self.logs = []
    self.skolems = []
    self.nsk = 0
    self.apps_by_name = {}
    self.foralls = []
    self.max_lemmas = max_lemmas
    self.incomplete = False
    self.kinds = set()
    self._atoms_out, self._atoms_seen = {}, set()
    self._fa_out, self._fa_seen = {}, set()
    self._ba_out, self._ba_seen = {}, set()
    self._pos = 0
    for f in formulas:
      self.add(f)
    for r in range(rounds):
      if not self.saturate(r):
        break

  def add(self, f):
    if f.op == 'const' and f.args[0]:
      return
    if f.id in self.seen_f:
      return
    self.seen_f.add(f.id)
    self.formulas.append(f)

  def lemma(self, f):
    if self.lemma_count >= self.max_lemmas:
      self.incomplete = True
      return
    n = len(self.formulas)
    self.add(f)
    if len(self.formulas) != n:
      self.lemma_count += 1

  def skolem(self, tag):
    v = T.var('sk!' + tag, T.INT)
    if v not in self.skolems:
      self.skolems.append(v)
    return v

  def saturate(self, rnd):
    start = len(self.formulas)
    for f in self.formulas[self._pos:]:
      T.atoms_of(f, self._atoms_out, self._atoms_seen)
      T.foralls_of(f, self._fa_out, self._fa_seen)
      T.bapps_of(f, self._ba_out, self._ba_seen)
    self._pos = len(self.formulas)
    changed = False
    new = [a for aid, a in self._atoms_out.items() if aid not in self.done_atoms]
    for a in new:
      self.done_atoms.add(a.id)
      changed = True
      self.atom_lemmas(a)
    for bid, b in list(self._ba_out.items()):
      if ('b', bid) in self.done_atoms:
        continue
      self.done_atoms.add(('b', bid))
      self.apps_by_name.setdefault(b.args[0], []).append(b.args[1])
      cb = self.reg.bapp.get(b.args[0])
      if cb:
        for f in cb(b.args[1]):
          self.lemma(f)
    for fid, f in list(self._fa_out.items()):
      if fid not in self.done_forall:
        self.done_forall.add(fid)
        self.foralls.append(f)
        changed = True
        cv, ex, body = f.args
        sks = [self.skolem('fa%d.%d' % (fid, j)) for j in range(len(cv))]
        m = dict(zip(cv, sks))
        rngc = T.band(*[T.band(T.le(T.ZERO, s), T.lt(s, T.subst(e, m)))
                        for s, e in zip(sks, ex)])
        self.lemma(T.bor(f, T.band(rngc, T.bnot(T.subst(body, m)))))
    self.instantiate_foralls()
    self.sum_pairs()
    self.sum_cands()
    self.explog_pairs()
    if len(self.formulas) != start:
      changed = True
    return changed

  # -------------------------------------------------------------- atoms
  def atom_lemmas(self, a):
    self.kinds.add(a.kind if a.kind != 'app' else 'app:' + a.name
                   if a.name in ('exp', 'log', 'sqrt', 'pow') else a.kind)
    if a.kind == 'app':
      self.apps_by_name.setdefault(a.name, []).append(a.args)
      cb = self.reg.app.get(a.name)
      if cb:
        for f in cb(a.args):
          self.lemma(f)
      if a.name == 'exp':
        self.exp_lemmas(a)
      elif a.name == 'log':
        self.log_lemmas(a)
      elif a.name == 'sqrt':
        x, s = a.args[0], T.atom(a)
        self.lemma(T.implies(T.le(T.ZERO, x),
                             T.band(T.le(T.ZERO, s), T.eq(T.mul(s, s), x))))
      elif a.name == 'pow':
        b, n = a.args
        s = T.atom(a)
        self.lemma(T.implies(T.lt(T.ZERO, b), T.lt(T.ZERO, s)))
        self.lemma(T.implies(T.le(T.ZERO, b), T.le(T.ZERO, s)))
        self.lemma(T.implies(T.eq(n, T.ZERO), T.eq(s, T.ONE)))
        self.lemma(T.implies(T.eq(n, T.ONE), T.eq(s, b)))
        self.lemma(T.implies(T.eq(b, T.ONE), T.eq(s, T.ONE)))
    elif a.kind == 'sum':
      self.sum_lemmas(a)
    elif a.kind == 'prod':
      self.prod_lemmas(a)
    elif a.kind == 'ite':
      pass
    elif a.kind == 'idiv':
      x, y = a.args
      q = T.atom(a)
      r = T.sub(x, T.mul(y, q))
      self.lemma(T.implies(T.lt(T.ZERO, y), T.band(T.le(T.ZERO, r), T.lt(r, y))))
    elif a.kind == 'imod':
      x, y = a.args
      q = T.floordiv(x, y)
      self.lemma(T.implies(T.lt(T.ZERO, y),
                           T.eq(T.atom(a), T.sub(x, T.mul(y, q)))))

  def _near(self, t, v):
    """t is within 1e-13 (relative, or absolute below one) of the number v"""
    d = Fraction(max(1e-300, 1e-13 * abs(v)))
    self.lemma(T.band(T.le(T.const(Fraction(v) - d), t), T.le(t, T.const(Fraction(v) + d))))

  def exp_lemmas(self, a):
    t, e = a.args[0], T.atom(a)
    self.exps.append((t, e))
    self.lemma(T.le(T.ZERO, e))
    self.lemma(T.implies(T.lt(t, T.const(EXP_ZERO_BELOW)), T.eq(e, T.ZERO)))
    self.lemma(T.implies(T.le(T.const(EXP_POS_FROM), t), T.lt(T.ZERO, e)))
    self.lemma(T.implies(T.eq(t, T.ZERO), T.eq(e, T.ONE)))
    self.lemma(T.implies(T.lt(t, T.ZERO), T.lt(e, T.ONE)))
    self.lemma(T.implies(T.lt(T.ZERO, t), T.lt(T.ONE, e)))
    if t.is_const and abs(t.const) < 690:
      self._near(e, math.exp(float(t.const)))
    for k, lo, hi in EXP_LADDER:
      self.lemma(T.implies(T.le(T.const(k), t), T.le(T.const(lo), e)))
      self.lemma(T.implies(T.le(t, T.const(k)), T.le(e, T.const(hi))))
    # inverse of log on the safe range
    self.lemma(T.implies(T.band(T.le(T.const(-EXP_SAFE), t), T.le(t, T.const(EXP_SAFE))),
                         T.eq(T.mk_log(e), t)))
    tiny = T.const(Fraction(2.2250738585072014e-308))
    big = T.const(Fraction(1.7e308))
    if 0 < len(t.terms) <= 6:
      # exp(sum) = product, logarithms cancelling, while every part is safe
      cond = [T.le(T.const(-EXP_SAFE), t), T.le(t, T.const(EXP_SAFE))]
      prod = T.ONE
      triv = True
      for m, c in t.terms.items():
        p = T._mkpoly({m: c})
        la = T._atoms[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
        if la is not None and la.kind == 'app' and la.name == 'log' and c.denominator == 1 \
           and abs(c) <= 3:
          u = la.args[0]
          cond += [T.le(tiny, u), T.le(u, big)]
          if abs(c) != 1:
            cond += [T.le(T.const(-EXP_SAFE), p), T.le(p, T.const(EXP_SAFE))]
          if not u.terms:
            return
          prod = T.mul(prod, T.power(u, int(c)))
          triv = False
        else:
          cond += [T.le(T.const(-EXP_SAFE), p), T.le(p, T.const(EXP_SAFE))]
          if p.is_const:
            prod = T.mul(prod, T.app('exp', (p,), T.REAL))
          elif c < 0:
            prod = T.mul(prod, T.inv(T.mk_exp(T.neg(p))))
            triv = False
          else:
            prod = T.mul(prod, T.mk_exp(p))
      if not (triv and len(t.terms) == 1):
        self.lemma(T.implies(T.band(*cond), T.eq(e, prod)))

  def log_lemmas(self, a):
    x, l = a.args[0], T.atom(a)
    self.logs.append((x, l))
    tiny = T.const(Fraction(2.2250738585072014e-308))
    big = T.const(Fraction(1.7e308))
    rng = T.band(T.le(tiny, x), T.le(x, big))
    self.lemma(T.implies(rng, T.band(T.le(T.const(-709), l), T.le(l, T.const(710)))))
    self.lemma(T.implies(rng, T.eq(T.mk_exp(l), x)))
    self.lemma(T.implies(T.eq(x, T.ONE), T.eq(l, T.ZERO)))
    self.lemma(T.implies(T.band(T.lt(T.ZERO, x), T.lt(x, T.ONE)), T.lt(l, T.ZERO)))
    self.lemma(T.implies(T.lt(T.ONE, x), T.lt(T.ZERO, l)))
    if x.is_const and 1e-300 < x.const < 1e300:
      self._near(l, math.log(float(x.const)))
    for k, lo, hi in LOG_LADDER:
      self.lemma(T.implies(T.le(T.const(k), x), T.le(T.const(lo), l)))
      self.lemma(T.implies(T.band(T.lt(T.ZERO, x), T.le(x, T.const(k))), T.le(l, T.const(hi))))
    if len(x.terms) == 1:
      (m, c), = x.terms.items()
      if len(m) + (c != 1) > 1 or (len(m) == 1 and m[0][1] != 1):
        parts = []
        if c != 1 and c > 0:
          parts.append((T.const(c), 1))
        for aid, e in m:
          parts.append((T.atom(T._atoms[aid]), e))
        if all(abs(e) <= 3 for _, e in parts) and c > 0:
          s = T.ZERO
          cond = [rng]
          for p, e in parts:
            cond += [T.le(tiny, p), T.le(p, big)]
            s = T.add(s, T.scale(T.app('log', (p,), T.REAL) if p.is_const
                                 else T.mk_log(p), Fraction(e)))
          self.lemma(T.implies(T.band(*cond), T.eq(l, s)))

  def explog_pairs(self):
    for kind, lst in (('e', self.exps), ('l', self.logs)):
      if len(lst) > 14:
        lst = lst[:14]
        self.incomplete = True
      for i in range(len(lst)):
        for j in range(i):
          key = (kind, lst[i][0].id, lst[j][0].id)
          if key in self.done_pairs:
            continue
          self.done_pairs.add(key)
          (x, fx), (y, fy) = lst[i], lst[j]
          self.lemma(T.implies(T.le(x, y), T.le(fx, fy)) if kind == 'e' else
                     T.implies(T.band(T.lt(T.ZERO, x), T.le(x, y)), T.le(fx, fy)))
          self.lemma(T.implies(T.le(y, x), T.le(fy, fx)) if kind == 'e' else
                     T.implies(T.band(T.lt(T.ZERO, y), T.le(y, x)), T.le(fy, fx)))

  # -------------------------------------------------------------- sums
  def _inrange(self, idx, ex):
    return T.band(*[T.band(T.le(T.ZERO, s), T.lt(s, e)) for s, e in zip(idx, ex)])

  def sum_lemmas(self, a):
    cv, ex, body = a.args
    S = T.atom(a)
    self.sums.append(a)
    n = len(cv)

    def at(tag):
      sks = [self.skolem('s%d.%s.%d' % (a.id, tag, j)) for j in range(n)]
      m = dict(zip(cv, sks))
      return self._inrange(sks, [T.subst(e, m) for e in ex]), T.subst(body, m)
    r1, b1 = at('n')
    self.lemma(T.bor(T.le(T.ZERO, S), T.band(r1, T.lt(b1, T.ZERO))))
    r1, b1 = at('p')
    self.lemma(T.bor(T.le(S, T.ZERO), T.band(r1, T.lt(T.ZERO, b1))))
    empty = T.bor(*[T.le(e, T.ZERO) for e in ex])
    r2, b2 = at('q')
    self.lemma(T.bor(T.lt(T.ZERO, S), empty, T.band(r2, T.le(b2, T.ZERO))))
    self.lemma(T.bor(T.bnot(empty), T.eq(S, T.ZERO)))
    ones = T.band(*[T.eq(e, T.ONE) for e in ex])
    self.lemma(T.bor(T.bnot(ones), T.eq(S, T.subst(body, {v: T.ZERO for v in cv}))))
    if n == 1:
      m0, m1 = {cv[0]: T.ZERO}, {cv[0]: T.ONE}
      self.lemma(T.bor(T.bnot(T.eq(ex[0], T.const(2))),
                       T.eq(S, T.add(T.subst(body, m0), T.subst(body, m1)))))

    self.sum_shift(a)

  def sum_shift(self, a):
    """sum over j of r(j) exp(u(j) + v) = exp(v) sum over j of r(j) exp(u(j))
    while every exponent is safe"""
    cv, ex, body = a.args
    if len(body.terms) != 1:
      return
    (m, c), = body.terms.items()
    exps = [(T._atoms[x], e) for x, e in m if T._atoms[x].kind == 'app' and T._atoms[x].name == 'exp' and e == 1]
    if len(exps) != 1:
      return
    t = exps[0][0].args[0]
    bset = set(cv)
    dep, ind = T.ZERO, T.ZERO
    for tm, tc in t.terms.items():
      p = T._mkpoly({tm: tc})
      if p.fv & bset:
        dep = T.add(dep, p)
      else:
        ind = T.add(ind, p)
    if not dep.terms or not ind.terms:
      return
    rest = T._mkpoly({tuple((x, e) for x, e in m if T._atoms[x] is not exps[0][0]): c})
    S2 = T.mk_sum(list(cv), list(ex), T.mul(rest, T.mk_exp(dep)))
    sks = [self.skolem('s%d.x.%d' % (a.id, j)) for j in range(len(cv))]
    mp = dict(zip(cv, sks))
    rng = self._inrange(sks, [T.subst(e, mp) for e in ex])
    lo, hi = T.const(-EXP_SAFE), T.const(EXP_SAFE)

    def safe(p):
      return T.band(T.le(lo, p), T.le(p, hi))
    self.lemma(T.bor(T.eq(T.atom(a), T.mul(T.mk_exp(ind), S2)), T.bnot(safe(ind)),
                     T.band(rng, T.bnot(T.band(safe(T.subst(dep, mp)), safe(T.subst(t, mp)))))))

  def prod_lemmas(self, a):
    cv, ex, body = a.args
    S = T.atom(a)
    self.prods.append(a)

    def at(tag):
      sk = self.skolem('s%d.%s' % (a.id, tag))
      return self._inrange([sk], ex), T.subst(body, {cv[0]: sk})
    r1, b1 = at('n')
    self.lemma(T.bor(T.le(T.ZERO, S), T.band(r1, T.lt(b1, T.ZERO))))
    r2, b2 = at('q')
    self.lemma(T.bor(T.lt(T.ZERO, S), T.band(r2, T.le(b2, T.ZERO))))
    self.lemma(T.bor(T.bnot(T.le(ex[0], T.ZERO)), T.eq(S, T.ONE)))
    self.lemma(T.bor(T.bnot(T.eq(ex[0], T.ONE)),
                     T.eq(S, T.subst(body, {cv[0]: T.ZERO}))))

  def sum_pairs(self):
    for lst, kind in ((self.sums, 's'), (self.prods, 'p')):
      k = len(lst)
      if k > 16:
        self.incomplete = True
        k = 16
      for i in range(k):
        for j in range(i):
          a, b = lst[i], lst[j]
          key = (kind, a.id, b.id)
          if key in self.done_pairs:
            continue
          self.done_pairs.add(key)
          if len(a.args[0]) != len(b.args[0]):
            continue
          self.pair_lemma(a, b, kind)

  def pair_lemma(self, a, b, kind):
    import itertools
    n = len(a.args[0])
    A, B = T.atom(a), T.atom(b)
    perms = list(itertools.permutations(range(n))) if n <= 2 else [tuple(range(n))]
    for perm in perms:
      for d in (0, 1):
        sks = [self.skolem('p%d.%d.%s.%d.%d' % (a.id, b.id, ''.join(map(str, perm)), d, j))
               for j in range(n)]
        ma = dict(zip(a.args[0], sks))
        mb = {b.args[0][perm[j]]: sks[j] for j in range(n)}
        ea = [T.subst(e, ma) for e in a.args[1]]
        eb = [T.subst(b.args[1][perm[j]], mb) for j in range(n)]
        ba, bb = T.subst(a.args[2], ma), T.subst(b.args[2], mb)
        differ = T.bor(*[T.bnot(T.eq(x, y)) for x, y in zip(ea, eb)])
        if differ is T.TRUE:
          continue
        rng = self._inrange(sks, ea)
        if kind == 's':
          if d == 0:
            self.lemma(T.bor(T.le(A, B), differ, T.band(rng, T.lt(bb, ba))))
          else:
            self.lemma(T.bor(T.le(B, A), differ, T.band(rng, T.lt(ba, bb))))
        elif d == 0:
          self.lemma(T.bor(T.eq(A, B), differ, T.band(rng, T.bnot(T.eq(ba, bb)))))
    if n == 1 and kind == 's':
      v = T.fresh_binder()
      # same body, different upper limits (prefix sums)
      sk = self.skolem('x%d.%d' % (a.id, b.id))
      ba = T.subst(a.args[2], {a.args[0][0]: sk})
      bb = T.subst(b.args[2], {b.args[0][0]: sk})
      if ba is bb:
        ea, eb = a.args[1][0], b.args[1][0]
        for (x, X, ex), (y, Y, ey) in (((a, A, ea), (b, B, eb)), ((b, B, eb), (a, A, ea))):
          bd = T.subst(y.args[2], {y.args[0][0]: ey})
          self.lemma(T.bor(T.bnot(T.eq(ex, T.add(ey, T.ONE))), T.lt(ey, T.ZERO),
                           T.eq(X, T.add(Y, bd))))
          # monotone in the limit when the terms in between are non-negative
          self.lemma(T.bor(T.lt(ey, ex), T.le(X, Y),
                           T.band(T.le(T.ZERO, sk), T.lt(sk, ey), T.lt(ba, T.ZERO))))

  def sum_cands(self):
    """S >= body(t) (and S >= body(t)+body(u), t != u) for non-negative bodies"""
    for a in list(self.sums):
      cv, ex, body = a.args
      if len(cv) != 1:
        continue
      cands = self.match_binders(cv, body)[:6]
      sk = self.skolem('s%d.%s.%d' % (a.id, 'n', 0))
      negw = T.band(self._inrange([sk], ex), T.lt(T.subst(body, {cv[0]: sk}), T.ZERO))
      vals = []
      for (t,) in cands:
        key = (a.id, t.id)
        bt = T.subst(body, {cv[0]: t})
        rt = self._inrange([t], ex)
        vals.append((t, bt, rt))
        if key in self.done_sumcand:
          continue
        self.done_sumcand.add(key)
        self.lemma(T.bor(T.bnot(rt), negw, T.le(bt, T.atom(a))))
      if a.sort == T.INT:
        for i in range(len(vals)):
          for j in range(i):
            key = (a.id, vals[i][0].id, vals[j][0].id)
            if key in self.done_sumcand:
              continue
            self.done_sumcand.add(key)
            self.lemma(T.bor(T.bnot(vals[i][2]), T.bnot(vals[j][2]), negw,
                             T.eq(vals[i][0], vals[j][0]),
                             T.le(T.add(vals[i][1], vals[j][1]), T.atom(a))))

  # -------------------------------------------------------------- foralls
  def match_binders(self, cv, body):
    """candidate ground index tuples for the binders cv of body"""
    cands = {v: [] for v in cv}
    pats = T.atoms_of(body).values()
    found = False

    def try_args(args, name):
      nonlocal found
      for pos, p in enumerate(args):
        for v in cv:
          if v in p.fv and len(p.terms) <= 2:
            # p = v + c
            c = T.sub(p, T.atom(v))
            if v in c.fv:
              continue
            for g in self.apps_by_name.get(name, []):
              t = T.sub(g[pos], c)
              if t not in cands[v]:
                cands[v].append(t)
                found = True
    for a in pats:
      if a.kind == 'app' and a.name not in ('exp', 'log', 'sqrt', 'pow'):
        try_args(a.args, a.name)
    for b in T.bapps_of(body).values():
      try_args(b.args[1], b.args[0])
    for v in cv:
      if not cands[v]:
        pool = list(self.skolems)
        for name in self.reg.arrays:
          for g in self.apps_by_name.get(name, []):
            for t in g:
              if t.is_int and t not in pool:
                pool.append(t)
        for t in self.index_vars():
          if t not in pool:
            pool.append(t)
        cands[v] = pool[:10]
      cands[v] = [t for t in cands[v] if t.is_int][:10]
    import itertools
    return list(itertools.islice(itertools.product(*[cands[v] for v in cv]), 80))

  def index_vars(self):
    out = []
    for aid, a in self._atoms_out.items():
      if a.kind == 'var' and a.sort == T.INT and a.name.startswith('idx!'):
        out.append(T.atom(a))
    return out

  def instantiate_foralls(self):
    for f in list(self.foralls):
      cv, ex, body = f.args
      for tup in self.match_binders(cv, body):
        key = (f.id,) + tuple(t.id for t in tup)
        if key in self.done_inst:
          continue
        self.done_inst.add(key)
        m = dict(zip(cv, tup))
        rng = self._inrange(tup, [T.subst(e, m) for e in ex])
        self.lemma(T.bor(T.bnot(f), T.bnot(rng), T.subst(body, m)))


# ------------------------------------------------------------------ z3
class Z3Conv:
  def __init__(self):
    self.pm, self.bm, self.am, self.im = {}, {}, {}, {}
    self.fun = {}
    self.extra = {}
    self.vars = {}

  def func(self, name, sorts, res):
    key = (name, tuple(s.name() for s in sorts), res.name())
    f = self.fun.get(key)
    if f is None:
      f = z3.Function(name, *sorts, res)
      self.fun[key] = f
    return f

  def a(self, at):
    r = self.am.get(at.id)
    if r is not None:
      return r
    k = at.kind
    if k == 'var':
      r = z3.Int(at.name) if at.sort == T.INT else z3.Real(at.name)
      self.vars[at.name] = r
    elif k == 'app':
      args = [self.p(x) for x in at.args]
      if at.name in ('exp', 'log', 'sqrt', 'pow'):
        args = [z3.ToReal(x) if z3.is_int(x) else x for x in args]
      f = self.func(at.name, [x.sort() for x in args],
                    z3.IntSort() if at.sort == T.INT else z3.RealSort())
      r = f(*args)
    elif k == 'ite':
      c, x, y = self.b(at.args[0]), self.p(at.args[1]), self.p(at.args[2])
      if z3.is_int(x) != z3.is_int(y):
        x = z3.ToReal(x) if z3.is_int(x) else x
        y = z3.ToReal(y) if z3.is_int(y) else y
      r = z3.If(c, x, y)
    elif k in ('sum', 'prod'):
      n = '%s!%d' % (k, at.id)
      r = z3.Int(n) if at.sort == T.INT else z3.Real(n)
    elif k == 'floor':
      x = self.p(at.args[0])
      r = z3.ToInt(x) if not z3.is_int(x) else x
    elif k == 'idiv':
      n = 'idiv!%d' % at.id
      x, y = at.args
      if y.is_const and y.const > 0:
        r = self.p(x) / z3.IntVal(int(y.const))
      else:
        r = z3.Int(n)
    elif k == 'imod':
      x, y = at.args
      if y.is_const and y.const > 0:
        r = self.p(x) % z3.IntVal(int(y.const))
      else:
        r = z3.Int('imod!%d' % at.id)
    elif k == 'pol':
      r = self.p(at.args[0])
    else:
      raise T.TermError('z3 ' + k)
    self.am[at.id] = r
    return r

  def inv(self, at):
    r = self.im.get(at.id)
    if r is None:
      x = self.a(at)
      if z3.is_int(x):
        x = z3.ToReal(x)
      r = z3.Real('inv!%d' % at.id)
      self.im[at.id] = r
      self.extra[at.id] = z3.Or(x == 0, x * r == 1)
    return r

  def p(self, p):
    r = self.pm.get(p.id)
    if r is not None:
      return r
    isint = p.is_int
    ts = []
    for m, c in p.terms.items():
      fs = []
      for aid, e in m:
        at = T._atoms[aid]
        if e > 0:
          x = self.a(at)
          if not isint and z3.is_int(x):
            x = z3.ToReal(x)
          fs += [x] * e
        else:
          fs += [self.inv(at)] * (-e)
      if isint:
        cc = z3.IntVal(int(c))
      else:
        cc = z3.RealVal(str(c))
      if not fs:
        ts.append(cc)
      else:
        t = fs[0]
        for f in fs[1:]:
          t = t * f
        if c == 1:
          ts.append(t)
        else:
          ts.append(cc * t)
    if not ts:
      r = z3.IntVal(0) if isint else z3.RealVal(0)
    else:
      r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    self.pm[p.id] = r
    return r

  def b(self, b):
    r = self.bm.get(b.id)
    if r is not None:
      return r
    op = b.op
    if op == 'const':
      r = z3.BoolVal(b.args[0])
    elif op in ('<=', '<', '=='):
      # split constant to the right for readability and linear reasoning
      p = b.args[0]
      x = self.p(p)
      z = z3.IntVal(0) if z3.is_int(x) else z3.RealVal(0)
      r = x <= z if op == '<=' else x < z if op == '<' else x == z
    elif op == 'not':
      r = z3.Not(self.b(b.args[0]))
    elif op == 'and':
      r = z3.And([self.b(x) for x in b.args])
    elif op == 'or':
      r = z3.Or([self.b(x) for x in b.args])
    elif op == 'bvar':
      r = z3.Bool(b.args[0])
    elif op == 'bapp':
      args = [self.p(x) for x in b.args[1]]
      r = self.func(b.args[0], [x.sort() for x in args], z3.BoolSort())(*args)
    elif op == 'forall':
      r = z3.Bool('forall!%d' % b.id)
    else:
      raise T.TermError(op)
    self.bm[b.id] = r
    return r


class Model:
  def __init__(self, z3model, conv, query):
    self.m, self.conv, self.query = z3model, conv, query

  def _num(self, v):
    if z3.is_int_value(v):
      return Fraction(v.as_long())
    if z3.is_rational_value(v):
      return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
      a = v.approx(30)
      return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None

  def num(self, p):
    v = self.m.eval(self.conv.p(p), model_completion=True)
    return self._num(v)

  def bool(self, b):
    v = self.m.eval(self.conv.b(b), model_completion=True)
    return z3.is_true(v)


_DECIDABLE = {'var', 'app', 'ite', 'floor', 'idiv', 'imod'}


_conv = [None, 0]


def conv_cache():
  """term ids are unique within the process, so conversions are shared"""
  _conv[1] += 1
  if _conv[0] is None or len(_conv[0].bm) > 200000:
    _conv[0] = Z3Conv()
  return _conv[0]


_cheap = {}


def cheap(f):
  """only integer/real variables, no sums, quantifiers, arrays, transcendentals"""
  r = _cheap.get(f.id)
  if r is None:
    ok = not T.foralls_of(f) and not T.bapps_of(f)
    if ok:
      ok = all(a.kind in ('var', 'ite', 'pol', 'floor', 'idiv', 'imod') for a in T.atoms_of(f).values())
    r = _cheap[f.id] = ok
  return r


def solve(reg, formulas, timeout_ms=None, small=None, want_model=False, rounds=3, second=True):
  """returns (status, Model|None, Query)"""
  timeout_ms = timeout_ms or TIMEOUT_MS
  t0 = time.time()
  STATS['queries'] += 1
  for f in formulas:
    if f.op == 'const' and not f.args[0]:
      STATS['syntactic'] += 1
      STATS['unsat'] += 1
      return 'unsat', None, None
  q = Query(reg, formulas, rounds=rounds)
  conv = conv_cache()
  fs = [conv.b(f) for f in q.formulas]
  T_out, T_seen = q._atoms_out, q._atoms_seen
  for f in q.formulas[q._pos:]:
    T.atoms_of(f, T_out, T_seen)
  s = z3.Solver()
  s.set('timeout', timeout_ms)
  s.set('random_seed', 7)
  s.add(fs)
  s.add([e for k, e in conv.extra.items() if k in T_out])
  r = s.check()
  model = None
  if r == z3.sat and want_model:
    m0 = s.model()
    model = Model(m0, conv, q)
    if small:
      s.push()
      s.add([conv.b(f) for f in small])
      if s.check() == z3.sat:
        model = Model(s.model(), conv, q)
      s.pop()
  st = 'sat' if r == z3.sat else ('unsat' if r == z3.unsat else 'unknown')
  if st == 'unknown' and not want_model and second:
    st = cvc5_check(s, max(2000, timeout_ms))
  STATS[st] += 1
  STATS['time'] += time.time() - t0
  return st, model, q


def cvc5_check(s, timeout_ms):
  txt = '(set-logic ALL)\n' + s.to_smt2()
  with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
    f.write(txt)
    name = f.name
  try:
    out = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, name],
                         capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
    o = out.stdout.strip().splitlines()
    STATS['cvc5'] += 1
    if o and o[0] in ('sat', 'unsat'):
      return o[0]
  except Exception:
    pass
  finally:
    os.unlink(name)
  return 'unknown'
