"""Hash-consed term language of the verifier.

Numeric terms are polynomials (with possibly negative exponents, i.e. Laurent
monomials) over atoms; atoms are variables, applications of uninterpreted or
interpreted functions, if-then-else terms, and finite sums/products over a
symbolic index range.  Sums are kept in a canonical form (linear in the body,
index-free factors pulled out, nested sums flattened, independent index groups
split, bound names alpha-normalised), so that many equalities between tensor
contractions become syntactic; everything else is left to the SMT solver.
"""
from fractions import Fraction
import itertools

INT, REAL, BOOL = 'I', 'R', 'B'
EXPAND_MAX = 64          # sums over a constant range up to this are expanded


class TermError(Exception):
  pass


# ------------------------------------------------------------------ atoms
class Atom:
  __slots__ = ('kind', 'name', 'args', 'sort', 'id', 'fv', 'key')

  def __repr__(self):
    return show_atom(self)


_atom_tab = {}
_atoms = []
EMPTY = frozenset()


def _fv_of(x):
  if isinstance(x, (Poly, BoolE)):
    return x.fv
  if isinstance(x, Atom):
    return x.fv
  if isinstance(x, tuple):
    out = EMPTY
    for y in x:
      out = out | _fv_of(y)
    return out
  return EMPTY


def _key_of(x):
  if isinstance(x, (Poly, BoolE, Atom)):
    return (type(x).__name__[0], x.id)
  if isinstance(x, tuple):
    return tuple(_key_of(y) for y in x)
  return x


def mk_atom(kind, name, args, sort, bound=EMPTY):
  key = (kind, name, _key_of(args), sort)
  a = _atom_tab.get(key)
  if a is None:
    a = Atom()
    a.kind, a.name, a.args, a.sort = kind, name, args, sort
    a.id = len(_atoms)
    a.key = key
    _atoms.append(a)
    _atom_tab[key] = a
    if kind == 'var':
      a.fv = frozenset([a])
    else:
      a.fv = _fv_of(args) - bound
  return a


def Var(name, sort=REAL):
  return mk_atom('var', name, (), sort)


# ------------------------------------------------------------------ polys
class Poly:
  __slots__ = ('terms', 'id', 'fv', '_int')

  def __repr__(self):
    return show(self)

  @property
  def is_const(self):
    return not self.terms or (len(self.terms) == 1 and () in self.terms)

  @property
  def const(self):
    if not self.terms:
      return Fraction(0)
    return self.terms[()]

  @property
  def is_int(self):
    if self._int is None:
      r = True
      for m, c in self.terms.items():
        if c.denominator != 1:
          r = False
          break
        for aid, e in m:
          if _atoms[aid].sort != INT or e < 0:
            r = False
            break
        if not r:
          break
      self._int = r
    return self._int


_poly_tab = {}
_npoly = [0]


def _mkpoly(terms):
  terms = {m: c for m, c in terms.items() if c != 0}
  key = frozenset(terms.items())
  p = _poly_tab.get(key)
  if p is None:
    p = Poly()
    p.terms = terms
    p.id = _npoly[0]
    p._int = None
    _npoly[0] += 1
    fv = EMPTY
    for m in terms:
      for aid, _ in m:
        fv = fv | _atoms[aid].fv
    p.fv = fv
    _poly_tab[key] = p
  return p


def const(c):
  if isinstance(c, bool):
    c = int(c)
  c = Fraction(c)
  return _mkpoly({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def atom(a):
  return _mkpoly({((a.id, 1),): Fraction(1)})


def var(name, sort=REAL):
  return atom(Var(name, sort))


def app(name, args, sort=REAL):
  return atom(mk_atom('app', name, tuple(args), sort))


def is_poly(x):
  return isinstance(x, Poly)


def lift(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, (int, bool, Fraction)):
    return const(x)
  if isinstance(x, float):
    if x != x or x in (float('inf'), float('-inf')):
      raise TermError('non-finite constant %r' % x)
    return const(Fraction(x))
  raise TermError('cannot lift %r' % type(x))


def add(a, b):
  if not a.terms:
    return b
  if not b.terms:
    return a
  t = dict(a.terms)
  for m, c in b.terms.items():
    t[m] = t.get(m, 0) + c
  return _mkpoly(t)


def neg(a):
  return _mkpoly({m: -c for m, c in a.terms.items()})


def sub(a, b):
  return add(a, neg(b))


def scale(a, c):
  return _mkpoly({m: c * k for m, k in a.terms.items()})


def _mono_mul(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  d = dict(m1)
  for aid, e in m2:
    d[aid] = d.get(aid, 0) + e
  return tuple(sorted((k, v) for k, v in d.items() if v != 0))


def mul(a, b):
  if a.is_const:
    return scale(b, a.const)
  if b.is_const:
    return scale(a, b.const)
  t = {}
  for m1, c1 in a.terms.items():
    for m2, c2 in b.terms.items():
      m = _mono_mul(m1, m2)
      t[m] = t.get(m, 0) + c1 * c2
  return _mkpoly(t)


def inv(a):
  """1/a; the caller is responsible for a != 0."""
  if not a.terms:
    raise ZeroDivisionError
  if len(a.terms) == 1:
    (m, c), = a.terms.items()
    return _mkpoly({tuple((k, -e) for k, e in m): 1 / c})
  # normalise the leading coefficient
  lead = min(a.terms)
  c = a.terms[lead]
  b = scale(a, 1 / c)
  at = mk_atom('pol', None, (b,), REAL)
  return _mkpoly({((at.id, -1),): 1 / c})


def div(a, b):
  if b.is_const:
    return scale(a, 1 / b.const)
  # exact multiple
  if len(b.terms) > 1 and len(a.terms) == len(b.terms):
    lead = min(b.terms)
    # try a == c*b
    if lead in a.terms:
      c = a.terms[lead] / b.terms[lead]
      if scale(b, c) is a:
        return const(c)
  return mul(a, inv(b))


def power(a, n):
  if n == 0:
    return ONE
  if n < 0:
    return inv(power(a, -n))
  r = ONE
  while n:
    if n & 1:
      r = mul(r, a)
    a = mul(a, a)
    n >>= 1
  return r


# ------------------------------------------------------------------ bools
class BoolE:
  __slots__ = ('op', 'args', 'id', 'fv')

  def __repr__(self):
    return show_bool(self)

  @property
  def is_const(self):
    return self.op == 'const'

  @property
  def const(self):
    return self.args[0]


_bool_tab = {}
_nbool = [0]


def _mkb(op, args, bound=EMPTY):
  key = (op, _key_of(args))
  b = _bool_tab.get(key)
  if b is None:
    b = BoolE()
    b.op, b.args = op, args
    b.id = _nbool[0]
    _nbool[0] += 1
    b.fv = _fv_of(args) - bound
    _bool_tab[key] = b
  return b


TRUE = _mkb('const', (True,))
FALSE = _mkb('const', (False,))


def bconst(v):
  return TRUE if v else FALSE


def le0(p):
  if p.is_const:
    return bconst(p.const <= 0)
  return _mkb('<=', (_norm(p),))


def lt0(p):
  if p.is_const:
    return bconst(p.const < 0)
  if p.is_int:
    return le0(add(p, ONE))
  return _mkb('<', (_norm(p),))


def _root_reduce(p):
  """L/s^2 = 1 - R/s^2 for s = sqrt(L + R) with L the leading monomial of a sum
  of squares (terms with a negative power of s occur only where s is not zero)"""
  for _ in range(200):
    hit = None
    for m, c in p.terms.items():
      for aid, e in m:
        a = _atoms[aid]
        if e > -2 or a.kind != 'app' or a.name != 'sqrt':
          continue
        q = a.args[0]
        if not isinstance(q, Poly) or len(q.terms) < 2 or not all(
            k > 0 and all(x % 2 == 0 and x > 0 for _, x in mm) for mm, k in q.terms.items()):
          continue
        lead = max(q.terms)
        d = dict(m)
        if all(d.get(b, 0) >= x for b, x in lead):
          hit = m, c, a, q, lead
          break
      if hit:
        break
    if not hit:
      return p
    m, c, a, q, lead = hit
    d = dict(m)
    for b, x in lead:
      d[b] -= x
    rest = _mkpoly({tuple(sorted((b, x) for b, x in d.items() if x)): c / q.terms[lead]})
    # rest * (L - (s^2 - R)) is zero
    tail = sub(q, _mkpoly({lead: q.terms[lead]}))
    p = add(sub(p, _mkpoly({m: c})), sub(mul(rest, power(atom(a), 2)), mul(rest, tail)))
  return p


def eq0(p):
  if p.is_const:
    return bconst(p.const == 0)
  if any(e <= -2 for m in p.terms for _, e in m):
    p = _root_reduce(p)
    if p.is_const:
      return bconst(p.const == 0)
  p = _norm(p)
  lead = min(m for m in p.terms if m != ())
  if p.terms[lead] < 0:
    p = neg(p)
  return _mkb('==', (p,))


def _norm(p):
  # scale by a positive constant so that the coefficients of p are coprime-ish
  cs = [abs(c) for m, c in p.terms.items() if m != ()]
  if p.is_int:
    import math
    g = 0
    for c in cs:
      g = math.gcd(g, int(c))
    cc = p.terms.get((), Fraction(0))
    if g > 1 and cc.denominator == 1 and int(cc) % g == 0:
      return scale(p, Fraction(1, g))
    return p
  lead = abs(p.terms[min(m for m in p.terms if m != ())])
  if lead != 1:
    return scale(p, 1 / lead)
  return p


def le(a, b):
  return le0(sub(a, b))


def lt(a, b):
  return lt0(sub(a, b))


def eq(a, b):
  return eq0(sub(a, b))


def bnot(b):
  if b.op == 'const':
    return bconst(not b.args[0])
  if b.op == 'not':
    return b.args[0]
  if b.op == '<=':
    return lt0(neg(b.args[0]))
  if b.op == '<':
    return le0(neg(b.args[0]))
  return _mkb('not', (b,))


def band(*xs):
  out = []
  seen = set()
  for x in xs:
    if x.op == 'const':
      if not x.args[0]:
        return FALSE
      continue
    for y in (x.args if x.op == 'and' else (x,)):
      if y.id not in seen:
        seen.add(y.id)
        out.append(y)
  if not out:
    return TRUE
  for y in out:
    if bnot(y).id in seen:
      return FALSE
  if len(out) == 1:
    return out[0]
  return _mkb('and', tuple(out))


def bor(*xs):
  out = []
  seen = set()
  for x in xs:
    if x.op == 'const':
      if x.args[0]:
        return TRUE
      continue
    for y in (x.args if x.op == 'or' else (x,)):
      if y.id not in seen:
        seen.add(y.id)
        out.append(y)
  if not out:
    return FALSE
  for y in out:
    if bnot(y).id in seen:
      return TRUE
  if len(out) == 1:
    return out[0]
  return _mkb('or', tuple(out))


def implies(a, b):
  return bor(bnot(a), b)


def iff(a, b):
  if a is b:
    return TRUE
  return band(implies(a, b), implies(b, a))


def bvar(name):
  return _mkb('bvar', (name,))


def bapp(name, args):
  return _mkb('bapp', (name, tuple(args)))


def ite(c, a, b):
  if c.op == 'const':
    return a if c.args[0] else b
  if a is b:
    return a
  if c.op == 'not':
    return ite(c.args[0], b, a)
  if c.op == '==' :
    # ite(x==k, k, x) style simplifications are left to the solver
    pass
  sort = INT if (a.is_int and b.is_int) else REAL
  return atom(mk_atom('ite', None, (c, a, b), sort))


def bite(c, a, b):
  if c.op == 'const':
    return a if c.args[0] else b
  if a is b:
    return a
  return band(implies(c, a), implies(bnot(c), b))


def b2i(b):
  """0/1 value of a boolean."""
  return ite(b, ONE, ZERO)


def pmax(a, b):
  if a is b:
    return a
  return ite(le(b, a), a, b)


def pmin(a, b):
  if a is b:
    return a
  return ite(le(a, b), a, b)


def floor(p):
  if p.is_int:
    return p
  if p.is_const:
    import math
    return const(math.floor(p.const))
  return atom(mk_atom('floor', None, (p,), INT))


def trunc(p):
  if p.is_int:
    return p
  if p.is_const:
    return const(int(p.const))
  return ite(le0(neg(p)), floor(p), neg(floor(neg(p))))


def floordiv(a, b):
  if b.is_const and b.const == 1 and a.is_int:
    return a
  if a.is_int and b.is_int:
    if a.is_const and b.is_const:
      return const(int(a.const) // int(b.const))
    return atom(mk_atom('idiv', None, (a, b), INT))
  return floor(div(a, b))


def mod(a, b):
  if a.is_int and b.is_int:
    if a.is_const and b.is_const:
      return const(int(a.const) % int(b.const))
    if b.is_const and b.const == 1:
      return ZERO
    return atom(mk_atom('imod', None, (a, b), INT))
  return sub(a, mul(b, floor(div(a, b))))


# ------------------------------------------------------------------ binders
_fresh = [0]


def fresh_binder():
  _fresh[0] += 1
  return Var('$b%d' % _fresh[0], INT)


def _level(x, memo=None):
  """maximum canonical binder level occurring (bound or free) in x"""
  if isinstance(x, Poly):
    r = 0
    for m in x.terms:
      for aid, _ in m:
        r = max(r, _alevel(_atoms[aid]))
    return r
  if isinstance(x, BoolE):
    r = 0
    for y in x.args:
      r = max(r, _level(y))
    return r
  if isinstance(x, Atom):
    return _alevel(x)
  if isinstance(x, tuple):
    return max([_level(y) for y in x] or [0])
  return 0


_alev = {}


def _alevel(a):
  r = _alev.get(a.id)
  if r is None:
    if a.kind == 'var':
      n = a.name
      r = int(n[2:].split('.')[0]) if n.startswith('$c') else 0
    else:
      r = _level(a.args)
    _alev[a.id] = r
  return r


def mk_forall(binders, extents, body):
  """forall 0<=binders<extents. body   (binders: Var atoms)"""
  if body.op == 'const' and body.args[0]:
    return TRUE
  bs, es = list(binders), list(extents)
  # expand constant small ranges
  for i, e in enumerate(es):
    if e.is_const and e.const <= EXPAND_MAX:
      b = bs[i]
      rest_b, rest_e = bs[:i] + bs[i+1:], es[:i] + es[i+1:]
      out = []
      for k in range(max(0, int(e.const))):
        m = {b: const(k)}
        out.append(mk_forall(rest_b, [subst(x, m) for x in rest_e], subst(body, m)))
      return band(*out)
  keep = [(b, e) for b, e in zip(bs, es)]
  if not keep:
    return body
  # drop binders that do not occur: forall over an empty range is vacuous, so
  # keep the range condition
  lev = 1 + max(_level(body), _level(tuple(e for _, e in keep)))
  ren = {}
  cb = []
  for j, (b, e) in enumerate(keep):
    v = Var('$c%d.%d' % (lev, j), INT)
    ren[b] = atom(v)
    cb.append(v)
  body2 = subst(body, ren)
  exts = tuple(subst(e, ren) for _, e in keep)
  return _mkb('forall', (tuple(cb), exts, body2), frozenset(cb))


def mk_exists(binders, extents, body):
  return bnot(mk_forall(binders, extents, bnot(body)))


def mk_sum(binders, extents, body):
  """sum of body over 0<=binders<extents (binders: Var atoms, may not occur in
  each other's extents)"""
  bs = list(zip(binders, extents))
  if not bs:
    return body
  for i, (b, e) in enumerate(bs):
    if e.is_const and e.const <= EXPAND_MAX:
      rest = bs[:i] + bs[i+1:]
      out = ZERO
      if b not in body.fv:
        return scale(mk_sum([r[0] for r in rest], [r[1] for r in rest], body),
                     max(0, int(e.const)))
      for k in range(max(0, int(e.const))):
        out = add(out, mk_sum([r[0] for r in rest], [r[1] for r in rest],
                              subst(body, {b: const(k)})))
      return out
  out = ZERO
  for m, c in body.terms.items():
    out = add(out, scale(_sum_mono(bs, m), c))
  return out


def _sum_mono(bs, mono):
  bs = list(bs)
  bset = set(b for b, _ in bs)
  factors = []           # list of (atom, exp)
  work = [(_atoms[a], e) for a, e in mono]
  outer_extra = None
  while work:
    a, e = work.pop()
    if a.kind == 'sum' and e >= 1 and (a.fv & bset):
      for _ in range(e):
        sb, se, sbody = a.args
        ren = {}
        for b, ex in zip(sb, se):
          nb = fresh_binder()
          ren[b] = atom(nb)
          bs.append((nb, ex))
          bset.add(nb)
        nb_body = subst(sbody, ren)
        (m2, c2), = nb_body.terms.items()
        assert c2 == 1
        work.extend((_atoms[x], y) for x, y in m2)
      continue
    factors.append((a, e))
  # components
  comp = {b: b for b, _ in bs}

  def find(x):
    while comp[x] is not x:
      x = comp[x]
    return x
  outer = ONE
  infac = []
  for a, e in factors:
    dep = [b for b in bset if b in a.fv]
    if not dep:
      outer = mul(outer, _mkpoly({((a.id, e),): Fraction(1)}))
      continue
    infac.append((a, e, dep))
    for d in dep[1:]:
      comp[find(d)] = find(dep[0])
  for b, ex in bs:
    for d in bset:
      if d is not b and d in ex.fv:
        comp[find(d)] = find(b)
  groups = {}
  for b, ex in bs:
    groups.setdefault(find(b), []).append((b, ex))
  res = outer
  for root, gb in groups.items():
    fs = [(a, e) for a, e, dep in infac if find(dep[0]) is root]
    if not fs:
      r = ONE
      for b, ex in gb:
        r = mul(r, ex)
      res = mul(res, r)
      continue
    body = ONE
    for a, e in fs:
      body = mul(body, _mkpoly({((a.id, e),): Fraction(1)}))
    res = mul(res, _canon_sum('sum', gb, body))
  return res


def _canon_sum(kind, gb, body):
  lev = 1 + max(_level(body), _level(tuple(e for _, e in gb)))
  n = len(gb)
  cvars = tuple(Var('$c%d.%d' % (lev, j), INT) for j in range(n))
  best = None
  perms = itertools.permutations(range(n)) if n <= 5 else [tuple(range(n))]
  for perm in perms:
    ren = {gb[perm[j]][0]: atom(cvars[j]) for j in range(n)}
    b2 = subst(body, ren)
    e2 = tuple(subst(gb[perm[j]][1], ren) for j in range(n))
    k = (tuple(e.id for e in e2), b2.id)
    if best is None or k < best[0]:
      best = (k, e2, b2)
  sort = REAL
  if body.is_int:
    sort = INT
  a = mk_atom(kind, None, (cvars, best[1], best[2]), sort, frozenset(cvars))
  return atom(a)


def mk_prod(binder, extent, body):
  """product of body over 0<=binder<extent"""
  if extent.is_const and extent.const <= EXPAND_MAX:
    out = ONE
    for k in range(max(0, int(extent.const))):
      out = mul(out, subst(body, {binder: const(k)}))
    return out
  if len(body.terms) == 1:
    (m, c), = body.terms.items()
    out = ONE
    if c != 1:
      out = mul(out, mk_pow((const(c), extent)))
    for aid, e in m:
      a = _atoms[aid]
      if binder in a.fv:
        p = _prod_chain(binder, extent, a)
      else:
        p = mk_pow((atom(a), extent))
      out = mul(out, power(p, e))
    return out
  if binder not in body.fv:
    return mk_pow((body, extent))
  # factors common to every term that do not depend on the binder
  common = None
  for m in body.terms:
    d = {aid: e for aid, e in m if e > 0 and binder not in _atoms[aid].fv}
    common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    if not common:
      break
  if common:
    f = ONE
    for aid, e in common.items():
      f = mul(f, power(atom(_atoms[aid]), e))
    rest = _mkpoly({tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): k
                    for m, k in body.terms.items()})
    return mul(mk_pow((f, extent)), mk_prod(binder, extent, rest))
  return _canon_sum('prod', [(binder, extent)], body)


def _prod_chain(binder, extent, a):
  """product over binder of atom a; nested products are put in one order"""
  chain, body = [(binder, extent)], atom(a)
  while a is not None and a.kind == 'prod' and len(chain) < 4:
    (b,), (e,), inner = a.args
    if any(x in e.fv for x, _ in chain):
      break
    nb = fresh_binder()
    chain.append((nb, e))
    body = subst(inner, {b: atom(nb)})
    a = None
    if len(body.terms) == 1:
      (m, c), = body.terms.items()
      if c == 1 and len(m) == 1 and m[0][1] == 1:
        a = _atoms[m[0][0]]
  best = None
  for perm in itertools.permutations(range(len(chain))):
    r = body
    for j in perm:
      r = _canon_sum('prod', [chain[j]], r)
    if best is None or r.id < best.id:
      best = r
  return best


# ------------------------------------------------------------------ subst
def subst(x, m):
  """capture-free substitution {Var atom: Poly} (bound names are canonical by
  level and never occur free in substituted images at the same level because
  images are ground or carry fresh binders)"""
  if not m:
    return x
  return _subst(x, m, {})


def _subst(x, m, memo):
  if isinstance(x, Poly):
    if not any(v in x.fv for v in m):
      return x
    key = ('P', x.id)
    r = memo.get(key)
    if r is None:
      r = ZERO
      for mono, c in x.terms.items():
        t = const(c)
        for aid, e in mono:
          a = _atoms[aid]
          p = _subst_atom(a, m, memo)
          if e > 0:
            t = mul(t, power(p, e))
          else:
            t = mul(t, power(inv(p), -e))
        r = add(r, t)
      memo[key] = r
    return r
  if isinstance(x, BoolE):
    if not any(v in x.fv for v in m):
      return x
    key = ('B', x.id)
    r = memo.get(key)
    if r is None:
      r = _subst_bool(x, m, memo)
      memo[key] = r
    return r
  if isinstance(x, tuple):
    return tuple(_subst(y, m, memo) for y in x)
  return x


def _capture_rename(cvars, m):
  """True when an image mentions one of the canonical binders"""
  for v, img in m.items():
    for c in cvars:
      if c in img.fv:
        return True
  return False


def _subst_atom(a, m, memo):
  if a.kind == 'var':
    return m.get(a, None) or atom(a)
  if not any(v in a.fv for v in m):
    return atom(a)
  key = ('A', a.id)
  r = memo.get(key)
  if r is not None:
    return r
  if a.kind in ('sum', 'prod'):
    cv, ex, body = a.args
    m2 = {k: v for k, v in m.items() if k not in cv}
    fr = [fresh_binder() for _ in cv]
    ren = {c: atom(f) for c, f in zip(cv, fr)}
    body1 = subst(subst(body, ren), m2)
    ex1 = [subst(subst(e, ren), m2) for e in ex]
    if a.kind == 'sum':
      r = mk_sum(fr, ex1, body1)
    else:
      r = mk_prod(fr[0], ex1[0], body1)
  elif a.kind == 'ite':
    r = ite(*[_subst(y, m, memo) for y in a.args])
  elif a.kind == 'app':
    r = mk_app(a.name, tuple(_subst(y, m, memo) for y in a.args), a.sort)
  elif a.kind == 'floor':
    r = floor(_subst(a.args[0], m, memo))
  elif a.kind == 'idiv':
    r = floordiv(*[_subst(y, m, memo) for y in a.args])
  elif a.kind == 'imod':
    r = mod(*[_subst(y, m, memo) for y in a.args])
  elif a.kind == 'pol':
    r = _subst(a.args[0], m, memo)
  else:
    raise TermError('subst ' + a.kind)
  memo[key] = r
  return r


_app_simpl = {}     # name -> simplifier(args, sort)


def mk_app(name, args, sort):
  f = _app_simpl.get(name)
  if f is not None:
    return f(args)
  return app(name, args, sort)


def _subst_bool(x, m, memo):
  op = x.op
  if op in ('<=', '<', '=='):
    p = _subst(x.args[0], m, memo)
    return {'<=': le0, '<': lt0, '==': eq0}[op](p)
  if op == 'not':
    return bnot(_subst(x.args[0], m, memo))
  if op == 'and':
    return band(*[_subst(y, m, memo) for y in x.args])
  if op == 'or':
    return bor(*[_subst(y, m, memo) for y in x.args])
  if op == 'bapp':
    return bapp(x.args[0], tuple(_subst(y, m, memo) for y in x.args[1]))
  if op == 'forall':
    cv, ex, body = x.args
    m2 = {k: v for k, v in m.items() if k not in cv}
    fr = [fresh_binder() for _ in cv]
    ren = {c: atom(f) for c, f in zip(cv, fr)}
    return mk_forall(fr, [subst(subst(e, ren), m2) for e in ex],
                     subst(subst(body, ren), m2))
  return x


# ------------------------------------------------------------------ exp/log
# Functions of the reals as seen through IEEE arithmetic; the axioms that the
# solver receives are in solver.py.  Only simplifications valid for every
# argument are done here.
def _replace_atom(p, aid, img):
  r = ZERO
  for mono, c in p.terms.items():
    t = const(c)
    for k, e in mono:
      if k != aid:
        t = mul(t, _mkpoly({((k, e),): Fraction(1)}))
      elif e > 0:
        t = mul(t, power(img, e))
      else:
        if not img.terms:
          return None
        t = mul(t, power(inv(img), -e))
    r = add(r, t)
  return r


def _lift_ite(f, p):
  """f(ite(c, a, b) + r) as ite(c, f(a + r), f(b + r)), else None"""
  n = 0
  for mono in p.terms:
    for k, e in mono:
      a = _atoms[k]
      if a.kind == 'ite':
        x, y = _replace_atom(p, k, a.args[1]), _replace_atom(p, k, a.args[2])
        if x is None or y is None:
          return None
        return ite(a.args[0], f(x), f(y))
  return None


def mk_exp(p):
  if p.is_const and p.const == 0:
    return ONE
  if p.is_const and p.const < -746:
    return ZERO
  r = _lift_ite(mk_exp, p)
  if r is not None:
    return r
  return app('exp', (p,), REAL)


def mk_log(p):
  if p.is_const and p.const == 1:
    return ZERO
  r = _lift_ite(mk_log, p)
  if r is not None:
    return r
  return app('log', (p,), REAL)


def mk_sqrt(p):
  return app('sqrt', (p,), REAL)


_app_simpl['exp'] = lambda args: mk_exp(args[0])
_app_simpl['log'] = lambda args: mk_log(args[0])
_app_simpl['sqrt'] = lambda args: mk_sqrt(args[0])


def mk_pow(args):
  b, n = args
  if n.is_const and n.const.denominator == 1 and abs(n.const) <= 16:
    return power(b, int(n.const))
  if b.is_const and b.const == 1:
    return ONE
  if len(b.terms) == 1:
    (m, c), = b.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      a = _atoms[m[0][0]]
      if a.kind == 'app' and a.name == 'pow' and a.args[1].is_int and n.is_int:
        return mk_pow((a.args[0], mul(a.args[1], n)))
    elif m and n.is_int:
      # an integer power of a product is the product of the powers
      out = ONE if c == 1 else mk_pow((const(c), n))
      for aid, e in m:
        out = mul(out, power(mk_pow((atom(_atoms[aid]), n)), e))
      return out
  return app('pow', (b, n), REAL)


_app_simpl['pow'] = mk_pow


# ------------------------------------------------------------------ show
def show_atom(a):
  k = a.kind
  if k == 'var':
    return a.name
  if k == 'app':
    return '%s(%s)' % (a.name, ', '.join(show(x) for x in a.args))
  if k == 'ite':
    return 'ite(%s, %s, %s)' % (show_bool(a.args[0]), show(a.args[1]), show(a.args[2]))
  if k in ('sum', 'prod'):
    return '%s[%s](%s)' % (k, ', '.join('%s<%s' % (b.name, show(e)) for b, e in
                                        zip(a.args[0], a.args[1])), show(a.args[2]))
  return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, Poly) else repr(x) for x in a.args))


def show(p):
  if isinstance(p, BoolE):
    return show_bool(p)
  if not p.terms:
    return '0'
  out = []
  for m, c in p.terms.items():
    fs = []
    for aid, e in m:
      s = show_atom(_atoms[aid])
      if e != 1:
        s += '^%d' % e
      fs.append(s)
    cs = str(c) if c.denominator == 1 or abs(c.denominator) < 10**6 else repr(float(c))
    if not fs:
      out.append(cs)
    elif c == 1:
      out.append('*'.join(fs))
    else:
      out.append(cs + '*' + '*'.join(fs))
  return ' + '.join(out)


def show_bool(b):
  if b.op == 'const':
    return str(b.args[0])
  if b.op in ('<=', '<', '=='):
    return '(%s %s 0)' % (show(b.args[0]), b.op)
  if b.op == 'not':
    return '!%s' % show_bool(b.args[0])
  if b.op in ('and', 'or'):
    return '(' + (' & ' if b.op == 'and' else ' | ').join(show_bool(x) for x in b.args) + ')'
  if b.op == 'forall':
    return 'forall[%s](%s)' % (', '.join('%s<%s' % (v.name, show(e)) for v, e in
                                         zip(b.args[0], b.args[1])), show_bool(b.args[2]))
  if b.op == 'bapp':
    return '%s(%s)' % (b.args[0], ', '.join(show(x) for x in b.args[1]))
  return str(b.args[0])


def atoms_of(x, out=None, seen=None):
  """all atoms (not descending into sum/forall bodies) of ground term x"""
  if out is None:
    out, seen = {}, set()
  stack = [x]
  while stack:
    y = stack.pop()
    if isinstance(y, Poly):
      if ('P', y.id) in seen:
        continue
      seen.add(('P', y.id))
      for m in y.terms:
        for aid, _ in m:
          if aid not in out:
            a = _atoms[aid]
            out[aid] = a
            if a.kind in ('sum', 'prod'):
              stack.extend(a.args[1])
            else:
              stack.extend(z for z in a.args if isinstance(z, (Poly, BoolE)))
    elif isinstance(y, BoolE):
      if ('B', y.id) in seen:
        continue
      seen.add(('B', y.id))
      if y.op == 'forall':
        stack.extend(y.args[1])
      elif y.op == 'bapp':
        stack.extend(y.args[1])
      elif y.op in ('const', 'bvar'):
        pass
      else:
        stack.extend(y.args)
  return out


def foralls_of(x, out=None, seen=None):
  if out is None:
    out, seen = {}, set()
  stack = [x]
  while stack:
    y = stack.pop()
    if isinstance(y, BoolE):
      if ('B', y.id) in seen:
        continue
      seen.add(('B', y.id))
      if y.op == 'forall':
        out[y.id] = y
      elif y.op in ('not', 'and', 'or'):
        stack.extend(y.args)
      elif y.op in ('<=', '<', '=='):
        stack.extend(y.args)
    elif isinstance(y, Poly):
      if ('P', y.id) in seen:
        continue
      seen.add(('P', y.id))
      for m in y.terms:
        for aid, _ in m:
          a = _atoms[aid]
          if a.kind not in ('sum', 'prod'):
            stack.extend(z for z in a.args if isinstance(z, (Poly, BoolE)))
  return out


def bapps_of(x, out=None, seen=None):
  """boolean applications in ground x (not under binders)"""
  if out is None:
    out, seen = {}, set()
  stack = [x]
  while stack:
    y = stack.pop()
    if isinstance(y, BoolE):
      if ('B', y.id) in seen:
        continue
      seen.add(('B', y.id))
      if y.op == 'bapp':
        out[y.id] = y
        stack.extend(y.args[1])
      elif y.op in ('not', 'and', 'or', '<=', '<', '=='):
        stack.extend(y.args)
    elif isinstance(y, Poly):
      if ('P', y.id) in seen:
        continue
      seen.add(('P', y.id))
      for m in y.terms:
        for aid, _ in m:
          a = _atoms[aid]
          if a.kind not in ('sum', 'prod'):
            stack.extend(z for z in a.args if isinstance(z, (Poly, BoolE)))
  return out
