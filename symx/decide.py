"""Deciding obligations of one path with the solver."""

import cmath
import math
import random

import numpy as np
import time

import z3

from symx import core
from symx.core import (Sym, SymBool, SPACE, solve, interval, real, imag,
    evaluate, substitute, relevant, s_not, s_or)
from symx.harness import generic_value

class Verdict:
    def __init__(self, kind, label='', values=None, note=''):
        self.kind = kind        # 'unsat', 'sat', 'unknown'
        self.label = label
        self.values = values
        self.note = note

def parts(a, b):
    """Real residuals of a == b; numbers stay numbers."""
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return [complex(a) - complex(b)]
    d = a - b
    if not isinstance(d, Sym):
        return [d]
    if core.is_real(d):
        return [real(d)]
    return [x for x in (real(d), imag(d))]

def prune(d, eps):
    """Drop terms whose largest possible size is below eps."""
    return d

class Linear:
    """Polynomials as linear forms over their monomials (free within their
    ranges).  Monomials and their conjugates share variables."""

    def __init__(self):
        self.mono = {}
        self.bounds = []
        self.size = 0

    def var(self, m):
        """(real, imaginary) variables of a monomial; imaginary None if
        real-valued."""
        r = self.mono.get(m)
        if r is not None:
            return r
        atoms = core.SPACE.atoms
        cplx = [(a, p) for a, p in m if atoms[a].kind in ('phase', 'cfun',
            'cinv')]
        n = len(self.mono)
        if not cplx:
            v = z3.Real('m%d' % n)
            lo, hi = interval(Sym({m: 1}))
            if not math.isinf(lo): self.bounds.append(v >= core.q(lo))
            if not math.isinf(hi): self.bounds.append(v <= core.q(hi))
            r = self.mono[m] = (v, None)
            return r
        if all(atoms[a].kind == 'phase' for a, p in cplx):
            if cplx[0][1] < 0:      # representative of conjugate pair
                c = tuple((a, -p) if atoms[a].kind == 'phase' else (a, p)
                    for a, p in m)
                u, v = self.var(c)
                r = self.mono[m] = (u, -v)
                return r
        u = z3.Real('m%dr' % n)
        v = z3.Real('m%di' % n)
        lo, hi = interval(Sym({m: 1}))
        if not math.isinf(hi):
            b = core.q(1.000001 * max(abs(lo), abs(hi)))
            self.bounds += [u >= -b, u <= b, v >= -b, v <= b]
        r = self.mono[m] = (u, v)
        return r

    def parts(self, x):
        if not isinstance(x, Sym):
            x = complex(x)
            return [core.q(x.real)], [core.q(x.imag)]
        re, im = [], []
        for m, c in x.t.items():
            self.size += 1
            if isinstance(c, complex):
                cr, ci = c.real, c.imag
            else:
                cr, ci = c, 0
            if not m:
                if cr: re.append(core.q(cr))
                if ci: im.append(core.q(ci))
                continue
            u, v = self.var(m)
            if cr:
                k = core.q(cr)
                re.append(k * u)
                if v is not None:
                    im.append(k * v)
            if ci:
                k = core.q(ci)
                im.append(k * u)
                if v is not None:
                    re.append(-k * v)
        return re, im

def linear_abstraction(pairs, timeout=20000):
    """z3: can |a - b| exceed its tolerance for any (a, b, tol) if monomials
    were free variables within their ranges?  'unsat' is sound."""
    L = Linear()
    alts = []
    zero = z3.RealVal(0)
    for a, b, tol in pairs:
        if L.size > 20000:
            a, b = a - b, 0     # normal form only
        ar, ai = L.parts(a)
        br, bi = L.parts(b)
        t = core.q(tol)
        for x, y in ((ar, br), (ai, bi)):
            if x or y:
                x = z3.Sum(x) if x else zero
                y = z3.Sum(y) if y else zero
                alts += [x - y > t, y - x > t]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*L.bounds)
    s.add(z3.Or(*alts) if alts else z3.BoolVal(False))
    t0 = time.time()
    r = str(s.check())
    core.STATS.queries += 1
    core.STATS.solver_s += time.time() - t0
    setattr(core.STATS, r, getattr(core.STATS, r) + 1)
    return r

def implied(path, cond, timeout=5000):
    """Does a condition follow from the path if monomials were free variables
    within their ranges? (True is sound.)"""
    L = Linear()

    def form(b):
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b))
        if b.op in ('and', 'or'):
            return (z3.And if b.op == 'and' else z3.Or)(*[form(x)
                for x in b.args])
        if b.op == 'not':
            return z3.Not(form(b.args[0]))
        re, im = L.parts(b.args[0])
        e = z3.Sum(re) if re else z3.RealVal(0)
        return {'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0,
            '==': e == 0, '!=': e != 0}[b.op]

    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*[form(b) for b in path])
    s.add(z3.Not(form(cond)))
    s.add(*L.bounds)
    t0 = time.time()
    r = str(s.check())
    core.STATS.queries += 1
    core.STATS.solver_s += time.time() - t0
    setattr(core.STATS, r, getattr(core.STATS, r) + 1)
    return r == 'unsat'

def clear(d):
    """Multiply out inverse atoms: (numerator, lower bound of |factor|)."""
    low = 1.0
    size = {m: abs(c) for m, c in d.t.items()} if isinstance(d, Sym) else {}
    for _ in range(60):
        if not isinstance(d, Sym):
            return d, low
        best = None
        for m in d.t:
            for a, p in m:
                at = core.SPACE.atoms[a]
                if at.kind in ('inv', 'cinv') and p > 0:
                    if best is None or a > best[0]:
                        best = (a, max(p, 0))
                    elif a == best[0]:
                        best = (a, max(p, best[1]))
        if best is None:
            return d, low
        a, pmax = best
        P = core.SPACE.atoms[a].arg
        if len(d.t) * len(P.t) ** pmax > 200000:
            return None, 0.0
        powers = [1]
        for _ in range(int(pmax)):
            powers.append(P * powers[-1])
        out = {}
        groups = {}
        for m, c in d.t.items():
            k = 0
            rest = []
            for b, p in m:
                if b == a:
                    k = p
                else:
                    rest.append((b, p))
            groups.setdefault(int(pmax - k), {})[tuple(rest)] = c
        new = 0
        for k, g in groups.items():
            new = new + Sym(g) * powers[k] if k else new + core._finish(
                dict(g))
        # size of the terms before any cancellation
        bigger = {}
        for m, c in d.t.items():
            k = int(pmax - dict(m).get(a, 0))
            rest = Sym({tuple(x for x in m if x[0] != a): size.get(m, abs(c))})
            if k:
                p = powers[k]
                rest = rest * (Sym({x: abs(y) for x, y in p.t.items()})
                    if isinstance(p, Sym) else abs(p))
            for x, y in (rest.t.items() if isinstance(rest, Sym)
                    else [((), rest)]):
                bigger[x] = bigger.get(x, 0) + abs(y)
        size = bigger
        if isinstance(new, Sym):
            new = core._finish({m: c for m, c in new.t.items()
                if abs(c) > 1e-13 * size.get(m, 0)})
        lo, hi = interval(P) if core.is_real(P) else (-math.inf, math.inf)
        l = lo if lo > 0 else -hi if hi < 0 else 0.0
        low *= l ** pmax
        d = new
    return None, 0.0

def tiny(d, eps=1e-11):
    """Remove coefficients that are rounding errors of the encoding."""
    if not isinstance(d, Sym):
        return d
    big = max(abs(c) for c in d.t.values())
    return core._finish({m: c for m, c in d.t.items()
        if abs(c) > eps * max(1.0, big)})

def complete(model, names, salt=0):
    vals = dict(model or {})
    vals['#salt'] = salt
    for name, (lo, hi, isint) in names.items():
        if name not in vals:
            vals[name] = generic_value(name, lo, hi, isint, salt)
    for at in core.SPACE.atoms:
        if at.kind in ('real', 'int') and at.name not in vals:
            lo = -1.0 if at.lo is None else at.lo
            hi = 1.0 if at.hi is None else at.hi
            if at.name.startswith('roundoff'):
                continue
            vals[at.name] = generic_value(at.name, lo, hi, at.isint, salt)
    return vals

MARGIN = 1e-4

def strengthen(b, eps):
    if not isinstance(b, SymBool):
        return b
    if b.op == 'and':
        return core.s_and(*[strengthen(x, eps) for x in b.args])
    if b.op == 'or':
        return core.s_or(*[strengthen(x, eps) for x in b.args])
    if b.op == 'not':
        x = b.args[0]
        if x.op in ('<', '<=', '>', '>=', '==', '!='):
            n = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=',
                '!=': '=='}[x.op]
            return strengthen(SymBool(n, *x.args), eps)
        if x.op == 'and':
            return core.s_or(*[strengthen(s_not(y), eps) for y in x.args])
        if x.op == 'or':
            return core.s_and(*[strengthen(s_not(y), eps) for y in x.args])
        return strengthen(x.args[0], eps)
    x, = b.args
    if core.is_int(x):
        return b
    if b.op in ('<', '<='):
        return core._cmp('<=', x + eps)
    if b.op in ('>', '>='):
        return core._cmp('>=', x - eps)
    if b.op == '!=':
        return s_or(core._cmp('<=', x + eps), core._cmp('>=', x - eps))
    return b

def normal(b):
    """Push negations inwards (no margin)."""
    return strengthen(b, 0) if not isinstance(b, SymBool) else b

def essential(path):
    return getattr(path, 'essential', path)

def holds(path, vals, eps=0.0):
    cache = {}
    try:
        for b in path:
            if not evaluate(strengthen(b, eps) if eps else b, vals, cache):
                return False
        if eps:
            for a in list(cache):
                at = core.SPACE.atoms[a]
                if at.kind in ('floor', 'round'):
                    x = evaluate(at.arg, vals, cache).real
                    if at.kind == 'round':
                        x += 0.5
                    if abs(x - round(x)) < eps:
                        return False
    except (core.Unsupported, ZeroDivisionError, OverflowError, ValueError,
            TypeError):
        return False
    return True

def witness(path, names, timeout=10.0, salt=0):
    """Values of all inputs satisfying the path, preferably generic."""
    if not path:
        return complete({}, names, salt)
    for s in range(salt, salt + 3):
        vals = complete({}, names, s)
        if holds(path, vals, MARGIN):
            return vals
    for eps in (MARGIN, 0.0):
        cons = [strengthen(b, eps) if eps else b for b in essential(path)]
        if any(c is False for c in cons):
            continue
        cons = [c for c in cons if c is not True]
        # keep as many generic values as the path allows
        base = sorted(set().union(*[core.atoms_of(c) for c in cons]) if cons
            else [])
        rnd = random.Random(salt)
        for frac in (0.5, 0.25):
            fix = {}
            for a in base:
                at = core.SPACE.atoms[a]
                if at.kind == 'real' and rnd.random() < frac:
                    fix[a] = generic_value(at.name, at.lo, at.hi, False, salt)
            try:
                sub = [substitute(c, fix) for c in cons]
                if any(c is False for c in sub):
                    continue
                r, m = solve([c for c in sub if c is not True], timeout / 4,
                    core.Translator(eps), model=True)
            except (core.Unsupported, TypeError, ZeroDivisionError):
                continue
            if r == 'sat':
                m.update({core.SPACE.atoms[a].name: v
                    for a, v in fix.items()})
                vals = complete(m, names, salt)
                if holds(path, vals):
                    return vals
        try:
            r, m = solve(cons, timeout, core.Translator(eps), model=True)
        except core.Unsupported:
            continue
        if r == 'sat':
            vals = complete(m, names, salt)
            if holds(path, vals) or eps == 0.0:
                return vals
    # guided sampling as a last resort (witness only, never a verdict)
    for s in range(300):
        vals = complete({}, names, salt + 100 + s)
        if holds(path, vals):
            return vals
    return None

def search(path, d, tol, names, salt=0, tries=4):
    """Fix most inputs, let z3 choose the others such that |d| > tol."""
    base = sorted(core.atoms_of(d) | set().union(
        *[core.atoms_of(c) for c in path]) if path else core.atoms_of(d))
    atoms = core.SPACE.atoms
    inside = set()          # inputs of transcendental functions
    for a in range(len(atoms)):
        if atoms[a].kind in ('phase', 'exp', 'fun', 'sqrt', 'inv', 'cinv'):
            inside |= core.atoms_of(atoms[a].arg)
    for t in range(tries):
        rnd = random.Random(1000 * salt + t)
        free = [a for a in base if a not in inside or atoms[a].isint]
        rnd.shuffle(free)
        keep = set(free[:(2 if t else 0)])
        keep |= {a for a in base if atoms[a].isint}
        w = witness(path, names, 5.0, salt + t)
        if w is None:
            continue
        fix = {a: w[atoms[a].name] for a in base
            if a not in keep and atoms[a].name in w}
        try:
            dd = real(substitute(d, fix))
            pp = [substitute(c, fix) for c in essential(path)]
            if any(c is False for c in pp):
                continue
            cons = [c for c in pp if c is not True]
            cons.append(s_or(core.compare('>', dd, tol),
                core.compare('<', dd, -tol)))
            if any(c is False for c in cons):
                continue
            cons = [c for c in cons if c is not True]
            r, m = solve(cons, 5.0, model=True) if cons else ('sat', {})
        except (core.Unsupported, TypeError, ZeroDivisionError,
                OverflowError, ValueError):
            continue
        if r == 'sat':
            m = dict(m)
            for a, v in fix.items():
                m[atoms[a].name] = v
            return complete(m, names, salt)
    return None

def equalities(path):
    """Substitutions {atom: polynomial} entailed by equations of the path."""
    eqs = []

    def visit(b, neg):
        if not isinstance(b, SymBool):
            return
        if b.op == 'not':
            visit(b.args[0], not neg)
        elif b.op == ('or' if neg else 'and'):
            for x in b.args:
                visit(x, neg)
        elif b.op == ('!=' if neg else '=='):
            eqs.append(b.args[0])

    for b in path:
        visit(b, False)
    sub = {}
    atoms = core.SPACE.atoms
    for x in eqs[:400]:
        x = replace(x, sub)
        if not isinstance(x, Sym) or len(x.t) > 50:
            continue
        # pivot: input that occurs once, linearly and alone
        count = {}
        for m in x.t:
            for a, p in m:
                count[a] = count.get(a, 0) + 1
        best = None
        for m, c in x.t.items():
            if len(m) == 1 and m[0][1] == 1 and count[m[0][0]] == 1 \
                    and atoms[m[0][0]].kind in ('real', 'int') \
                    and not isinstance(c, complex):
                if best is None or abs(c) > abs(best[1]):
                    best = m[0][0], c
        if best is None:
            continue
        a, c = best
        rest = core._finish({m: -k / c if c not in (1, -1) else -k * c
            for m, k in x.t.items() if m != ((a, 1),)})
        sub = {k: replace(v, {a: rest}) for k, v in sub.items()}
        sub[a] = rest
    return sub

def replace(x, sub):
    """Replace inputs at the top level of a polynomial."""
    if not isinstance(x, Sym) or not sub:
        return x
    keep = {}
    out = 0
    for m, c in x.t.items():
        if any(a in sub for a, p in m):
            rest = tuple((a, p) for a, p in m if a not in sub)
            term = Sym({rest: c}) if rest else c
            for a, p in m:
                if a in sub:
                    if p < 0 or p != int(p):
                        return x
                    for _ in range(int(p)):
                        term = core._mul(term, sub[a])
            out = out + term
        else:
            keep[m] = c
    return core._finish(keep) + out

def decide_path(path, obligations, names, timeout=20.0, deadline=None):
    """List of verdicts; stops at the first satisfiable one."""
    verdicts = []
    lin = []
    bools = []
    for ob in obligations:
        label = ob[0]
        if len(ob) == 2:
            cond = ob[1]
            core.STATS.residuals += 1
            if isinstance(cond, SymBool):
                core.STATS.nontrivial += 1
                bools.append((label, cond))
            elif not cond:
                w = witness(path, names)
                return [Verdict('sat' if w is not None else 'unknown', label,
                    w, 'false on this path')]
            continue
        _, A, B, tol = ob
        for a, b in zip(A, B):
            core.STATS.residuals += 1
            if isinstance(a, SymBool):
                a = int(bool(a))
            if isinstance(a, Sym) or isinstance(b, Sym):
                core.STATS.nontrivial += 1
            if any(not isinstance(x, Sym) and not cmath.isfinite(x)
                    for x in (a, b)):
                if a is b or (not isinstance(a, Sym)
                        and not isinstance(b, Sym) and a == b):
                    continue
                w = witness(path, names)
                return [Verdict('sat' if w is not None else 'unknown', label,
                    w, 'not a finite number')]
            lin.append((label, a, b, tol))
    # one query for everything that is linear in its monomials
    rest = []
    if lin:
        r = linear_abstraction([x[1:] for x in lin])
        if r != 'unsat':
            sub = equalities(path)
            const = {a: v for a, v in sub.items() if not isinstance(v, Sym)}
            for label, a, b, tol in lin:
                for d in parts(a, b):
                    d = replace(d, sub)
                    if const:
                        try:
                            d = substitute(d, const)
                        except (core.Unsupported, TypeError, OverflowError,
                                ValueError, ZeroDivisionError):
                            pass
                    if not isinstance(d, Sym):
                        if not abs(d) <= tol:
                            w = witness(path, names)
                            return [Verdict('sat' if w is not None else
                                'unknown', label, w,
                                'constant deviation %.3g' % abs(d))]
                    elif linear_abstraction([(d, 0, tol)]) != 'unsat':
                        rest.append((label, d, tol))
    hard = []
    for label, d, tol in rest:
        n, low = clear(d)
        if n is not None:
            n = tiny(n)
            if not isinstance(n, Sym):
                if abs(n) <= tol * low or abs(n) < 1e-9:
                    core.STATS.queries += 1
                    core.STATS.unsat += 1
                    continue
            elif low > 0 and linear_abstraction([(n, 0, tol * low)]) == 'unsat':
                continue
        hard.append((label, d, n, low, tol))
    for label, d, n, low, tol in hard:
        w = search(path, d, tol, names)
        if w is not None:
            return [Verdict('sat', label, w, 'equation')]
    for label, d, n, low, tol in hard:
        if deadline is not None and time.time() > deadline:
            verdicts.append(Verdict('unknown', label, None, 'time'))
            continue
        try:
            if n is not None and isinstance(n, Sym) and low > 0:
                t = tol * low
                x = n
            else:
                t = tol
                x = d
            cond = s_or(core.compare('>', x, t), core.compare('<', x, -t))
            rel = relevant(essential(path), x)
            r, m = solve(rel + [cond], timeout, model=True)
            if r == 'sat' and x is not d and not exceeds(d, tol, m, names):
                # sufficient condition violated, but not the claim itself
                cond = s_or(core.compare('>', d, tol),
                    core.compare('<', d, -tol))
                rel = relevant(essential(path), d)
                r, m = solve(rel + [cond], timeout, model=True)
        except core.Unsupported as e:
            r, m = 'unknown', None
        if r == 'sat':
            w = merge(path, m, names)
            return [Verdict('sat', label, w, 'equation')]
        verdicts.append(Verdict(r, label))
    if bools:
        bools = [(label, c) for label, c in bools
            if not implied(relevant(essential(path), c), c)]
    if bools:
        neg = s_or(*[s_not(c) for label, c in bools])
        r = 'unknown'
        try:
            r, m = solve(essential(path) + [neg], timeout, model=True) if len(bools) > 1 \
                else ('skip', None)
        except core.Unsupported:
            pass
        if r != 'unsat':
            for label, c in bools:
                try:
                    rel = relevant(essential(path), c)
                    # prefer robust violations
                    q = strengthen(s_not(c), 1e-6)
                    r = 'unknown'
                    if q is not False:
                        r, m = solve(rel + ([q] if q is not True else []),
                            timeout, model=True)
                    if r != 'sat':
                        r, m = solve(rel + [s_not(c)], timeout, model=True)
                except core.Unsupported:
                    r, m = 'unknown', None
                if r == 'sat':
                    w = merge(path, m, names)
                    return [Verdict('sat', label, w, 'condition')]
                verdicts.append(Verdict(r, label))
    return verdicts

def exceeds(d, tol, m, names):
    try:
        return not abs(core.evaluate(d, complete(m, names), {})) <= tol
    except (core.Unsupported, TypeError, OverflowError, ValueError,
            ZeroDivisionError):
        return True

def merge(path, m, names):
    """Complete a model of the relevant constraints to the whole path."""
    vals = complete(m, names)
    if holds(path, vals):
        return vals
    atoms = core.SPACE.atoms
    byname = {at.name: at.idx for at in atoms}
    fix = {byname[k]: v for k, v in m.items() if k in byname}
    try:
        sub = [substitute(c, fix) for c in essential(path)]
        if not any(c is False for c in sub):
            r, m2 = solve([c for c in sub if c is not True], 10.0, model=True)
            if r == 'sat':
                return complete({**m2, **m}, names)
    except Exception:
        pass
    return vals
