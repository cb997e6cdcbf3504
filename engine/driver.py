"""Decides the obligations recorded by symbolic runs with SMT solvers and
explores the remaining paths of a harness (see DESIGN.md, "Engine")."""
import bisect, hashlib, json, math, os, random, re, subprocess, sys, tempfile, time
from fractions import Fraction
import z3

INF = float("inf")


def frac(x):
    return Fraction(x)


# ---- interval arithmetic on floats (outward slack added) --------------------
def imul(a, b):
    c = []
    for x in a:
        for y in b:
            p = x * y
            if p != p:
                p = 0.0
            c.append(p)
    return (min(c), max(c))


def iadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def ipow(a, e):
    if e == 0:
        return (1.0, 1.0)
    if e < 0:
        b = ipow(a, -e)
        if b[0] > 0 or b[1] < 0:
            lo, hi = 1.0 / b[1] if b[1] not in (INF, -INF) else 0.0, 1.0 / b[0] if b[0] not in (INF, -INF) else 0.0
            return (min(lo, hi), max(lo, hi))
        if b[0] == 0 and b[1] > 0:
            return (1.0 / b[1], INF)
        return (-INF, INF)
    def p(x):
        try:
            return x ** e
        except OverflowError:
            return INF if (x > 0 or e % 2 == 0) else -INF
    if e % 2 == 0:
        lo, hi = abs(a[0]), abs(a[1])
        if a[0] <= 0 <= a[1]:
            return (0.0, max(p(lo), p(hi)))
        return (min(p(lo), p(hi)), max(p(lo), p(hi)))
    return (p(a[0]), p(a[1]))


def mono_fn(f, a):
    def s(x):
        try:
            return f(x)
        except OverflowError:
            return INF
        except ValueError:
            return -INF
    return (s(a[0]), s(a[1]))


class Trace:
    def __init__(self, d):
        self.d = d
        self.vars = d["vars"]
        self.atoms = d["atoms"]
        self.monos = [tuple((a, e) for a, e in m) for m in d["monos"]]
        self.polys = d["polys"]
        self._fr = {}
        self._iv = {}
        self._miv = {}
        self._canon = {}

    def poly(self, i):
        p = self._fr.get(i)
        if p is None:
            p = self._fr[i] = [(m, Fraction(c)) for m, c in self.polys[i]]
        return p

    def atom_iv(self, a):
        r = self._iv.get(a)
        if r is not None:
            return r
        kind, f, p1, p2, val = self.atoms[a]
        self._iv[a] = (-INF, INF)
        if kind == 0:
            v = self.vars[f]
            r = (v[2], v[3])
        elif kind == 1:
            ai = self.poly_iv(p1)
            if f == "exp":
                r = mono_fn(math.exp, ai)
                r = (max(0.0, r[0] * (1 - 1e-12)), r[1] * (1 + 1e-12))
            elif f == "sqrt":
                r = (math.sqrt(max(0.0, ai[0])) * (1 - 1e-12), math.sqrt(max(0.0, ai[1])) * (1 + 1e-12) if ai[1] != INF else INF)
            elif f == "log":
                r = (math.log(ai[0]) - 1e-12 if ai[0] > 0 else -INF, math.log(ai[1]) + 1e-12 if 0 < ai[1] < INF else INF)
            elif f == "erf":
                r = (math.erf(ai[0]) - 1e-12, math.erf(ai[1]) + 1e-12)
            elif f in ("sin", "cos"):
                r = (-1.0, 1.0)
            elif f == "acos":
                r = (0.0, math.pi + 1e-12)
            elif f in ("asin", "atan"):
                r = (-math.pi / 2 - 1e-12, math.pi / 2 + 1e-12)
            elif f == "atan2":
                r = (-math.pi - 1e-12, math.pi + 1e-12)
            else:
                r = (-INF, INF)
        elif kind == 2:
            r = ipow(self.poly_iv(p1), -1)
        elif kind == 3:
            ai = self.poly_iv(p1)
            r = (math.floor(max(ai[0], -1e18) / f), math.floor(min(ai[1], 1e18) / f))
        elif kind == 4:
            r = (0.0, f - 1.0)
        self._iv[a] = r
        return r

    def mono_iv(self, m):
        r = self._miv.get(m)
        if r is None:
            r = (1.0, 1.0)
            for a, e in self.monos[m]:
                r = imul(r, ipow(self.atom_iv(a), e))
            r = (r[0] - abs(r[0]) * 1e-12 if r[0] not in (INF, -INF) else r[0], r[1] + abs(r[1]) * 1e-12 if r[1] not in (INF, -INF) else r[1])
            self._miv[m] = r
        return r

    def poly_iv(self, i):
        r = (0.0, 0.0)
        for m, c in self.poly(i):
            c = float(c)
            r = iadd(r, imul((c, c), self.mono_iv(m)))
        return r

    # contract the variables' intervals with the path conditions
    def contract(self, path):
        bnd = {}

        def upper(ts, depth):
            # sum of terms <= 0
            ivs = [imul((float(c), float(c)), self.mono_iv(m)) for m, c in ts]
            if any(lo == -INF for lo, hi in ivs):
                return
            tot = sum(lo for lo, hi in ivs)
            for (m, c), (lo, hi) in zip(ts, ivs):
                mm = self.monos[m]
                if len(mm) != 1:
                    continue
                a, e = mm[0]
                c = float(c)
                room = -(tot - lo) + 1e-12 * sum(abs(x[0]) for x in ivs)  # c*atom^e <= room
                kind, f, p1, p2, val = self.atoms[a]
                v = room / c
                if kind == 0:
                    l0, h0 = bnd.get(a, (self.vars[f][2], self.vars[f][3]))
                    if e == 1:
                        n = (l0, min(h0, v)) if c > 0 else (max(l0, v), h0)
                    elif e > 0 and e % 2 == 0 and c > 0 and v >= 0:
                        r = v ** (1.0 / e) * (1 + 1e-9)
                        n = (max(l0, -r), min(h0, r))
                    else:
                        continue
                    if n[0] <= n[1]:
                        bnd[a] = n
                elif kind == 1 and f == "sqrt" and e == 1 and c > 0 and v >= 0 and depth < 3:
                    upper(self.poly(p1) + [(self.one(), Fraction(-(v * (1 + 1e-9)) ** 2))], depth + 1)

        for f, t, k in path:
            k = f[0] if t else NEG.get(f[0], f[0])
            if k in ("lt", "le", "eq"):
                upper(self.poly(f[1]), 0)
            if k in ("gt", "ge", "eq"):
                upper([(m, -c) for m, c in self.poly(f[1])], 0)
        if bnd:
            self._iv, self._miv = dict(bnd), {}

    def one(self):
        for i, m in enumerate(self.monos):
            if not m:
                return i
        self.monos.append(())
        return len(self.monos) - 1

    # canonical text of a formula, comparable between runs
    def catom(self, a):
        kind, f, p1, p2, val = self.atoms[a]
        if kind == 0:
            return self.vars[f][0]
        return "%s[%s](%s|%s)" % (kind, f, self.cpoly(p1), self.cpoly(p2) if p2 >= 0 else "")

    def cpoly(self, i):
        r = self._canon.get(i)
        if r is None:
            ts = []
            mx = max([abs(float(c)) for _, c in self.poly(i)] or [0])
            for m, c in self.poly(i):
                if abs(float(c)) > 1e-12 * mx:
                    ts.append("%s:%.9e" % ("*".join(sorted("%s^%d" % (self.catom(a), e) for a, e in self.monos[m])), float(c)))
            r = self._canon[i] = hashlib.md5("+".join(sorted(ts)).encode()).hexdigest()
        return r

    def cform(self, f):
        if f[0] in ("eq", "ne", "lt", "le", "gt", "ge"):
            return f[0] + self.cpoly(f[1])
        return f[0] + "(" + ",".join(self.cform(x) for x in f[1:]) + ")"


NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}


class LinEnc:
    """monomial-linearised (LRA) relaxation of a trace"""

    def __init__(self, tr, fixed=None):
        self.tr, self.v, self.bounds = tr, {}, []

    def mono(self, m):
        if not self.tr.monos[m]:
            return z3.RealVal(1)
        x = self.v.get(m)
        if x is None:
            x = self.v[m] = z3.Real("m%d" % m)
            lo, hi = self.tr.mono_iv(m)
            if lo != -INF:
                self.bounds.append(x >= z3.RealVal(str(Fraction(lo))))
            if hi != INF:
                self.bounds.append(x <= z3.RealVal(str(Fraction(hi))))
        return x

    def poly(self, i):
        ts = []
        for m, c in self.tr.poly(i):
            ts.append(z3.RealVal(str(c)) * self.mono(m))
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def form(self, f, pos=True):
        k = f[0]
        if k in NEG:
            if not pos:
                k = NEG[k]
            p = self.poly(f[1])
            if not self.laurent_ok(f[1]):
                return z3.BoolVal(True)
            return {"eq": p == 0, "ne": p != 0, "lt": p < 0, "le": p <= 0, "gt": p > 0, "ge": p >= 0}[k]
        if k == "not":
            return self.form(f[1], not pos)
        if k == "and" or k == "or":
            a, b = self.form(f[1], pos), self.form(f[2], pos)
            return z3.And(a, b) if (k == "and") == pos else z3.Or(a, b)
        if k == "xor":
            a, na, b, nb = self.form(f[1], True), self.form(f[1], False), self.form(f[2], True), self.form(f[2], False)
            return z3.Or(z3.And(a, nb), z3.And(na, b)) if pos else z3.Or(z3.And(a, b), z3.And(na, nb))
        return z3.BoolVal(True)

    def laurent_ok(self, i):
        return True


class NlEnc:
    """full nonlinear encoding; function atoms are reals with axioms"""

    def __init__(self, tr, fix=None):
        self.tr, self.fix = tr, fix or {}
        self.cons, self.av = [], {}
        self.slack, self.mono = {}, {}

    def atom(self, a):
        x = self.av.get(a)
        if x is not None:
            return x
        tr = self.tr
        kind, f, p1, p2, val = tr.atoms[a]
        if kind == 0:
            v = tr.vars[f]
            if v[0] in self.fix:
                x = z3.RealVal(str(Fraction(self.fix[v[0]])))
                self.av[a] = x
                return x
            if v[1] == 1:
                xi = z3.Int(v[0])
                self.cons += [xi >= int(v[2]), xi <= int(v[3])]
                x = z3.ToReal(xi)
            else:
                x = z3.Real(v[0])
                self.cons += [x >= z3.RealVal(str(Fraction(v[2]))), x <= z3.RealVal(str(Fraction(v[3])))]
            self.av[a] = x
            return x
        if kind in (3, 4):
            q, r = z3.Int("q%d" % a), z3.Int("r%d" % a)
            self.av[a] = z3.ToReal(q if kind == 3 else r)
            arg = self.poly(p1)
            self.cons += [arg == z3.ToReal(q) * f + z3.ToReal(r), r >= 0, r < f]
            return self.av[a]
        x = z3.Real("t%d" % a)
        self.av[a] = x
        lo, hi = tr.atom_iv(a)
        if lo != -INF:
            self.cons.append(x >= z3.RealVal(str(Fraction(lo))))
        if hi != INF:
            self.cons.append(x <= z3.RealVal(str(Fraction(hi))))
        if kind == 2:
            num, den = self.ratio(p1)
            self.cons.append(x * num == den)
            return x
        if f == "sqrt":
            num, den = self.ratio(p1)
            self.cons += [x >= 0, x * x * den == num]
        elif f == "exp":
            num, den = self.ratio(p1)
            self.cons += [x > 0]
            if z3.is_rational_value(z3.simplify(den)):
                y = num / den
                self.cons += [x >= 1 + y, z3.Implies(y < 0, x < 1), z3.Implies(y > 0, x > 1), z3.Implies(y < 1, x * (1 - y) <= 1)]
                self.monotone("exp", x, [(c, tr.monos[m]) for c, m in self.terms(p1)[0]])
        elif f == "log":
            num, den = self.ratio(p1)
            if z3.is_rational_value(z3.simplify(den)):
                y = num / den
                self.cons += [x <= y - 1, z3.Implies(y < 1, x < 0), z3.Implies(y > 1, x > 0), z3.Implies(y > 0, x * y >= y - 1)]
                self.monotone("exp", y, [(Fraction(1), ((a, 1),))])
        elif f == "erf":
            num, den = self.ratio(p1)
            if z3.is_rational_value(z3.simplify(den)):
                y = num / den
                self.cons += [z3.Implies(y > 0, z3.And(x > 0, x <= y * z3.RealVal("1.1283791670955127"))), z3.Implies(y == 0, x == 0), z3.Implies(y < 0, z3.And(x < 0, x >= y * z3.RealVal("1.1283791670955127")))]
        elif f in ("sin", "cos"):
            other = "cos" if f == "sin" else "sin"
            for b, A in enumerate(tr.atoms):
                if A[0] == 1 and A[1] == other and A[2] == p1 and b in self.av:
                    self.cons.append(x * x + self.av[b] * self.av[b] == 1)
        return x

    def monotone(self, f, x, ts):
        """x = f(sum of ts) with f increasing: order it against the other values of f"""
        l = self.mono.setdefault(f, [])
        if len(l) >= 8:
            return
        for x2, t2 in list(l):
            d = {}
            for c, m in ts:
                d[m] = d.get(m, 0) + c
            for c, m in t2:
                d[m] = d.get(m, 0) - c
            dl = [(c, m) for m, c in d.items() if c]
            lo = hi = 0.0
            for c, m in dl:
                r = (float(c), float(c))
                for a, e in m:
                    r = imul(r, ipow(self.tr.atom_iv(a), e))
                lo, hi = lo + r[0], hi + r[1]
            if lo > 0:
                self.cons.append(x > x2)
            elif hi < 0:
                self.cons.append(x < x2)
            else:
                y = self.sign(dl)
                self.cons += [z3.Implies(y < 0, x < x2), z3.Implies(y > 0, x > x2), z3.Implies(y == 0, x == x2)]
        l.append((x, ts))

    def rcoef(self, c):
        # keep ~18 digits: nlsat is very sensitive to huge rationals
        if c.denominator.bit_length() + c.numerator.bit_length() < 130:
            return c
        return Fraction("%.17e" % float(c))

    def terms(self, i):
        """list of (coef, mono) without the noise terms; and the noise bound"""
        tr = self.tr
        ts = tr.poly(i)
        if not ts:
            return [], 0.0
        w = []
        for m, c in ts:
            lo, hi = tr.mono_iv(m)
            w.append(abs(float(c)) * max(abs(lo), abs(hi)))
        mx = max([x for x in w if x != INF] or [0.0])
        keep, noise = [], 0.0
        for (m, c), x in zip(ts, w):
            if x <= 1e-13 * mx and x != INF:
                noise += x
            else:
                keep.append((self.rcoef(c), m))
                noise += (x if x != INF else 0) * 2e-17
        return keep, noise

    def ratio(self, i):
        """poly i = num/den with den a product of powers (>0 on the box when possible)"""
        tr = self.tr
        ts, _ = self.terms(i)
        neg = {}
        for c, m in ts:
            for a, e in tr.monos[m]:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        for a in list(neg):
            lo, hi = tr.atom_iv(a)
            if not (lo >= 0) and neg[a] % 2:
                neg[a] += 1
        den = z3.RealVal(1)
        for a, e in neg.items():
            for _ in range(e):
                den = den * self.atom(a)
        s = []
        for c, m in ts:
            t = z3.RealVal(str(c))
            ex = dict(neg)
            for a, e in tr.monos[m]:
                ex[a] = ex.get(a, 0) + e
            for a, e in ex.items():
                if e:
                    t = t * (self.atom(a) ** e if e > 1 else self.atom(a))
            s.append(t)
        return (z3.Sum(s) if s else z3.RealVal(0)), den

    def sign(self, ts):
        """a polynomial with the sign of sum(c*mono): powers of positive atoms common to all terms are divided out"""
        tr = self.tr
        E = [(c, dict(m)) for c, m in ts]
        atoms = set()
        for _, m in E:
            atoms |= set(m)
        for a in atoms:
            lo, hi = tr.atom_iv(a)
            mn = min(m.get(a, 0) for _, m in E)
            if not lo > 0:
                mn = mn if mn < 0 else 0
                if mn % 2:
                    mn -= 1
            if mn:
                for _, m in E:
                    m[a] = m.get(a, 0) - mn
        s = []
        for c, m in E:
            t = z3.RealVal(str(c))
            for a, e in m.items():
                if e:
                    t = t * (self.atom(a) ** e if e > 1 else self.atom(a))
            s.append(t)
        return z3.Sum(s) if s else z3.RealVal(0)

    def poly(self, i):
        n, d = self.ratio(i)
        return n / d if not z3.is_rational_value(z3.simplify(d)) else n / d

    def form(self, f, pos=True):
        k = f[0]
        if k in NEG:
            if not pos:
                k = NEG[k]
            p = self.sign([(c, self.tr.monos[m]) for c, m in self.terms(f[1])[0]])
            return {"eq": p == 0, "ne": p != 0, "lt": p < 0, "le": p <= 0, "gt": p > 0, "ge": p >= 0}[k]
        if k == "not":
            return self.form(f[1], not pos)
        if k == "and" or k == "or":
            a, b = self.form(f[1], pos), self.form(f[2], pos)
            return z3.And(a, b) if (k == "and") == pos else z3.Or(a, b)
        if k == "xor":
            return z3.Xor(self.form(f[1]), self.form(f[2])) if pos else z3.Not(z3.Xor(self.form(f[1]), self.form(f[2])))
        return z3.BoolVal(True)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = self.sat = self.unknown = 0

    def add(self, r, t):
        self.queries += 1
        self.time += t
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1


def isint_only(tr):
    return all(v[1] == 1 for v in tr.vars)


class Solver:
    def __init__(self, st, seed=1):
        self.st, self.seed = st, seed

    def check(self, cons, timeout, tactic=None):
        s = z3.SolverFor(tactic) if tactic else z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.set("random_seed", self.seed)
        t = time.time()
        try:
            s.add(*cons)
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.st.add(r, time.time() - t)
        return r, (s.model() if r == z3.sat else None)


def model_value(m, x):
    v = m.eval(x, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def inputs_from_model(tr, enc, m):
    out = {}
    for a, A in enumerate(tr.atoms):
        if A[0] == 0:
            v = tr.vars[A[1]]
            if v[0] in enc.fix:
                out[v[0]] = enc.fix[v[0]]
            elif a in enc.av:
                x = z3.Int(v[0]) if v[1] == 1 else z3.Real(v[0])
                val = model_value(m, x)
                if val is None:
                    val = Fraction(v[4])
                out[v[0]] = int(val) if v[1] == 1 else min(max(float(val), v[2]), v[3])
            else:
                out[v[0]] = int(v[4]) if v[1] == 1 else v[4]
    return out


class Job:
    """one harness under one configuration"""

    def __init__(self, exe, native, conf, limits, seed, log, name):
        self.exe, self.native, self.conf, self.lim, self.seed, self.log, self.name = exe, native, conf, limits, seed, log, name
        self.known = []
        self.st = Stats()
        self.sol = Solver(self.st, seed)
        self.seen_br = set()
        self.sib = {}
        self.seen_path = set()
        self.res = dict(paths=0, obligations=0, discharged=0, concrete=0, symbolic=0, inconclusive=0, branches_negated=0, infeasible=0, undecided_branches=0,
                        candidates=0, nonrepro=0, violations=[], lost={}, notes=set(), opaque=0, sites=set(), incon_labels=set(), labels=set(), nodes=0, vars=None, cut="", spurious=set(), ass_failed=0, known_hits=set(), selfcheck=0, selfcheck_bad=0)

    def run(self, inputs):
        with tempfile.TemporaryDirectory() as td:
            inp, out = os.path.join(td, "in"), os.path.join(td, "out")
            write_inputs(inp, inputs)
            env = dict(os.environ, SYM_IN=inp, SYM_OUT=out, OMP_NUM_THREADS="1")
            try:
                r = subprocess.run([self.exe] + ["%s=%s" % kv for kv in self.conf.items()], env=env, cwd=td, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.lim["run_timeout"])
            except subprocess.TimeoutExpired:
                return None
            if not os.path.exists(out) or os.path.getsize(out) == 0:
                self.log("%s: run produced no trace (rc %s) %s" % (self.name, r.returncode, r.stderr[-300:]))
                return "crash"
            try:
                with open(out) as f:
                    return Trace(json.load(f))
            except ValueError:
                return "crash"

    def confirm(self, inputs):
        """replay on the natively compiled real code"""
        self.res["candidates"] += 1
        r = replay(self.native(), self.conf, inputs, self.lim["run_timeout"])
        return r

    def time_left(self):
        return self.deadline - time.time()

    def candidate(self, inputs, label):
        key = json.dumps(inputs, sort_keys=True)
        if self.res["violations"]:
            return True
        rc, txt = self.confirm(inputs)
        if rc == 1 and self.known:
            fl = [l[5:] for l in txt.splitlines() if l.startswith("FAIL ")]
            rest = []
            for l in fl:
                for k in self.known:
                    if k.search(l):
                        self.res["known_hits"].add(k.pattern)
                        break
                else:
                    rest.append(l)
            if not rest:
                return False
        if rc == 1:
            self.res["violations"].append((inputs, label, txt))
            self.log("%s: CONFIRMED %s with %s\n%s" % (self.name, label, inputs, txt[-500:]))
            return True
        self.res["nonrepro"] += 1
        self.res["spurious"].add(label)
        return False

    def explore(self):
        self.deadline = time.time() + self.lim["time"]
        todo = [({}, 0)]
        while todo:
            if self.res["violations"]:
                break
            if self.res["paths"] >= self.lim["paths"]:
                self.res["cut"] = "path limit (%d unexplored branch flips)" % len(todo)
                break
            if self.time_left() < 0:
                self.res["cut"] = "time limit (%d unexplored branch flips)" % len(todo)
                break
            inputs, gen = todo.pop(0)
            tr = self.run(inputs)
            if tr is None:
                self.res["cut"] = "run timeout"
                continue
            if tr == "crash":
                if not self.candidate(inputs, "crash"):
                    self.res["cut"] = "symbolic run failed"
                continue
            todo += self.process(tr, inputs)
        return self.res

    def process(self, tr, inputs):
        d, R = tr.d, self.res
        sig = hashlib.md5("|".join(tr.cform(f) + str(t) for f, t, k in d["path"]).encode()).hexdigest()
        new = sig not in self.seen_path
        self.seen_path.add(sig)
        R["nodes"] = max(R["nodes"], d["nodes"])
        R["sites"].update(d["sites"])
        R["vars"] = R["vars"] or [v[:4] for v in tr.vars]
        for k, v in d["lost"].items():
            R["lost"][k] = R["lost"].get(k, 0) + v
        R["notes"].update(d["notes"])
        R["selfcheck"] += d["selfcheck"]
        R["selfcheck_bad"] += d["selfcheck_bad"]
        if d["status"] == "giveup":
            R["cut"] = "engine limit: " + d["why"]
        cur = {v[0]: (int(v[4]) if v[1] == 1 else v[4]) for v in tr.vars}
        if new:
            R["paths"] += 1
            if d["status"] in ("assume",):
                R["ass_failed"] += 1
            self.decide(tr, cur)
        if R["violations"]:
            return []
        return self.flips(tr, cur)

    # -- obligations
    def decide(self, tr, cur):
        d, R = tr.d, self.res
        pend = []
        for a in d["asserts"]:
            R["obligations"] += 1
            R["labels"].add(a["label"])
            f = a.get("form")
            if not a["conc"]:
                R["symbolic"] += 0
                if self.candidate(cur, a["label"]):
                    return
                R["inconclusive"] += 1
                R["incon_labels"].add(a["label"])
                continue
            if f and f[0] == "const":
                R["concrete"] += 1
                R["discharged"] += 1
                continue
            if f and f[0] == "opaque":
                R["opaque"] += 1
                R["inconclusive"] += 1
                R["incon_labels"].add(a["label"])
                continue
            R["symbolic"] += 1
            pend.append(a)
        if not pend:
            return
        lin = LinEnc(tr)

        def neg_lin(a):
            if a["kind"] == 0:
                return lin.form(a["form"], False)
            num = lin.poly(a["num"])
            dl, dh = tr.poly_iv(a["den"])
            dmin = 0.0 if dl <= 0 <= dh else min(abs(dl), abs(dh))
            t = z3.RealVal(str(Fraction(a["tol"]) * Fraction(dmin * (1 - 1e-9))))
            if a["kind"] == 1:
                return z3.Or(num > t, num < -t)
            return num > t

        neg = [neg_lin(a) for a in pend]
        left = []
        CH = 256

        def rec(lo, hi, withpath):
            if hi <= lo:
                return
            cons = list(lin.bounds)
            if withpath:
                for f, t, k in d["path"][: self.lim.get("pathcons", 200)]:
                    cons.append(lin.form(f, bool(t)))
                cons = list(lin.bounds) + cons
            r, _ = self.sol.check(cons + [z3.Or(*neg[lo:hi]) if hi - lo > 1 else neg[lo]], 10)
            if r == z3.unsat:
                R["discharged"] += hi - lo
            elif hi - lo == 1:
                left.append(lo)
            else:
                mid = (lo + hi) // 2
                rec(lo, mid, withpath)
                rec(mid, hi, withpath)

        for lo in range(0, len(pend), CH):
            rec(lo, min(lo + CH, len(pend)), False)
        if left and d["path"]:
            tr.contract(d["path"])
            lin = LinEnc(tr)
            neg = [neg_lin(a) for a in pend]
            l2, left = left, []
            for i in l2:
                rec(i, i + 1, True)
        nhard = 0
        for i in left:
            a = pend[i]
            if self.hard(tr, a, cur):
                R["discharged"] += 1
            else:
                if R["violations"]:
                    return
                R["inconclusive"] += 1
                R["incon_labels"].add(a["label"])
                nhard += 1
                if nhard > self.lim.get("maxhard", 40) or self.time_left() < 0:
                    rest = len(left) - left.index(i) - 1
                    R["inconclusive"] += rest
                    break

    def negated(self, tr, enc, a):
        if a["kind"] == 0:
            return enc.form(a["form"], False)
        n, nd = enc.ratio(a["num"])
        D, Dd = enc.ratio(a["den"])
        _, noise = enc.terms(a["num"])
        t = Fraction(a["tol"]) - Fraction(min(noise, a["tol"] * 0.5))
        t = z3.RealVal(str(t))
        # |n/nd| > t |D/Dd|
        lhs, rhs = n * Dd, t * D * nd
        if z3.is_rational_value(z3.simplify(D)) and z3.is_rational_value(z3.simplify(Dd)):
            lhs, rhs = n, t * nd * z3.simplify(D / Dd)
        if a["kind"] == 1:
            return z3.Or(z3.And(lhs > rhs, lhs > -rhs), z3.And(lhs < rhs, lhs < -rhs))
        return lhs > rhs

    def hard(self, tr, a, cur):
        """True: discharged.  False: violated (recorded) or inconclusive."""
        d = tr.d
        path = d["path"]
        enc = NlEnc(tr)
        goal = self.negated(tr, enc, a)
        pc = [enc.form(f, bool(t)) for f, t, k in path[: self.lim.get("pathcons", 200)]]
        to = min(self.lim["nra"], max(1.0, self.time_left()))
        r, m = self.sol.check(enc.cons + pc + [goal], to)
        if r == z3.unsat:
            return True
        fnatoms = any(A[0] == 1 and A[1] != "sqrt" for A in tr.atoms)
        if r == z3.sat:
            if self.candidate(inputs_from_model(tr, enc, m), a["label"]):
                return False
        # partially fixed sub-queries: free one variable at a time around run and random points
        rng = random.Random(self.seed)
        names = [v[0] for v in tr.vars]
        pts = [cur]
        for _ in range(3):
            pts.append({v[0]: (int(rng.randint(int(v[2]), int(v[3]))) if v[1] == 1 else round(rng.uniform(v[2], v[3]), 3)) for v in tr.vars})
        for v in tr.vars:
            if v[1] == 0:
                for p in pts:
                    p[v[0]] = min(max(p[v[0]], v[2]), v[3])
        n = 0
        for p in pts:
            for free in names[:12]:
                if self.time_left() < 0 or n > 24:
                    return False
                n += 1
                e2 = NlEnc(tr, {k: x for k, x in p.items() if k != free})
                g2 = self.negated(tr, e2, a)
                pc2 = [e2.form(f, bool(t)) for f, t, k in path[: self.lim.get("pathcons", 200)]]
                r2, m2 = self.sol.check(e2.cons + pc2 + [g2], 1.0)
                if r2 == z3.sat:
                    if self.candidate(inputs_from_model(tr, e2, m2), a["label"]):
                        return False
                    if fnatoms and n > 8:
                        return False
        return False

    # -- path exploration
    def flips(self, tr, cur):
        d, R = tr.d, self.res
        path = d["path"]
        out = []
        pre = hashlib.md5()
        lin = LinEnc(tr)
        linpre = []
        for i, (f, t, k) in enumerate(path):
            cf = tr.cform(f)
            key = (pre.hexdigest(), cf, not t)
            pre.update((cf + str(t)).encode())
            if f[0] == "opaque":
                continue
            if key in self.seen_br:
                linpre.append((f, bool(t)))
                continue
            self.seen_br.add(key)
            self.seen_br.add((key[0], cf, bool(t)))
            if len(self.seen_br) > self.lim.get("maxbr", 4000) or self.time_left() < 0:
                R["cut"] = R["cut"] or "branch-flip limit"
                break
            # relaxation first
            want = lin.form(f, not t)
            cons = [lin.form(g, b) for g, b in linpre[-60:]]
            r, _ = self.sol.check(lin.bounds + cons + [want], 2)
            linpre.append((f, bool(t)))
            if r == z3.unsat:
                R["infeasible"] += 1
                continue
            enc = NlEnc(tr)
            cs = [enc.form(g, bool(b)) for g, b, _ in path[:i]] + [enc.form(f, not t)]
            if k == 1:
                # a value picked by concretisation: ask for one that no earlier run with this prefix has picked
                e1 = NlEnc(tr)
                other = e1.form(f, not t)
                old = self.sib.setdefault(key[0], [])
                cs += old
                if all(tr.atoms[a][0] == 0 for a in e1.av):
                    old.append(other)
            r, m = self.sol.check(enc.cons + cs, self.lim.get("flip", 3))
            if r == z3.unsat:
                R["infeasible"] += 1
                continue
            R["branches_negated"] += 1
            if r == z3.sat:
                out.append((inputs_from_model(tr, enc, m), i + 1))
                continue
            # unknown: try with fewer free variables
            got = False
            names = [v[0] for v in tr.vars]
            for free in names[:6]:
                e2 = NlEnc(tr, {k2: x for k2, x in cur.items() if k2 != free})
                cs = [e2.form(g, bool(b)) for g, b, _ in path[:i]] + [e2.form(f, not t)]
                r, m = self.sol.check(e2.cons + cs, 1)
                if r == z3.sat:
                    out.append((inputs_from_model(tr, e2, m), i + 1))
                    got = True
                    break
            if not got:
                R["undecided_branches"] += 1
        return out


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for k, v in inputs.items():
            f.write("%s %s\n" % (k, v if isinstance(v, int) else float(v).hex()))


def replay(exe, conf, inputs, timeout=120):
    """(1, text) if the natively compiled real code violates an assertion"""
    with tempfile.TemporaryDirectory() as td:
        inp = os.path.join(td, "in")
        write_inputs(inp, inputs)
        env = dict(os.environ, SYM_IN=inp, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        try:
            r = subprocess.run([exe] + ["%s=%s" % kv for kv in conf.items()], env=env, cwd=td, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 2, "timeout"
        txt = r.stdout.decode(errors="replace")
        if r.returncode == 1 and "FAIL " in txt:
            return 1, "\n".join(l for l in txt.splitlines() if l.startswith("FAIL"))[:2000]
        if r.returncode < 0:
            return 1, "FAIL crash: signal %d" % -r.returncode
        return 0, txt[-300:]
