"""Random discrete structural models over a mixed graph and numeric evaluation of the library's Prob objects."""
import numpy as np

from vm.graphs import Ref


class DiscreteSCM:
    """One latent per bidirected arc; all tables strictly positive; exact joint and interventional tables."""

    def __init__(self, rng, ref, max_card=2):
        self.names = sorted(ref.nodes)
        self.ref = ref
        self.card = {n: int(rng.integers(2, max_card + 1)) for n in self.names}
        self.arcs = sorted(tuple(sorted(a)) for a in ref.arcs)
        lat = [("latent", i) for i in range(len(self.arcs))]
        self.lcard = [int(rng.integers(2, 4)) if len(lat) <= 3 else 2 for _ in lat]
        self.axes = self.names + lat
        self.shape = [self.card[n] for n in self.names] + self.lcard
        self.lat_tab = []
        for i, c in enumerate(self.lcard):
            p = rng.dirichlet(np.ones(c) * 2) * .8 + .2 / c
            self.lat_tab.append(self._expand(p, [("latent", i)]))
        self.tab = {}
        for n in self.names:
            pa = sorted(ref.parents(n)) + [("latent", i) for i, a in enumerate(self.arcs) if n in a]
            k = self.card[n]
            sh = [self._card(p) for p in pa]
            t = rng.dirichlet(np.ones(k) * .8, size=sh) * .85 + .15 / k
            self.tab[n] = self._expand(t, pa + [n])

    def _card(self, a):
        return self.lcard[a[1]] if isinstance(a, tuple) else self.card[a]

    def _expand(self, t, axes):
        t = np.asarray(t)
        perm = sorted(range(len(axes)), key=lambda i: self.axes.index(axes[i]))
        t = np.transpose(t, perm)
        sh = [1] * len(self.axes)
        for i in perm:
            sh[self.axes.index(axes[i])] = self._card(axes[i])
        return t.reshape(sh)

    def _prod(self, names):
        out = np.ones(self.shape)
        for t in self.lat_tab:
            out = out * t
        for n in names:
            out = out * self.tab[n]
        if self.arcs:
            out = out.sum(axis=tuple(range(len(self.names), len(self.axes))))
        return out

    def joint(self):
        return self._prod(self.names)

    def do(self, y, x):
        """P(y | do(x)) as a table over all observed axes, size one on axes other than y and x."""
        t = self._prod([n for n in self.names if n not in x])
        ax = tuple(i for i, n in enumerate(self.names) if n not in x and n not in y)
        return t.sum(axis=ax, keepdims=True)


class Unreadable(Exception):
    pass


class Text:
    """A printed expression read back: what a person reading the formula would compute."""

    def __init__(self, text):
        self.t, self.i = text, 0
        p = self.expr()
        if self.i != len(text):
            raise Unreadable(f"cannot read {text!r} from {self.i}")
        self.prob = p

    def eat(self, w):
        if self.t.startswith(w, self.i):
            self.i += len(w)
            return True
        return False

    def need(self, w):
        if not self.eat(w):
            raise Unreadable(f"{w!r} expected at {self.i} of {self.t!r}")

    def until(self, w):
        j = self.t.index(w, self.i)
        s, self.i = self.t[self.i:j], j + len(w)
        return s

    def names(self, s):
        return {q.strip() for q in s.split(",")}

    def expr(self):
        p = type("P", (), {})()
        p.marginal, p.variables, p.conditional, p.product, p.divisor = set(), set(), set(), [], []
        if self.eat("\\sum_{"):
            p.marginal = self.names(self.until("}"))
        if self.eat("P("):
            v, _, c = self.until(")").partition("|")
            p.variables, p.conditional = self.names(v), self.names(c) if c else set()
        while True:
            # juxtaposed factors multiply; a factor without brackets ends where the surrounding one ends
            if self.eat("\\left["):
                p.product.append(self.expr())
                self.need("\\right]")
            elif self.t.startswith(("\\sum_{", "P("), self.i):
                p.product.append(self.expr())
            else:
                break
        if self.eat("/"):
            self.need("\\left(")
            while self.eat("\\left["):
                p.divisor.append(self.expr())
                self.need("\\right]")
            self.need("\\right)")
        return p


def evaluate(prob, joint, names):
    """Value of a Prob expression over the observational joint table (axes = names)."""
    full = joint.shape

    def p(vs):
        ax = tuple(i for i, n in enumerate(names) if n not in vs)
        return joint.sum(axis=ax, keepdims=True)

    out = np.ones([1] * len(names))
    vs, cond = set(prob.variables), set(prob.conditional)
    if (vs | cond | set(prob.marginal)) - set(names):
        raise Unreadable(f"unknown names in {vs} {cond} {prob.marginal}")
    if vs:
        out = out * p(vs | cond)
        if cond:
            out = out / p(cond)
    for q in prob.product:
        out = out * evaluate(q, joint, names)
    for q in prob.divisor:
        out = out / evaluate(q, joint, names)
    if prob.marginal:
        ax = tuple(names.index(n) for n in prob.marginal)
        sh = tuple(full[i] if i in ax else out.shape[i] for i in range(len(names)))
        out = np.broadcast_to(out, sh).sum(axis=ax, keepdims=True)
    return out


def identifiable(ref, y, x):
    """Tian's criterion: every c-component of An(Y) in G[V\\X] is identifiable from its c-component in G."""
    d = ref.sub(ref.nodes - set(x)).an(y)
    for s in ref.sub(d).ccomps():
        t = next(c for c in ref.ccomps() if s <= c)
        if not _ident(ref, frozenset(s), frozenset(t)):
            return False
    return True


def _ident(ref, s, t):
    a = frozenset(ref.sub(t).an(s))
    if a == s:
        return True
    if a == t:
        return False
    t2 = next(c for c in ref.sub(a).ccomps() if s <= c)
    return _ident(ref, s, t2)
