"""Script generators: every case is (P, grp, [lines]).  All choices come from
the seeded generator passed in."""
import random

C2 = ["brick23", "corner", "cubed", "disk", "moebius", "periodic", "pillow",
      "rotwrap", "star", "shell2d", "disk2d", "bowtie", "unit", "icosahedron"]
C3 = ["brick235", "periodic", "rotcubes", "rotwrap", "pillow", "unit", "shell",
      "sphere", "twocubes", "twowrap", "torus 3", "drop"]
C3S = ["periodic", "rotcubes", "rotwrap", "pillow", "unit", "twocubes", "twowrap", "drop", "torus 3"]
C2S = [c for c in C2 if c not in ("icosahedron",)]


class G:
    def __init__(self, rng, dim, pset=(1, 2, 3, 4, 5)):
        self.r = rng
        self.d = dim
        self.pset = pset
        self.L = []

    def ri(self, a, b):
        return self.r.randint(a, b)

    def add(self, s):
        self.L.append(s)

    def conn(self, slot=0, small=True, weird=0):
        r = self.r
        k = r.random()
        d = self.d
        if k < 0.30:
            n = r.choice((C2S if small else C2) if d == 2 else (C3S if small else C3))
            s = "name " + n
        elif k < 0.42:
            if d == 2:
                s = "brick %d %d %d %d" % (self.ri(1, 3), self.ri(1, 2), self.ri(0, 1), self.ri(0, 1))
            else:
                s = "brick %d %d %d %d %d %d" % (self.ri(1, 2), self.ri(1, 2), self.ri(1, 2), self.ri(0, 1), self.ri(0, 1), self.ri(0, 1))
        elif k < 0.50:
            if d == 2:
                s = "name twotrees %d %d %d" % (self.ri(0, 3), self.ri(0, 3), self.ri(0, 1))
            else:
                s = "name twotrees %d %d %d" % (self.ri(0, 5), self.ri(0, 5), self.ri(0, 3))
        elif k < 0.55 and d == 3:
            s = "tets %d %d" % (self.ri(1, 99999), self.ri(1, 2 if small else 4))
        elif k < 0.72:
            m, n, p = (self.ri(1, 3), self.ri(1, 3), 1) if d == 2 else (self.ri(1, 2), self.ri(1, 2), self.ri(1, 3))
            s = "rot %d %d %d %d %d" % (self.ri(1, 99999), m, n, p, self.ri(0, max(0, m * n * p - 1) // 2))
        elif k < 0.86:
            m, n, p = (self.ri(1, 2), self.ri(1, 2), 1) if d == 2 else (self.ri(1, 2), self.ri(1, 2), self.ri(1, 2))
            s = "rotjoin %d %d %d %d 0 %d %d" % (self.ri(1, 99999), m, n, p, self.ri(1, 3), weird)
        else:
            nt = self.ri(1, 3)
            s = "glue %d %d %d %d" % (self.ri(1, 99999), nt, self.ri(1, nt * 2), weird)
        self.cspec = s
        self.add("conn %d %s" % (slot, s))

    def dsz(self):
        return self.r.choice([0, 1, 4, 4, 8, 16, 40, 3])

    def new(self, s=0, c=0, dsz=None, uniform=None, maxmin=None):
        r = self.r
        if dsz is None:
            dsz = self.dsz()
        self.ds = dsz
        fill = r.randint(0, 1) if uniform is None else uniform
        if maxmin is None:
            maxmin = 12
        minq = r.choice([0, 0, 1, r.randint(0, maxmin)])
        minl = r.choice([-1, 0, 0, 1, 1, 2 if self.d == 2 else 1])
        self.add("new %d %d %d %d %d %d %d" % (s, c, minq, minl, fill, dsz, self.fl(False)))

    def fl(self, repl=True):
        f = self.r.choice([1, 1, 1, 0])
        if repl:
            f |= self.r.choice([2, 2, 0])
        return f

    def coord(self):
        """coordinates of a point: random, or near special places"""
        r = self.r
        R = 1 << 30
        out = []
        for _ in range(self.d):
            out.append(r.choice([0, R - 1, R // 2, R // 2 - 1, r.randrange(R), r.randrange(R)]))
        return " ".join(map(str, out))

    def pred(self, deep=True, nt=4):
        r = self.r
        k = r.random()
        if k < 0.12:
            return "all %d" % r.choice([1, 2])
        if k < 0.5:
            return "h %d %d %d" % (self.ri(1, 10 ** 6), r.choice([100, 250, 500, 800]), self.ri(2, 6))
        if k < 0.75 and deep:
            return "pt %d %d %s" % (r.choice([4, 6, 9, 12, 20, 29]), self.ri(0, nt - 1), self.coord())
        if k < 0.9:
            return "bnd %d %d" % (self.ri(0, 11), self.ri(2, 4))
        return "cid %d %d" % (self.ri(0, 7), self.ri(2, 7))

    def refine(self, s=0, budget=None, rec=None, pred=None, maxl=None):
        r = self.r
        b = budget if budget is not None else (self.ri(3, 9) if self.d == 2 else self.ri(2, 5))
        rec = r.choice([0, 1, 1]) if rec is None else rec
        if maxl is None:
            maxl = r.choice([-2, -1, -1, self.ri(1, 6)])
        fl = self.fl()
        self.add("refine %d %d %d %d %d %s" % (s, rec, maxl, fl, b, pred or self.pred()))

    def coarsen(self, s=0, orph=None, rec=None):
        r = self.r
        p = r.choice(["all 99", "h %d %d 99" % (self.ri(1, 10 ** 6), r.choice([300, 500, 800])),
                      "h %d %d 99" % (self.ri(1, 10 ** 6), r.choice([300, 500, 800])),
                      "cid %d 99" % self.ri(0, 7), "none", "bnd %d 99" % self.ri(0, 11)])
        self.add("coarsen %d %d %d %d %s" % (s, r.randint(0, 1) if rec is None else rec,
                                             r.randint(0, 1) if orph is None else orph, self.fl(), p))

    def balance(self, s=0, kind=None):
        fl = self.fl() | self.r.choice([0, 0, 0, 0, 4, 8, 12, 28, 20])
        self.add("balance %d %d %d" % (s, kind or self.ri(1, self.d), fl))

    def partition(self, s=0, pfc=None, wk=None):
        r = self.r
        if pfc is None:
            pfc = r.choice([0, 0, 1, 1, -1, -2])
        if wk is None:
            wk = r.choice([-1, -1, 0, 1, 2, 2, 3, 4, 5])
        if wk < 0:
            self.add("partition %d %d -1" % (s, pfc))
        else:
            mx = r.choice([1, 5, 50, 200])
            sc = r.choice([1, 1, 3, 1000, 10 ** 6])
            self.add("partition %d %d %d %d %d %d" % (s, pfc, wk, self.ri(1, 10 ** 6), mx, sc))

    def given(self, s=0):
        self.add("given %d %d %d" % (s, self.ri(0, 3), self.ri(1, 10 ** 6)))

    def setup(self, nref=2, balanced=False, **kw):
        """a connectivity and a forest with an interesting mesh"""
        if self.r.random() < 0.15:
            self.ridge()
            if self.r.random() < 0.5:
                self.shuffle()
            if balanced:
                self.balance(0, balanced if balanced is not True else None)
            return
        self.conn(0, **{k: v for k, v in kw.items() if k in ("small", "weird")})
        self.new(0, 0, **{k: v for k, v in kw.items() if k in ("dsz", "uniform", "maxmin")})
        for _ in range(nref):
            self.refine(0)
            if self.r.random() < 0.4:
                self.shuffle()
        if balanced:
            self.balance(0, balanced if balanced is not True else None)

    def ridge(self):
        """whole and refined trees of different orientation around corners
        and edges"""
        r = self.r
        self.cspec = "rot %d %s %d" % (self.ri(1, 99999), "2 2 1" if self.d == 2 or r.random() < 0.75 else "2 2 2", r.choice([0, 0, 1]))
        self.add("conn 0 " + self.cspec)
        self.ds = self.dsz()
        self.add("new 0 0 0 0 1 %d %d" % (self.ds, self.fl(False)))
        self.add("refine 0 0 -1 %d %d h %d %d 1" % (self.fl(), 12 if self.d == 2 else 6, self.ri(1, 10 ** 6), r.choice([300, 500, 700])))
        if r.random() < 0.5:
            self.add("refine 0 0 -1 %d %d h %d %d 2" % (self.fl(), self.ri(1, 4) if self.d == 2 else self.ri(1, 2), self.ri(1, 10 ** 6), r.choice([100, 300, 500])))

    def shuffle(self, s=0):
        """move the cuts"""
        if self.r.random() < 0.6:
            self.partition(s)
        else:
            self.given(s)

    def take(self, P=None, grp=0):
        P = P if P is not None else self.r.choice(self.pset)
        c = (P, grp, self.L)
        self.L = []
        return c


def mixed(g, n, weights):
    """n operations with the given weights on forest 0"""
    ks = list(weights)
    for _ in range(n):
        k = g.r.choices(ks, [weights[x] for x in ks])[0]
        if k == "refine":
            g.refine()
        elif k == "coarsen":
            g.coarsen()
        elif k == "balance":
            g.balance()
        elif k == "partition":
            g.partition()
        elif k == "pfc":
            g.partition(pfc=g.r.choice([1, 1, -2]))
        elif k == "given":
            g.given()
        elif k == "valid":
            g.add("valid 0")
        elif k == "cksum":
            g.add("cksum 0")
        elif k == "reset":
            g.add("reset 0 %d %d" % (g.dsz(), g.fl(False)))
        elif k == "modify":
            g.add("modify 0 %d %d" % (g.ri(1, 10 ** 6), g.r.choice([100, 1000])))
        elif k == "copy":
            g.add("copy 0 1 %d %d" % (g.ri(0, 1), g.ri(0, 1)))
            g.add("equal 0 1 %d" % g.ri(0, 1))
            g.add("equal 0 1 0")
        elif k == "equal":
            g.add("equal 0 1 0")


def gen_mix(weights, nops=6, **kw):
    def f(g):
        g.setup(nref=g.ri(1, 2), **kw)
        mixed(g, nops, weights)
        return [g.take()]
    return f


def gen_plnodes(pfcs):
    """partition weighted by the nodes every leaf owns"""
    def f(g):
        g.setup(nref=g.ri(1, 2), small=1)
        for _ in range(g.ri(1, 3)):
            if g.r.random() < 0.7:
                g.refine(budget=3)
            if g.r.random() < 0.5:
                g.given()
            g.balance(0, g.d)
            gs = g.r.choice([-1, 0])
            if gs == 0:
                g.add("ghost 0 0 %d" % g.d)
            d = g.r.choice([1, 2, 3, 0, 0])
            x = "" if d else " %d %d %d %d" % tuple(g.r.choice([0, 0, 1, 7]) for _ in range(4))
            g.add("plnodes 0 %d %d %d%s" % (gs, d, g.r.choice(pfcs), x))
        return [g.take()]
    return f


def gen_c04(g):
    g.setup(nref=g.ri(1, 3), weird=g.r.choice([0, 0, 0, 1]))
    g.balance()
    if g.r.random() < 0.5:
        g.add(g.L[-1])                 # a second call changes nothing
    if g.r.random() < 0.6:
        g.refine()
        g.shuffle()
        g.balance()
    return [g.take()]


def gen_c19(g):
    g.setup(nref=g.ri(1, 2))
    g.add("cksum 0")
    g.add("copy 0 1 %d %d" % (g.ri(0, 1), g.ri(0, 1)))
    for cd in (0, 1):
        g.add("equal 0 1 %d" % cd)
    k = g.r.random()
    if k < 0.2:
        g.add("modify 0 %d %d" % (g.ri(1, 10 ** 6), g.r.choice([50, 300])))
    elif k < 0.4:
        g.refine(g.ri(0, 1), budget=1)
    elif k < 0.55:
        g.coarsen(g.ri(0, 1))
    elif k < 0.85:
        s = g.ri(0, 1)
        g.given(s)
    else:
        g.balance(g.ri(0, 1))
    for cd in (0, 1):
        g.add("equal 0 1 %d" % cd)
        g.add("equal 1 0 %d" % cd)
    g.add("cksum 0")
    g.add("cksum 1")
    g.given(1)
    g.add("cksum 1")
    g.add("equal 0 1 0")
    g.add("valid 0")
    g.add("valid 1")
    g.add("destroy 0")
    mixed_slot1 = g.r.choice(["refine", "given"])
    if mixed_slot1 == "refine":
        g.refine(1)
    else:
        g.given(1)
    g.add("cksum 1")
    return [g.take()]


GRP = [0]


def gen_c07(g):
    """the same history on several process counts"""
    GRP[0] += 1
    grp = GRP[0]
    r = g.r
    out = []
    st = r.getstate()
    g.conn(0, weird=0)
    dsz = r.choice([0, 4, 16])
    g.add("det 1")
    g.add("new 0 0 0 %d 1 %d 1" % (r.choice([0, 1]), dsz))
    for _ in range(g.ri(4, 7)):
        k = r.choice(["refine", "refine", "coarsen", "balance", "partition", "cksum"])
        if k == "refine":
            p = r.choice(["h %d %d %d" % (g.ri(1, 10 ** 6), r.choice([100, 250, 400]), g.ri(2, 4)),
                          "pt %d %d %s" % (r.choice([4, 7, 11]), g.ri(0, 3), g.coord()),
                          "cid %d %d" % (g.ri(0, 7), g.ri(2, 4))])
            g.add("refine 0 %d -1 3 0 %s" % (g.ri(0, 1), p))
        elif k == "coarsen":
            g.add("partition 0 1 -1")
            g.add("coarsen 0 0 0 3 h %d %d 99" % (g.ri(1, 10 ** 6), r.choice([500, 1000])))
        elif k == "balance":
            g.add("balance 0 %d %d" % (g.ri(1, g.d), 3))
        elif k == "partition":
            g.partition()
        else:
            g.add("cksum 0")
    g.add("cksum 0")
    lines = g.L
    g.L = []
    for P in (1, 2, 3, 5, 7):
        out.append((P, grp, list(lines)))
    return out


def gen_ghost(g):
    """ghost layers, expansion, queries and exchange"""
    r = g.r
    g.setup(nref=g.ri(1, 2))
    for _ in range(g.ri(1, 2)):
        if r.random() < 0.6:
            g.balance()
        g.shuffle()
        k = g.ri(1, g.d)
        g.add("ghost 0 0 %d" % k)
        g.add("gquery 0 12")
        exch(g, 0)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            g.add("gexpand 0")
            if r.random() < 0.5:
                exch(g, 0)
            g.add("gquery 0 6")
        if r.random() < 0.3:
            g.add("ghost 1 0 %d" % g.ri(0, g.d))
            exch(g, r.choice([0, 1]))
        if r.random() < 0.3:
            g.add("valid 0")
    return [g.take()]


def exch(g, slot):
    r = g.r
    lo = r.choice([0, 1, 2, 3])
    g.add("gexch %d %d %d %d %d %d" % (slot, r.choice([0, 1, 1, 2, 2]), r.choice([1, 3, 4, 8, 12, 33, 64]),
                                       lo, lo + r.choice([-1, 0, 0, 1, 5, 30]), r.choice([0, 0, 1, 2])))


def gen_exch(g):
    r = g.r
    g.setup(nref=g.ri(1, 2))
    g.shuffle()
    g.add("ghost 0 0 %d" % g.ri(1, g.d))
    for _ in range(g.ri(2, 4)):
        exch(g, 0)
        if r.random() < 0.3:
            g.add("modify 0 %d %d" % (g.ri(1, 10 ** 6), r.choice([100, 1000])))
    if r.random() < 0.5:
        g.add("gexpand 0")
        exch(g, 0)
        exch(g, 0)
    return [g.take()]


def gen_iter(g):
    """iteration with every subset of callbacks, with and without ghosts"""
    r = g.r
    g.setup(nref=g.ri(1, 2))
    for _ in range(g.ri(1, 2)):
        k = g.ri(1, g.d)
        g.balance(0, k)
        g.shuffle()
        g.add("ghost 0 0 %d" % r.choice([1, g.d, g.d, g.ri(1, g.d)]))
        if r.random() < 0.3:
            g.add("gexpand 0")
        full = 15 if (g.d == 2 or k >= 2) else 3
        for _ in range(g.ri(1, 3)):
            m = r.choice([full, full, r.randint(1, 15) & full])
            g.add("iter 0 %d %d %d" % (r.choice([0, 0, 0, -1]), m, r.choice([2, 2, 0, 1])))
        if r.random() < 0.5:
            g.refine()
    return [g.take()]


def gen_lnodes(g):
    """node numberings of fully balanced forests"""
    r = g.r
    g.setup(nref=g.ri(1, 2))
    for _ in range(g.ri(1, 2)):
        g.balance(0, g.d)
        g.shuffle()
        g.add("ghost 0 0 %d" % g.d)
        degs = [1, 2, 3, -1, -2] if g.d == 2 else [1, 2, -1, -2, -3]
        for _ in range(g.ri(1, 3)):
            g.add("lnodes 0 0 %d %d" % (r.choice(degs + ([4, 5] if g.d == 2 else [3])), r.choice([4, 4, 7, 8, 24])))
        if r.random() < 0.3:
            g.refine()
    return [g.take()]


def gen_lnghost(g):
    """ghost layers that support the nodes of a matching kind"""
    r = g.r
    g.setup(nref=g.ri(1, 2))
    full = g.d
    for _ in range(g.ri(1, 2)):
        g.balance(0, full)
        g.shuffle()
        deg = r.choice([1, 2, -1, -2, -3] if g.d == 3 else [1, 2, -1, -2])
        kind = full if deg > 0 or deg == -g.d else -deg
        g.add("ghost 0 0 %d" % full)
        g.add("ghost 1 0 %d" % kind)
        g.add("lnodes 0 0 %d %d" % (deg, r.choice([4, 4, 7, 8, 24])))
        g.add("lnghost 0 1 %d -1" % deg)
        for _ in range(g.ri(0, 2)):
            g.add("lnghost 0 1 %d 1" % deg)
        exch(g, 1)
        if r.random() < 0.3:
            g.refine()
    return [g.take()]


def gen_nodes(g):
    """corner node numberings of fully balanced forests"""
    r = g.r
    g.setup(nref=g.ri(1, 2))
    for _ in range(g.ri(1, 2)):
        if r.random() < 0.2:
            g.add("nodes 0 -1 0")
        g.balance(0, g.d)
        g.shuffle()
        g.add("ghost 0 0 %d" % g.d)
        g.add("nodes 0 0 1")
        if r.random() < 0.3:
            g.add("nodes 0 -1 1")
        if r.random() < 0.4:
            g.refine()
            g.coarsen() if r.random() < 0.5 else None
    return [g.take()]

def gen_mesh(g):
    """mesh tables of balanced forests"""
    r = g.r
    g.setup(nref=g.ri(1, 2))
    for _ in range(g.ri(1, 2)):
        g.shuffle()
        kind = g.d if r.random() < 0.65 else g.ri(1, g.d)
        g.balance(0, g.d if r.random() < 0.8 else kind)
        if r.random() < 0.7:
            g.shuffle()
        if g.L[-1].split()[0] == "balance" and int(g.L[-1].split()[2]) < kind:
            kind = int(g.L[-1].split()[2])
        bal = [int(x.split()[2]) for x in g.L if x.startswith("balance 0 ")][-1]
        kind = min(kind, bal)
        g.add("ghost 0 0 %d" % r.choice([kind, g.d]))
        fl = r.choice([0, 1, 2, 3, 8, 11]) | r.choice([0, 4]) * (kind == g.d and g.d == 3)
        if fl & 12 == 12:
            fl ^= 8
        if r.random() < 0.6:
            fl |= 16
        g.add("mesh 0 0 %d %d" % (kind, fl))
        if r.random() < 0.4:
            g.refine()
            g.coarsen() if r.random() < 0.5 else None
    return [g.take()]


def gen_search(modes):
    """searches with scripted callbacks on arbitrary forests and partitions"""
    def gen(g):
        r = g.r
        g.setup(nref=g.ri(1, 3), maxmin=30)
        for _ in range(g.ri(1, 3)):
            g.shuffle()
            for _ in range(g.ri(1, 3)):
                m = r.choice(modes)
                fl = r.choice([1, 2, 3, 3, 3, 3]) | r.choice([0, 4])
                if m in (2, 3):
                    fl |= r.choice([0, 8, 8]) | r.choice([0, 16, 16])
                    if m == 2 and r.random() < 0.1:
                        fl &= 24
                n = r.choice([0, 1, 2, 3, 5, 8, 8]) if fl & 2 else 0
                g.add("search 0 %d %d %d %d" % (m, fl, g.ri(1, 10 ** 6), n))
            if 4 in modes and r.random() < 0.8:
                g.add("pquery 0 %d %d" % (g.ri(1, 10 ** 6), r.choice([20, 40])))
            if r.random() < 0.4:
                g.refine()
                g.coarsen() if r.random() < 0.5 else None
        return [g.take()]
    return gen


def det_history(g, dsz, nops=3):
    """a history whose result does not depend on the number of processes"""
    r = g.r
    g.add("new 0 0 0 %d 1 %d 1" % (r.choice([0, 1]), dsz))
    for _ in range(nops):
        k = r.choice(["refine", "refine", "coarsen", "balance", "partition"])
        if k == "refine":
            g.add("refine 0 %d -1 3 0 %s" % (g.ri(0, 1), r.choice([
                "h %d %d %d" % (g.ri(1, 10 ** 6), r.choice([100, 250]), g.ri(2, 3)),
                "pt %d %d %s" % (r.choice([3, 5, 9]), g.ri(0, 3), g.coord()),
                "cid %d %d" % (g.ri(0, 7), g.ri(2, 3))])))
        elif k == "coarsen":
            g.add("partition 0 1 -1")
            g.add("coarsen 0 0 0 3 h %d %d 99" % (g.ri(1, 10 ** 6), r.choice([500, 1000])))
        elif k == "balance":
            g.add("balance 0 %d 3" % g.ri(1, g.d))
        else:
            g.partition()


def gen_saveload(g):
    """forests written and read by different numbers of processes"""
    GRP[0] += 1
    grp = GRP[0]
    r = g.r
    out = []
    g.conn(0)
    dsz = r.choice([0, 1, 4, 8, 40, 100])
    if r.random() < 0.4:
        g.add("attr 0 %d %d" % (r.choice([1, 4, 9]), g.ri(1, 999)))
    g.add("det 1")
    det_history(g, dsz, g.ri(1, 4))
    base = g.L
    g.L = []
    files = {}      # id -> (dsz or 0, P or 1)
    nid = 0
    Ps = r.sample([p for p in (1, 2, 3, 4, 5, 6, 7) if p in g.pset or p < 4], 3)
    Ps.append(r.choice(Ps))
    for P in Ps:
        g.L = list(base)
        if r.random() < 0.5:
            g.shuffle()
        for _ in range(g.ri(1, 2)):
            fl = r.choice([0, 1, 1, 2, 3, 3])
            nid = r.choice([nid + 1, nid + 1, max(nid, 1)])
            g.add("save 0 %d %d" % (nid, fl))
            files[nid] = (dsz if fl & 1 else 0, P if fl & 2 else 1)
            if r.random() < 0.5:
                g.shuffle()
        slot = 2
        for i in r.sample(sorted(files), min(len(files), 3)):
            d, SP = files[i]
            fl = 0
            if d > 0 and r.random() < 0.7:
                fl, ds = 1, d
            else:
                ds = r.choice([0, 4, 8, d])
                if ds == 0 and r.random() < 0.3:
                    fl = 1
            if SP != P or r.random() < 0.4:
                fl |= 2
            if r.random() < 0.4:
                fl |= 4
            if r.random() < 0.4:
                fl |= 8
            g.add("load %d %d %d %d %d" % (slot, slot, i, ds, fl))
            if r.random() < 0.5:
                g.add("valid %d" % slot)
                if fl & 1 and ds:
                    nid += 1
                    g.add("save %d %d %d" % (slot, nid, r.choice([1, 3])))
                    files[nid] = (ds, P if " 3" in g.L[-1][-2:] else 1)
                g.refine(slot, budget=2, maxl=-1)
                g.partition(slot)
                if r.random() < 0.5:
                    g.balance(slot)
            slot += 1
        out.append((P, grp, g.L))
        g.L = []
    return out


def gen_inflate(g):
    r = g.r
    g.setup(nref=g.ri(1, 2), dsz=r.choice([0, 4, 8, 40]))
    for _ in range(g.ri(2, 5)):
        k = r.random()
        part = r.choice([0, 0, 1, 2, 3])
        if k < 0.5:
            g.add("inflate 0 %d %d 0 %d %d" % (r.choice([1, 2]), g.ri(0, 3), part, g.ri(1, 10 ** 6)))
            if r.random() < 0.5:
                s = int(g.L[-1].split()[2])
                g.add("valid %d" % s)
                g.add("equal 0 %d 0" % s)
                g.refine(s, budget=2, maxl=-1)
                g.partition(s)
                if r.random() < 0.5:
                    g.coarsen(s)
        else:
            g.add("inflate 0 1 %d %d %d %d" % (2 + g.ri(0, 1), g.ri(1, 6), part, g.ri(1, 10 ** 6)))
        if r.random() < 0.4:
            g.shuffle()
            if r.random() < 0.5:
                g.refine(0, budget=2)
    return [g.take()]


def gen_cio(g):
    r = g.r
    g.conn(0, small=False)
    if r.random() < 0.5:
        g.add("attr 0 %d %d" % (r.choice([1, 3, 8, 17]), g.ri(1, 999)))
    cur = 0
    nxt = 1
    for _ in range(g.ri(3, 6)):
        m = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
        g.add("cio %d %d %d %d" % (cur, nxt, m, g.ri(0, 10 ** 6)))
        if m < 8 and r.random() < 0.6:
            cur, nxt = nxt, nxt + 1
    if r.random() < 0.5:
        g.new(0, cur, dsz=0)
        g.refine(0, budget=2)
        g.balance(0)
    return [g.take()]


def gen_build(g):
    r = g.r
    g.setup(nref=g.ri(1, 3), maxmin=30)
    for _ in range(g.ri(1, 3)):
        if r.random() < 0.6:
            g.shuffle()
        fl = r.choice([0, 1, 1, 1]) | r.choice([0, 2, 2, 6])
        d = r.choice([0, 1, 1, 2])
        g.add("build 0 %d %d %d %d %d %s" % (d, g.dsz(), fl, r.choice([0, 0, 1, 2, 3, 3]), g.ri(0, 1), r.choice([
            "none", "all 99", "h %d %d 99" % (g.ri(1, 10 ** 6), r.choice([50, 200, 500, 900])),
            "h %d %d 99" % (g.ri(1, 10 ** 6), r.choice([50, 200, 500, 900])),
            "cid %d 99" % g.ri(0, 7), "bnd %d 99" % g.ri(0, 11)])))
        if r.random() < 0.4:
            g.refine(d, budget=2)
            g.partition(d)
            if r.random() < 0.5:
                g.balance(d)
            if r.random() < 0.5:
                g.add("valid %d" % d)
        for _ in range(g.ri(0, 4)):
            g.add("region %d %d" % (d, g.ri(0, 1)))
            if r.random() < 0.5:
                g.add("linear %d %d" % (d, r.choice([1, 2, 6, 12, 12])))
    return [g.take()]


def gen_points(g):
    r = g.r
    g.conn(0)
    for _ in range(g.ri(1, 3)):
        ml = r.choice([0, 1, 2, 3, 4, 6, 10, 29])
        g.add("points 0 0 %d %d %d %d %d %d" % (
            ml, r.choice([-1, 0, 1, 1, 2, 5]), r.choice([0, 1, 2, 4, 7, 12]),
            r.choice([0, 1, 2, 3]) | r.choice([0, 0, 8, 4]), g.dsz(), g.fl(False)))
        k = r.random()
        if k < 0.4:
            g.refine(0, budget=2)
            g.coarsen(0)
            g.partition(0)
        elif k < 0.6:
            g.balance(0)
        elif k < 0.7:
            g.add("valid 0")
    return [g.take()]


def gen_transfer(g):
    r = g.r
    g.setup(nref=g.ri(1, 2), maxmin=30)
    for _ in range(g.ri(2, 5)):
        if r.random() < 0.6:
            g.shuffle()
        g.add("transfer 0 %d %d %d %d" % (g.ri(0, 5), r.choice([1, 2, 3, 8]), r.choice([0, 1, 1, 2, 3, 4, 4, 4]), g.ri(1, 10 ** 6)))
        if r.random() < 0.3:
            g.refine(0, budget=3)
            g.coarsen(0)
    return [g.take()]


def gen_reduce(g):
    r = g.r
    g.setup(nref=g.ri(0, 2), maxmin=2)
    for _ in range(g.ri(1, 4)):
        k = r.random()
        if k < 0.6:
            g.given(0)
        elif k < 0.85:
            g.partition(0, wk=r.choice([3, 4, 5, 2]))
        m = r.choice([0, 1, 1, 2, 2])
        mask = r.choice([0, g.ri(0, 255), g.ri(0, 255), 1 << g.ri(0, 7)]) | r.choice([0, 1024])
        g.add("reduce 0 %d %d" % (m, mask if m else 0))
        if r.random() < 0.3:
            g.coarsen(0)
            g.refine(0, budget=1)
    return [g.take()]


def gen_qalg(g):
    for _ in range(4):
        g.add("qalg %d 400" % g.ri(1, 10 ** 8))
    return [g.take(P=1)]


def anyconn(g, slot, maxt=30):
    """every kind of connectivity"""
    k = g.r.random()
    d = g.d
    if k < 0.35:
        if d == 2:
            n = g.r.choice(C2 + ["circle", "drop", "diskp %d %d" % (g.ri(0, 1), g.ri(0, 1))])
        else:
            n = g.r.choice([c for c in C3 if c != "torus 3"] + ["torus %d" % g.ri(1, 4)])
        g.add("conn %d name %s" % (slot, n))
        return
    if k < 0.45:
        if d == 2:
            a = [g.ri(1, 5), g.ri(1, 4)]
        else:
            a = [g.ri(1, 3), g.ri(1, 3), g.ri(1, 3)]
        g.add("conn %d brick %s %s" % (slot, " ".join(map(str, a)), " ".join(str(g.ri(0, 1)) for _ in range(d))))
        return
    if k < 0.60:
        if d == 3 and k < 0.50:
            g.add("conn %d tets %d %d" % (slot, g.ri(1, 99999), g.ri(1, 6)))
            return
        m, n, p = (g.ri(1, 4), g.ri(1, 3), 1) if d == 2 else (g.ri(1, 3), g.ri(1, 2), g.ri(1, 2))
        g.add("conn %d rot %d %d %d %d %d" % (slot, g.ri(1, 99999), m, n, p, g.ri(0, max(0, m * n * p - 1) // 2)))
        return
    g.conn(slot, small=False, weird=g.ri(0, 1))


def gen_topo(g):
    for s in range(3):
        anyconn(g, s)
    for _ in range(g.ri(6, 9)):
        a, b = g.ri(0, 2), g.ri(0, 4)
        src = g.r.choice([a, a, g.ri(0, 2)])
        k = g.r.random()
        if k < 0.2:
            op = "permute %d %d" % (g.ri(1, 10 ** 6), g.ri(0, 1))
        elif k < 0.42:
            op = "join %d %d" % (g.ri(1, 10 ** 6), g.ri(0, 1))
        elif k < 0.52:
            op = "redcomp"
        elif k < 0.60:
            op = "complete"
        elif k < 0.67:
            op = "reduce"
        elif k < 0.74:
            op = "copy"
        elif k < 0.85:
            op = "inp %d" % g.ri(1, 10 ** 6)
        else:
            op = "refine %d" % g.r.choice([1, 2, 3, 3, 4] if g.d == 2 else [1, 2, 2])
            if g.d == 3:
                pass
        if op.startswith("refine"):
            # keep the result apart: it is not operated on any further
            g.add("cop 5 %d %s" % (src, op))
        elif op.startswith(("join", "permute", "inp", "redcomp")):
            g.add("cop %d %d %s" % (src if g.r.random() < .5 else g.ri(0, 2), src, op))
        else:
            g.add("cop 4 %d %s" % (src, op))
        if g.r.random() < 0.8:
            for _ in range(2):
                g.add("cbad %d %d" % (g.ri(0, 2), g.ri(1, 10 ** 6)))
    return [g.take(P=1)]


def gen_tets(g):
    """meshes of tetrahedra read from files"""
    for s in range(g.ri(6, 9)):
        g.add("tets %d %d %d" % (s % 2, g.ri(1, 10 ** 7), 0))
        if g.r.random() < 0.7:
            g.add("tets %d %d %d" % (s % 2, g.ri(1, 10 ** 7), g.ri(1, 13)))
    g.new(0, 0, dsz=0, maxmin=0)
    g.refine(0, budget=2)
    g.balance(0)
    return [g.take(P=1)]


def gen_xform(g):
    for s in range(3):
        anyconn(g, s)
        if g.r.random() < 0.4:
            g.add("cop %d %d permute %d %d" % (s, s, g.ri(1, 10 ** 6), g.ri(0, 1)))
        g.add("xform %d %d %d" % (s, g.ri(1, 10 ** 7), 120))
    return [g.take(P=1)]


def gen_wrap(g):
    """adaptation cycles of the wrap interface"""
    r = g.r
    store = r.random() < 0.5
    while True:
        g.conn(0)
        if not store or not g.cspec.startswith(("rotjoin", "glue")):
            break
        g.L.pop()
    how = r.choice([0, 0, 1, 2, 2, 3])
    kind = g.d if r.random() < 0.75 else g.ri(1, g.d)
    delay = r.choice([0, 0, 1, 1, 2, 3])
    fl = r.choice([0, 2, 2]) | (4 if store else 0) | r.choice([0, 8]) | r.choice([0, 16, 16])
    hollow = r.random() < 0.15
    deep = False
    if how >= 2:
        g.new(0, 0, maxmin=6)
        for _ in range(g.ri(0, 2)):
            if r.random() < 0.15:
                deep = True
                g.refine(pred="pt 29 %d %s" % (g.ri(0, 1), g.coord()), budget=3, rec=1, maxl=-1)
            else:
                g.refine()
        g.balance(0, g.d if store else kind)
        g.shuffle()
    g.add("wnew 0 0 %d %d %d %d %d" % (kind, fl | (1 if hollow else 0), delay, g.ri(0, 2 if g.d == 2 else 1), how))
    if hollow:
        g.add("wleaf 0 0")
        g.add("whollow 0 0")
    for _ in range(g.ri(2, 5)):
        pr, pc = r.choice([(0, 1000), (150, 300), (300, 600), (60, 900), (500, 100), (0, 500), (1000, 0)])
        if pr == 1000:
            pr = 600
        for _ in range(r.choice([1, 1, 2])):
            g.add("wmark 0 %d %d %d %d" % (g.ri(1, 10 ** 6), pr, pc, 30 if deep else 5))
        if r.random() < 0.12:
            g.add("whollow 0 1")
            g.add("whollow 0 0")
            if r.random() < 0.7:
                g.add("wmark 0 %d %d %d 5" % (g.ri(1, 10 ** 6), pr, pc))
        if r.random() < 0.1:
            g.add("wdelay 0 %d %d %d" % (g.ri(0, 2), g.ri(0, 1), g.ri(-1, 1)))
        g.add("wadapt 0")
        if r.random() < 0.3:
            g.add("wleaf 0 %d" % g.ri(0, 1))
        if r.random() < 0.2:
            g.add("wstruct 0 %d 0" % kind)
        g.add("wpart 0 %d %d" % (g.ri(0, 1), r.choice([7, 7, 7, r.randint(0, 6)])))
        if r.random() < 0.2:
            g.add("wleaf 0 1")
        g.add("wdone 0")
        if r.random() < 0.4:
            g.add("wleaf 0 %d" % g.ri(0, 1))
        if r.random() < 0.25:
            g.add("wstruct 0 %d 0" % kind)
        if r.random() < 0.2:
            g.add("wcopy 0 1 %d" % r.choice([0, 4, 16]))
            g.add("wleaf 1 0")
            if r.random() < 0.5:
                g.add("wdrop 1")
    return [g.take()]


def gen_plex(g):
    """conforming cell complexes of fully balanced forests"""
    r = g.r
    while True:
        g.conn(0)
        if not g.cspec.startswith("novert"):
            break
        g.L.pop()
    g.new(0, 0, maxmin=4)
    for _ in range(g.ri(1, 2)):
        g.refine(maxl=4 if r.random() < 0.8 else None)
    for _ in range(g.ri(1, 2)):
        g.balance(0, g.d)
        g.shuffle()
        for _ in range(g.ri(1, 2)):
            g.add("plex 0 %d %d" % (r.choice([0, 0, 1, 1, 2]), r.choice([0, 0, 1, 1, -1])))
        if r.random() < 0.3:
            g.refine(maxl=4)
    return [g.take()]


def gen_vtk(g):
    """graphics files"""
    r = g.r
    g.conn(0)
    nov = g.cspec.startswith("novert")
    if g.d == 2 and not nov and r.random() < 0.25:
        # graphics of forests of columns
        col_new(g, 0, False)
        for _ in range(g.ri(1, 2)):
            col_ops(g, 0, g.ri(1, 3), False)
            for _ in range(g.ri(1, 2)):
                nps = g.ri(0, 2)
                g.add("hvtk 0 %d %d %d %d %d %d %d" % (r.choice([0, 1, 1, 2]), r.choice([20, 20, 15, 10, 19]), g.ri(0, 1), g.ri(0, 1),
                                                       r.choice([0, 0, 1, 2, 3]), nps, 0))
        return [g.take(r.choice(g.pset))]
    g.new(0, 0, maxmin=4)
    for _ in range(g.ri(1, 3)):
        if r.random() < 0.7:
            g.refine(maxl=r.choice([5, 6, 7]))
        if r.random() < 0.5:
            g.balance(0, g.d)
        if r.random() < 0.4:
            g.shuffle()
        for _ in range(g.ri(1, 2)):
            mode = r.choice([0, 1, 1, 1, 1, 2, 2])
            gm = 2 if nov else r.choice([0, 0, 1, 2])
            sc = r.choice([-1, 20, 20, 20, 15, 10, 19])
            co = r.choice([-1, 0, 1, 1, 1])
            b = lambda: r.choice([0, 1, 1])
            g.add("vtk 0 %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
                mode, sc, co, gm, b(), b(), b(), r.choice([0, 0, 1, 2, 3]), g.ri(0, 2), g.ri(0, 2),
                g.ri(0, 2), g.ri(0, 2), r.choice([2, 3, 4] if g.d == 2 else [2, 2, 3, 4]), g.ri(0, 1)))
    return [g.take()]


def lay_pred(g):
    r = g.r
    return r.choice(["all %d" % r.choice([1, 2]), "h %d %d %d" % (g.ri(1, 10 ** 6), r.choice([100, 250, 500]), g.ri(2, 5)),
                     "h %d %d %d" % (g.ri(1, 10 ** 6), r.choice([100, 250, 500]), g.ri(2, 5)),
                     "hz %d %d %d" % (g.ri(1, 10 ** 6), r.choice([250, 500]), g.ri(2, 4)),
                     "z %d %d" % (r.choice([3, 5, 9]), r.choice([0, (1 << 29) - 1, 1 << 29, r.randrange(1 << 30)]))])


def col_ops(g, s, ops, group):
    """random operations on the column forest in slot s; a group history does
    not depend on the number of processes"""
    r = g.r
    for _ in range(ops):
        k = r.choice(["hrefc", "hrefc", "hrefl", "hrefl", "hcoac", "hcoac", "hcoal", "hbal", "hbal", "hpart", "hpart",
                      "hgiven", "hcnt", "hreset", "hcheck", "hcopy"])
        fl = 3 if group else g.fl()
        rec = r.choice([0, 1])
        if k == "hrefc":
            p = r.choice(["h %d %d %d" % (g.ri(1, 10 ** 6), r.choice([100, 250, 500]), g.ri(2, 4)),
                          "pt %d %d %s" % (r.choice([3, 4, 6]), g.ri(0, 3), g.coord()),
                          "cid %d %d" % (g.ri(0, 3), g.ri(2, 4)), "bnd %d %d" % (g.ri(0, 11), g.ri(2, 3))])
            g.add("hrefc %d %d %d %d %d %s" % (s, rec, -1 if group else r.choice([-1, -1, g.ri(1, 5)]), fl,
                                               0 if group else g.ri(2, 5), p))
        elif k == "hrefl":
            g.add("hrefl %d %d %d %d %d %s" % (s, rec, -1 if group else r.choice([-1, -1, g.ri(1, 5)]), fl,
                                               0 if group else r.choice([0, g.ri(2, 12)]), lay_pred(g)))
        elif k == "hcoac":
            if group or r.random() < 0.5:
                g.add("hpart %d 1 -1" % s)
            p = r.choice(["all 99", "h %d %d 99" % (g.ri(1, 10 ** 6), r.choice([300, 700])), "cid %d 99" % g.ri(0, 3)])
            g.add("hcoac %d %d %d %d %s" % (s, 0 if group else rec, 0 if group else g.ri(0, 1), fl, p))
        elif k == "hcoal":
            p = r.choice(["all 99", "h %d %d 99" % (g.ri(1, 10 ** 6), r.choice([300, 700])), "hz %d 500 99" % g.ri(1, 10 ** 6)])
            g.add("hcoal %d %d %d %d %s" % (s, rec, 0 if group else g.ri(0, 1), fl, p))
        elif k == "hbal":
            b = r.choice(["0 1", "0 1", "0 1", "0 1", "1 0", "2 -1", "0 0", "3 -2"])
            g.add("hbal %d %d %s %d" % (s, g.ri(1, 3), b, fl))
            if r.random() < 0.15:
                g.add(g.L[-1])
        elif k == "hpart":
            wk = r.choice([-1, -1, 0, 1, 2, 3])
            g.add("hpart %d %d %d%s" % (s, r.choice([0, 0, 1, 1, -1]), wk,
                                        "" if wk < 0 else " %d %d" % (g.ri(1, 10 ** 6), r.choice([1, 5, 100]))))
        elif k == "hgiven":
            g.add("hgiven %d %d %d" % (s, g.ri(0, 3), g.ri(1, 10 ** 6)))
        elif k == "hcnt":
            g.add("hcnt %d %d %d %d" % (s, g.ri(0, 1), g.ri(0, 3), g.ri(1, 10 ** 6)))
        elif k == "hreset":
            if not group:
                g.add("hreset %d %d %d" % (s, g.dsz(), g.ri(0, 1)))
        elif k == "hcheck":
            g.add("hcheck %d" % s)
        elif k == "hcopy":
            d = r.choice([x for x in (0, 1, 3) if x != s])
            g.add("hcopy %d %d %d %d" % (s, d, g.ri(0, 1), g.ri(-1, 1)))
            if r.random() < 0.3 and not group:      # go on with the copy
                g.add("hdrop %d" % s)
                g.add("hcopy %d %d 1 -1" % (d, s))
                g.add("hcheck %d" % s)


def col_new(g, s, group):
    r = g.r
    ds = 4 if group else g.dsz()
    if r.random() < 0.3:
        g.add("new 5 0 0 %d 1 0 0" % r.choice([0, 1]))
        if r.random() < 0.7:
            g.add("refine 5 1 -1 0 %d h %d 250 3" % (0 if group else g.ri(2, 5), g.ri(1, 10 ** 6)))
        g.add("hfrom %d 5 %d %d %d" % (s, r.choice([-1, 0, 1, 2]), ds, 1 if group else g.ri(0, 1)))
    else:
        g.add("hnew %d 0 %d %d %d %d %d %d %d" % (
            s, 0 if group else r.choice([0, 0, 3, 9]), r.choice([-1, 0, 0, 1]), r.choice([-1, 0, 0, 1, 2, 3]),
            r.choice([1, 1, 1, 2, 3, 5]), 1 if group else r.choice([0, 1]), ds, (1 if group else g.ri(0, 1)) + r.choice([0, 0, 8])))
    return ds


def gen_cols(g):
    """forests of columns: histories, files, several process counts"""
    r = g.r
    k = r.random()
    g.conn(0)
    if k < 0.6:
        col_new(g, 0, False)
        col_ops(g, 0, g.ri(5, 9), False)
        if r.random() < 0.3:
            g.add("hcio 0")
        return [g.take(r.choice(g.pset))]
    GRP[0] += 1
    grp = GRP[0]
    out = []
    ds = col_new(g, 0, True)
    if k < 0.75:
        col_ops(g, 0, g.ri(5, 8), True)
        g.add("hcheck 0")
        lines = g.L
        g.L = []
        for P in r.sample([1, 2, 3, 4, 5, 7], 3):
            out.append((P, grp, list(lines)))
        return out
    col_ops(g, 0, g.ri(2, 4), True)
    base = g.L
    nid = 0
    files = {}
    for P in r.sample([1, 2, 3, 4, 5, 7], 3):
        g.L = list(base)
        g.add("hpart 0 0 1 %d 9" % g.ri(1, 10 ** 6))
        nid += 1
        sd, sp = r.choice([(0, 0), (1, 0), (1, 1), (1, 1), (0, 1), (1, -1)])
        g.add("hsave 0 %d %d %d" % (nid, sd, sp))
        files[nid] = (ds if sd else 0, P if sp else 1)
        slot = 1
        for i in r.sample(sorted(files), min(len(files), 2)):
            d, SP = files[i]
            ld = 1 if d > 0 and r.random() < 0.7 else 0
            ap = 1 if SP != P or r.random() < 0.4 else r.choice([0, 0, -1])
            g.add("hload %d %d 0 %d %d %d %d" % (slot, i, d if ld else r.choice([0, 4, d]), ld, ap, g.ri(0, 1)))
            if r.random() < 0.4:
                g.add("hcheck %d" % slot)
            if r.random() < 0.4:
                g.add("hrefl %d 1 -1 3 3 %s" % (slot, lay_pred(g)))
                g.add("hbal %d %d 0 1 3" % (slot, g.ri(1, 3)))
            slot += 2
        out.append((P, grp, g.L))
        g.L = []
    return out


def gen_colnum(g):
    """ghost layers and numberings of column forests"""
    r = g.r
    g.conn(0)
    col_new(g, 0, False)
    for _ in range(g.ri(1, 3)):
        if r.random() < 0.6:
            g.add("hrefc 0 %d -1 %d %d %s" % (g.ri(0, 1), g.fl(), g.ri(2, 5), r.choice([
                "h %d %d %d" % (g.ri(1, 10 ** 6), r.choice([250, 500]), g.ri(2, 4)),
                "pt %d %d %s" % (r.choice([3, 4]), g.ri(0, 3), g.coord()), "cid %d %d" % (g.ri(0, 3), g.ri(2, 3))])))
        if r.random() < 0.7:
            g.add("hrefl 0 %d -1 %d %d %s" % (g.ri(0, 1), g.fl(), g.ri(2, 8), lay_pred(g)))

    def shuf():
        x = r.random()
        if x < 0.4:
            g.add("hgiven 0 %d %d" % (g.ri(0, 3), g.ri(1, 10 ** 6)))
        elif x < 0.8:
            g.add("hpart 0 0 %s" % r.choice(["-1", "2 %d 9" % g.ri(1, 999)]))
    shuf()
    if r.random() < 0.7:
        for kind in r.sample([1, 2], g.ri(1, 2)):
            g.add("hghost 0 1 %d" % kind)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                g.add("hgexp 1")
    if r.random() < 0.8:
        g.add("hbal 0 3 0 1 %d" % g.fl())
        if r.random() < 0.5:
            shuf()
        gh = r.random() < 0.7
        if gh:
            g.add("hghost 0 2 2")
        for d in r.sample([1, 2, 2, 3, 4], g.ri(1, 2)):
            g.add("hlnodes 0 %d %d" % (2 if gh else -1, d))
        if gh and r.random() < 0.3:
            g.add("hgexp 2")
    return [g.take(r.choice(g.pset))]
