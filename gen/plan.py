"""What each check runs.  kinds: operations whose steps carry clauses of the
property.  n: number of random cases per dimension."""
from core import *

OWN = {
    "new": {"C01"}, "refine": {"C02"}, "coarsen": {"C03"}, "balance": {"C04"},
    "partition": {"C05", "C06"}, "plnodes": {"C05", "C06"}, "given": {"C05"}, "copy": {"C19"}, "equal": {"C19"},
    "cksum": {"C19"}, "valid": {"C01"}, "reset": {"C08"}, "modify": set(), "ghost": {"C09"}, "gexpand": {"C09"}, "gquery": {"C09"}, "gexch": {"C10"}, "conn": {"C20"}, "iter": {"C11"}, "lnodes": {"C12"}, "lnghost": {"C13"}, "nodes": {"C14"}, "mesh": {"C15"}, "search": {"C16", "C17"}, "pquery": {"C17"}, "save": {"C18"}, "load": {"C18"}, "inflate": {"C30"}, "cio": {"C33"},
    "build": {"C23"}, "region": {"C23"}, "linear": {"C23"}, "points": {"C24"}, "transfer": {"C25"}, "reduce": {"C27"}, "qalg": {"C22"}, "xform": {"C21"}, "cop": {"C20"}, "cbad": {"C20"}, "tets": {"C32"},
    "wnew": {"C26"}, "wmark": {"C26"}, "wadapt": {"C26"}, "wpart": {"C26"}, "wdone": {"C26"}, "whollow": {"C26"}, "wdelay": {"C26"}, "wcopy": {"C26"}, "wdrop": {"C26"}, "wleaf": {"C26"}, "wstruct": {"C26"}, "plex": {"C31"}, "vtk": {"C34"}, "hvtk": {"C34"},
    "hnew": {"C28"}, "hfrom": {"C28"}, "hrefc": {"C28"}, "hrefl": {"C28"}, "hcoac": {"C28"}, "hcoal": {"C28"}, "hbal": {"C28"}, "hpart": {"C28"}, "hgiven": {"C28"}, "hcnt": {"C28"}, "hcopy": {"C28"}, "hreset": {"C28"}, "hdrop": {"C28"}, "hcheck": {"C28"}, "hsave": {"C28"}, "hload": {"C28"}, "hcio": {"C28"}, "hghost": {"C29"}, "hgexp": {"C29"}, "hgdrop": {"C29"}, "hlnodes": {"C29"},
}


def owners(kind):
    return OWN.get(kind, set())


COREOPS = ["new", "refine", "coarsen", "balance", "partition", "given", "copy", "reset"]
ALLW = dict(refine=3, coarsen=3, balance=2, partition=2, given=1, valid=1, reset=1, modify=1, copy=1)
# exhaustive exploration of the forest state machine (spec/ForestMC.tla)
def mc(dim, dom, np_, lmax, inv, tier="quick"):
    return dict(module="ForestMC", const=dict(DIM=dim, DOMAIN_=dom, NP=np_, LMAX=lmax), inv=inv.split(), tier=tier)


# behaviours of the forest state machine (spec/ForestSim.tla)
def sim(dim, dom, np_, num, tail=(), lmax=None, leaves=80, steps=8):
    return dict(module="ForestSim", num=num, tail=list(tail),
                const=dict(DIM=dim, DOMAIN_=dom, NP=np_, LMAX=lmax or (6 if dim == 2 else 4), STEPS=steps, MAXLEAVES=leaves))


def sims(num=6, tail=(), leaves=80, steps=8, flat=False):
    if flat:      # small meshes only
        return [sim(2, "rotated", 3, num, tail, 3, leaves, steps), sim(2, "periodic", 4, num, tail, 3, leaves, steps),
                sim(3, "rotated", 3, num, tail, 2, leaves, steps), sim(3, "two", 4, num, tail, 2, leaves, steps)]
    return [sim(2, "rotated", 3, num, tail, leaves=leaves, steps=steps), sim(2, "periodic", 4, num, tail, leaves=leaves, steps=steps),
            sim(2, "unit", 2, num, tail, lmax=29, leaves=leaves, steps=steps), sim(2, "same", 5, num, tail, leaves=leaves, steps=steps),
            sim(3, "rotated", 3, num, tail, leaves=leaves, steps=steps), sim(3, "periodic", 2, num, tail, leaves=leaves, steps=steps),
            sim(3, "two", 4, num, tail, lmax=29, leaves=leaves, steps=steps)]


PLANS = {
    "C01": dict(kinds=COREOPS + ["valid"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[
        (gen_mix(dict(ALLW, valid=2), 7), 4), (gen_mix(dict(refine=2, coarsen=3, given=3, pfc=2), 7), 2)]),
    "C02": dict(kinds=["refine"], n={2: 60, 3: 40}, gens=[
        (gen_mix(dict(refine=8, given=2, coarsen=1), 8), 3)]),
    "C03": dict(kinds=["coarsen"], n={2: 60, 3: 40}, gens=[
        (gen_mix(dict(refine=3, coarsen=6, given=1, partition=2), 9), 3)]),
    "C04": dict(kinds=["balance"], n={2: 90, 3: 70}, gens=[(gen_c04, 1)]),
    "C05": dict(kinds=["partition", "given", "plnodes"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 6, 7, 8), gens=[
        (gen_mix(dict(refine=1, partition=6, given=3), 9), 3), (gen_plnodes([0, 0, 0, 1]), 1)]),
    "C06": dict(kinds=["partition", "plnodes"], n={2: 60, 3: 40}, pset=(2, 3, 4, 5, 6, 7, 8), gens=[
        (gen_mix(dict(refine=1, pfc=6, given=1, coarsen=1), 9), 3), (gen_plnodes([1]), 1)]),
    "C07": dict(kinds=["refine", "coarsen", "balance", "partition", "cksum", "new"], n={2: 90, 3: 60}, delay="all",
                owns_all=True, gens=[(gen_c07, 1)]),
    "C08": dict(kinds=COREOPS, n={2: 60, 3: 40}, gens=[(gen_mix(ALLW, 8), 3)]),
    "C19": dict(kinds=["copy", "equal", "cksum", "modify"], n={2: 60, 3: 40}, gens=[(gen_c19, 1)]),
    "C09": dict(kinds=["ghost", "gexpand", "gquery"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_ghost, 1)], env={"DRV_CAP": "100"}),
    "C10": dict(kinds=["gexch"], n={2: 60, 3: 40}, pset=(2, 3, 4, 5, 7), delay="all", gens=[(gen_exch, 1), (gen_ghost, 1)], env={"DRV_CAP": "100"}),
    "C11": dict(kinds=["iter"], n={2: 60, 3: 30}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_iter, 1)], env={"DRV_CAP": "80"}),
    "C12": dict(kinds=["lnodes"], n={2: 60, 3: 30}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_lnodes, 1)], env={"DRV_CAP": "50"}),
    "C13": dict(kinds=["lnodes", "lnghost"], n={2: 60, 3: 30}, pset=(2, 3, 4, 5, 7), gens=[(gen_lnodes, 1), (gen_lnghost, 2)], env={"DRV_CAP": "50"}),
    "C14": dict(kinds=["nodes"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_nodes, 1)], env={"DRV_CAP": "60"}),
    "C15": dict(kinds=["mesh"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_mesh, 1)], env={"DRV_CAP": "60"}),
    "C16": dict(kinds=["search"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_search([0, 0, 1, 2, 3]), 1)], env={"DRV_CAP": "120"}),
    "C17": dict(kinds=["search", "pquery"], n={2: 60, 3: 40}, pset=(2, 3, 4, 5, 7, 8), gens=[(gen_search([4, 5, 6, 7]), 1)], env={"DRV_CAP": "120"}),
    "C18": dict(kinds=["save", "load"], n={2: 48, 3: 32}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_saveload, 1)]),
    "C30": dict(kinds=["inflate"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_inflate, 1)]),
    "C33": dict(kinds=["cio"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5), gens=[(gen_cio, 1)]),
    "C23": dict(kinds=["build", "region", "linear"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_build, 1)]),
    "C24": dict(kinds=["points"], n={2: 70, 3: 50}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_points, 1)]),
    "C25": dict(kinds=["transfer"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7, 8), delay="all", gens=[(gen_transfer, 1)]),
    "C20": dict(kinds=["conn", "cop", "cbad"], n={2: 40, 3: 40}, pset=(1,), gens=[(gen_topo, 1)]),
    "C21": dict(kinds=["xform"], n={2: 40, 3: 40}, pset=(1,), gens=[(gen_xform, 1)]),
    "C32": dict(kinds=["tets"], dims=(3,), n={3: 60}, batches={3: 8}, pset=(1,), gens=[(gen_tets, 1)]),
    "C22": dict(kinds=["qalg"], n={2: 24, 3: 24}, pset=(1,), gens=[(gen_qalg, 1)]),
    "C26": dict(kinds=["wnew", "wadapt", "wpart", "wdone", "whollow", "wdelay", "wcopy", "wleaf", "wstruct"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_wrap, 1)], env={"DRV_CAP": "120"}),
    "C31": dict(kinds=["plex"], n={2: 60, 3: 40}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_plex, 1)], env={"DRV_CAP": "40"}),
    "C34": dict(kinds=["vtk", "hvtk"], n={2: 65, 3: 30}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_vtk, 1)], env={"DRV_CAP": "60"}),
    "C28": dict(kinds=[k for k in OWN if OWN[k] == {"C28"}], dims=(2,), n={2: 90}, batches={2: 8}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_cols, 1)], env={"DRV_CAP": "70"}),
    "C29": dict(kinds=["hghost", "hgexp", "hlnodes"], dims=(2,), n={2: 90}, batches={2: 8}, pset=(1, 2, 3, 4, 5, 7), gens=[(gen_colnum, 1)], env={"DRV_CAP": "40"}),
    "C27": dict(kinds=["reduce"], n={2: 60, 3: 40}, pset=(2, 3, 4, 5, 7, 8), gens=[(gen_reduce, 1)]),
}
NA = {}

PLANS["C01"].update(sim=sims(), mc=[mc(2, "unit", 3, 2, "InvTiling InvInverse"), mc(2, "rotated", 2, 2, "InvTiling InvInverse", "thorough"),
                                    mc(3, "unit", 2, 2, "InvTiling InvInverse", "thorough")])
PLANS["C02"].update(sim=sims(), mc=[mc(2, "unit", 2, 2, "InvTiling InvInverse")])
PLANS["C03"].update(sim=sims(), mc=[mc(2, "unit", 2, 2, "InvTiling InvInverse")])
PLANS["C04"].update(sim=sims(), mc=[mc(2, "rotated", 1, 2, "InvBalance InvTwoToOne"), mc(3, "periodic", 1, 2, "InvBalance InvTwoToOne"),
                                    mc(2, "unit", 1, 3, "InvBalance InvTwoToOne", "thorough"), mc(2, "same", 2, 2, "InvBalance InvTwoToOne", "thorough"),
                                    mc(3, "rotated", 1, 2, "InvBalance InvTwoToOne", "thorough")])
PLANS["C05"].update(sim=sims(), mc=[mc(2, "unit", 3, 2, "InvUniform InvWeights InvShipped"), mc(3, "unit", 2, 2, "InvUniform InvWeights InvShipped", "thorough"),
                                    mc(2, "two", 2, 2, "InvUniform InvWeights InvShipped", "thorough")])
PLANS["C06"].update(sim=sims(), mc=[mc(2, "unit", 3, 2, "InvPfc"), mc(2, "two", 2, 2, "InvPfc", "thorough"), mc(2, "unit", 4, 2, "InvPfc", "thorough"),
                                    mc(3, "unit", 2, 2, "InvPfc", "thorough")])
PLANS["C08"].update(sim=sims())
PLANS["C09"].update(sim=sims(3, [lambda r, d: "ghost 0 0 %d" % r.randint(1, d)]),
                    mc=[mc(2, "unit", 2, 2, "InvGhost"), mc(2, "rotated", 2, 2, "InvGhost", "thorough"), mc(3, "periodic", 2, 2, "InvGhost", "thorough")])
PLANS["C12"].update(sim=sims(2, [lambda r, d: "balance 0 %d 0" % d, lambda r, d: "ghost 0 0 %d" % d,
                                 lambda r, d: "lnodes 0 0 %d 4" % r.choice([1, 1, 2, -1, -d])], leaves=20, steps=4, flat=True))
PLANS["C15"].update(sim=sims(3, [lambda r, d: "balance 0 %d 0" % d, lambda r, d: "ghost 0 0 %d" % d,
                                 lambda r, d: "mesh 0 0 %d 3" % r.randint(1, d)], leaves=40, steps=6, flat=True))
