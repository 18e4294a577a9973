"""P19: what a checkpoint holds is fixed at construction; no stream call adds, removes or changes an entry."""
from coan.interp import MISSING, PDict
from coan.lab import same
from coan.terms import T, show
from . import subjects as S
from .common import seeds
from .p15 import inputs, nestings

OPS = {
    "forward_step": lambda lab, o, x, X: lab.m(o, "forward_step", *x),
    "preview": lambda lab, o, x, X: lab.m(o, "forward_step", *x, update_state=False),
    "forward_steps": lambda lab, o, x, X: lab.m(o, "forward_steps", *X),
    "forward": lambda lab, o, x, X: lab.m(o, "forward", *X),
    "clean_state": lambda lab, o, x, X: lab.m(o, "clean_state"),
    "set_state": lambda lab, o, x, X: put_back(lab, o),
    "_forward_step": lambda lab, o, x, X: lab.m(o, "_forward_step", *x, lab.m(o, "get_state")),
}
SEQS = [("forward_step",), ("forward_step", "forward_step", "clean_state"), ("forward_step", "set_state", "preview"), ("forward_steps",), ("forward",), ("clean_state", "forward_step"), ("forward_step", "_forward_step"), ("forward_step", "forward", "forward_step")]


def put_back(lab, o):
    st = lab.m(o, "get_state")
    if st is not None:
        lab.m(o, "set_state", st)


def entries(lab, o):
    d = lab.m(o, "state_dict")
    if not isinstance(d, PDict):
        return lab.fz(d)
    return tuple((k, lab.fz(v)) for k, v in d.pairs)


def one(lab, subj, hist, seq):
    def thunk(ctx):
        o = subj.build(lab)
        a = entries(lab, o)
        n0 = len(ctx.events)
        if subj.family not in ("nest",):
            seeds(lab, subj, o, hist)
        x = inputs(subj, 0) if subj.family == "nest" else subj.x(0)
        X = subj.X() if subj.family != "nest" else clip(lab, subj)
        for i, op in enumerate(seq):
            OPS[op](lab, o, x, X)
        b = entries(lab, o)
        reg = [f"{e.attr}" for e in ctx.events[n0:] if e.kind == "register_buffer" and e.persistent is not False or e.kind == "register_parameter"]
        return a, b, reg

    def judge(path):
        a, b, reg = path.value
        out = [(not reg, f"{', '.join(map(str, reg))} becomes part of the checkpoint during the stream")]
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return [(None, "the checkpoint is not a plain mapping")]
        absent = lambda v: isinstance(v, T) and path.facts.query(T("kind", v, "None")) is True
        a, b = [e for e in a if not absent(e[1])], [e for e in b if not absent(e[1])]
        ka, kb = [k for k, _ in a], [k for k, _ in b]
        out.append((ka == kb, f"the checkpoint's entries change from {ka} to {kb}"))
        for (k, u), (k2, v) in zip(a, b):
            if k == k2:
                out.append((same(u, v, path.facts), f"{k} changes from {show(u)[:60]} to {show(v)[:60]}"))
        return out

    lab.obligation(f"fixed-{hist}-{'+'.join(seq)}", subj.name, subj.where(lab, "__init__", "_forward_step", "forward_step", "forward"), thunk, judge)


def clip(lab, subj):
    return subj.X()


def batch(lab, subj, hists, seqs):
    for h in hists:
        for q in seqs:
            one(lab, subj, h, q)


def run(lab, tier):
    quick = tier == "quick"
    for subj in S.leaves() + S.mha_subjects() + S.rpe_subjects():
        if subj.family in ("list",):
            continue
        lab.job(batch, subj, ("fresh",) if quick else ("fresh", "running"), SEQS)
    for subj in nestings():
        lab.job(batch, subj, ("fresh",), [q for q in SEQS if not {"set_state", "forward_steps", "forward"} & set(q)])
    for subj in S.container_subjects():
        lab.job(batch, subj, ("fresh",), [("forward_step",), ("forward_steps",), ("forward",), ("clean_state",)])
