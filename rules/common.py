"""Helpers shared by the rules."""
from coan.interp import PList, Ten, MISSING, PyRaise
from coan.terms import T, eq0, ge0, is_num, p_add, p_sub, sym
from . import subjects as S


def run_call(lab, o, method, args, **kw):
    """Call and freeze at once (later mutations of aliased storage must not show)."""
    return lab.fz(lab.m(o, method, *args, **kw))


def clip(lab, subj, n):
    """A clip of exactly n frames (n concrete)."""
    return subj.X()


def seeds(lab, subj, o, hist):
    """Put a freshly built module into the requested history."""
    if hist == "fresh":
        return
    if hist.startswith("after"):
        S.with_history(lab, subj, o, int(hist[5:]))
        return
    if hist == "running":
        if subj.family in ("stateless", "list", "retrolambda", "container", "plist"):
            return
        S.with_history(lab, subj, o, 1)
        st = lab.m(o, "get_state")
        if st is None:
            return
        st = S.generalise(lab, st)
        S.assume_ranges(lab, subj, lab.scalars)
        lab.m(o, "set_state", st)
        return
    raise ValueError(hist)


# positions of the public step signatures of a continual child
SIG = {
    "forward_step": ("input", "update_state"),
    "forward_steps": ("input", "pad_end", "update_state"),
    "forward": ("input",),
    "_forward_step": ("input", "prev_state"),
}


def resolved_method(e):
    """The mode in which an opaque child is run by a call event."""
    if e.method == "__call__":
        return e.mode if e.mode in SIG else None
    return e.method if e.method in SIG else None


def child_flag(e, name, default):
    """Value of a flag the child receives; None if the method takes no such flag."""
    m = resolved_method(e)
    if m is None:
        return T("unknown", "mode", 0)
    if name not in SIG[m]:
        return None
    kw = e.kwargs
    if name in kw:
        return kw[name]
    i = SIG[m].index(name)
    if len(e.args) > i:
        return e.args[i]
    return default
