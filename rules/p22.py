"""P22: processing calls do not change the caller's inputs.

Inputs are tensors (and lists of them) with storage of their own; over sequences of calls in all
modes every write is tracked to the storage it reaches through views, and the contents of every
input handed over so far are compared with what was handed over, after every call.
"""
from . import alias


def run(lab, tier):
    alias.all_jobs(lab, 0, tier)
