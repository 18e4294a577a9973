"""P23: outputs keep the contents they were returned with.

Over sequences of calls in all modes every write is tracked to the storage it reaches through
views, and the contents of every output returned so far are compared with what was returned,
after every later call.
"""
from . import alias


def run(lab, tier):
    alias.all_jobs(lab, 1, tier)
