"""The workloads of the other checks as building blocks: what they do alone is the oracle for what they do under something else."""
import copy
import importlib
import random

from . import core

# name: (module, function, weight)
ALL = {
    "serialize": ("c01", "serialize_case", 4),
    "described": ("c01", "described_case", 1),
    "value-session": ("c01", "session_case", 2),
    "deserialize": ("c02", "deserialize_case", 4),
    "text": ("c03", "random_case", 1),
    "graph-out": ("c04", "send_case", 2),
    "graph-in": ("c04", "recv_case", 2),
    "known-in": ("c04", "known_received_case", 1),
    "known-out": ("c04", "known_sent_case", 1),
    "secrets": ("c05", "exchanged", 3),
    "sizes": ("c06", "session_case", 2),
    "fragments": ("c07", "valid_case", 2),
    "pipelines": ("c08", "pipelines_case", 4),
    "input": ("c09", "input_case", 2),
    "built": ("c10", "pipeline_case", 2),
    "life": ("c11", "walk_case", 3),
    "calls": ("c13", "case_", 2),
    "host-calls": ("c14", "recorded_case", 2),
    "operations": ("c16", "operations_case", 2),
    "faults": ("c15", "operations_case", 2),
    "idle": ("c18", "process_case", 1),
    "processes": ("c22", "shells_case", 3),
    "cmd": ("c25", "cmd_case", 2),
    "ps": ("c25", "ps_case", 2),
    "open": ("c28", "case_", 2),
    "reconnect": ("c27", "same_client_case", 1),
    "metadata": ("c29", "case_", 1),
}


def pick(r, names=None):
    names = sorted(names or ALL)
    return r.choices(names, [ALL[n][2] for n in names])[0]


def function(name):
    mod, fn, _ = ALL[name]
    return getattr(importlib.import_module("checks." + mod), fn)


def sub(case, name, seed):
    """A case of another check with its own random numbers and its own counters."""
    ctx = copy.copy(case.ctx)
    ctx.counters, ctx.distinct, ctx.samples = {}, set(), []
    ctx.__dict__.pop("keys", None)
    return core.Case(ctx, name, 0, random.Random(seed))
