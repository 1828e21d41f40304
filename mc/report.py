"""Evidence, violations, known findings, and the exit protocol."""

import json
import os
import time

from .env import VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known_findings(prop):
    """{key: text} of the findings recorded for this property.

    Lines:  finding: property=<id> key=<key> <what fails>
            fixed: property=<id> <commit> <what failed>        (suppresses nothing)
    """
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    out[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return out


class Result:
    """What one shard found.  Merged by the driver."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.calls = 0
        self.parts = {}
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.notes = []

    def merge(self, o):
        for k in ("evaluations", "nontrivial", "states", "transitions", "traces", "calls", "nviol"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.parts.items():
            self.parts[k] = self.parts.get(k, 0) + v
        self.samples += o.samples
        self.violations += o.violations
        self.notes += o.notes

    def to_json(self):
        return self.__dict__

    @classmethod
    def from_json(cls, d):
        r = cls()
        r.__dict__.update(d)
        return r


def write_evidence(prop, tier, seed, level, res, rule, wall, exhaustive, assumptions, extra=None):
    cov = {}
    samples = res.samples[:12]
    if level == "model_checking":
        cov.update(states=res.states, transitions=res.transitions,
                   traces_validated_against_impl=res.traces, samples=samples,
                   evaluations=res.evaluations, distinct_nontrivial=res.nontrivial, rule=rule)
    else:
        cov.update(evaluations=res.evaluations, distinct_nontrivial=res.nontrivial, rule=rule,
                   samples=samples)
        if res.states:
            cov.update(states=res.states, transitions=res.transitions)
    cov["exhaustive"] = bool(exhaustive)
    cov["calls_into_implementation"] = res.calls
    cov["per_part_evaluations"] = res.parts
    if res.notes:
        cov["notes"] = sorted(set(res.notes))[:40]
    if extra:
        cov.update(extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(assumptions), wall_s=round(wall, 3), violations=res.nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, path)
