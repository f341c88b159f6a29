#!/usr/bin/env python3
"""Decide one property of /repo's current source.

usage: check.py <property id> [--tier quick|thorough]

exit 0  every decided obligation of the property holds
exit 1  an obligation fails (line 'VIOLATION property=<id> replay=<path>')
exit 2  the analysis itself could not be carried out (public anchor vanished, self-test failed)
"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.framework import Session, AnchorMissing, REPO  # noqa: E402
from registry import PROPERTIES, RULE  # noqa: E402


def known():
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding:"):
                w = line.split(None, 3)
                prop, fid = w[1].split("=")[1], w[2].split("=")[1]
                out[(prop, fid)] = w[3]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    s = Session(tier)
    from checks import selftest
    bad_self = selftest.run(s)
    if bad_self:
        print("ANALYSIS-ERROR self-test failed:", bad_self)
        return 2
    s.obs.clear()
    s.functions.clear()
    times = {}
    try:
        for g in PROPERTIES[pid]["groups"]:
            mod, fn = g.split(":")
            m = importlib.import_module("checks." + mod)
            times[g] = round(s.run(g, getattr(m, fn)), 2)
    except AnchorMissing as e:
        print(f"ANALYSIS-ERROR property={pid}: the public name {e} no longer exists in {REPO}")
        return 2
    ks = known()
    flt = PROPERTIES[pid].get("only")
    obs = [o for o in s.obs if flt is None or flt(o)]
    bad = [o for o in obs if o.status == "bad"]
    found = {}
    for o in obs:
        if o.status == "finding":
            if (pid, o.finding) in ks:
                found.setdefault(o.finding, o)
            elif any(f == o.finding for _, f in ks):
                o.status = "ok"         # behaves as recorded under another property; does not bear on this one
            else:
                bad.append(o)
    unk = [o for o in obs if o.status == "unknown"]
    ok = [o for o in obs if o.status == "ok"]
    for fid, o in sorted(found.items()):
        print(f"KNOWN-FINDING: property={pid} {fid}: {ks[(pid, fid)]}")
    print(f"property={pid} tier={tier} obligations={len(obs)} discharged={len(ok)} violated={len(bad)} "
          f"undecided={len(unk)} known={len(found)} functions={len(s.functions)} wall={time.time() - t0:.1f}s")
    for o in unk[:20]:
        print(f"  undecided: {o.group}: {o.label}: {o.why[:200]}")
    rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
    if os.path.exists(rp):
        os.remove(rp)
    if bad:
        with open(rp, "w") as f:
            for o in bad:
                line = f"{o.where}: {o.group}: {o.label}: {o.why}"
                f.write(line + "\n")
        for o in bad[:20]:
            print(f"  violated: {o.where}: {o.label}: {o.why[:300]}")
        print(f"VIOLATION property={pid} replay={rp}")
    ev = dict(
        property=pid, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=RULE,
            obligations=len(obs), discharged=len(ok), undecided=len(unk),
            known_findings=len(found), functions_analysed=len(s.functions),
            files_parsed=len({f[0] for f in s.functions if isinstance(f, tuple)}) or None,
            groups=times,
            samples=[f"{o.group}: {o.label}" for o in ok[:: max(1, len(ok) // 12)]][:15],
            undecided_obligations=[f"{o.group}: {o.label}: {o.why[:160]}" for o in unk[:40]],
            functions=sorted("::".join(map(str, f)).replace(REPO + "/", "") for f in s.functions if isinstance(f, tuple) and str(f[0]).startswith(REPO))[:400],
        ),
        assumptions=[
            "the models of jax, jax.numpy, equinox and the standard library in sa/ext.py, and real arithmetic in place of floating point",
            "array shapes of a well-typed call, as declared by the public API (the symbolic inputs of each check)",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(bad))
    ev["coverage"] = {k: v for k, v in ev["coverage"].items() if v is not None}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
