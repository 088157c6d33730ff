#!/usr/bin/env python3-vt
"""check.py <PROPERTY> : decide one property on /repo's current source (see DESIGN.md).

exit 0  held on everything analysed        exit 1  VIOLATION property=<id> replay=<path>
"""
import sys
import os
import json
import time
import re
import signal
import hashlib
import traceback
import importlib
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "ana")]
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)

import extract
from decide import Ob, PROVED, AGREE, REFUTED, UNKNOWN

EXPORTS = {}
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class TaskTimeout(Exception):
    pass


def _alarm(*_):
    raise TaskTimeout()


def run_task(spec):
    mod, fn, kw, limit = spec
    t0 = time.time()
    box = {}

    def body():
        try:
            f = getattr(importlib.import_module(mod), fn)
            box["r"] = f(**kw)
        except TaskTimeout:
            box["r"] = [Ob(f"{fn} {kw}", UNKNOWN, "time limit of the analysis")]
        except Exception as e:
            if type(e).__name__ == "Missing":
                box["r"] = [Ob("anchor", REFUTED, f"public item not found: {e}", str(e))]
            else:
                box["r"] = [Ob(f"{fn}", UNKNOWN, f"analysis gave up ({kw}): {type(e).__name__}: {e}"[:300])]
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
    body()
    r = box["r"]
    return [(o.name, o.verdict, str(o.detail)[:400], o.where) for o in r], time.time() - t0, f"{fn} {kw}"


def worker(conn, spec):
    try:
        conn.send(run_task(spec))
    except BaseException as e:
        try:
            conn.send(([(spec[1], UNKNOWN, f"{type(e).__name__}: {e}"[:200], "")], 0.0, f"{spec[1]} {spec[2]}"))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_all(tasks, jobs, total):
    """each task in its own forked process with a hard time limit"""
    ctx = mp.get_context("fork")
    t_end = time.time() + total
    todo, live, out = list(tasks), [], []
    while todo or live:
        while todo and len(live) < jobs:
            s = todo.pop(0)
            if time.time() > t_end:
                out.append(([(s[1], UNKNOWN, "total time limit", "")], 0.0, f"{s[1]} {s[2]}"))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, s))
            p.start()
            b.close()
            live.append((p, a, time.time() + min(s[3], max(1, t_end - time.time())), s))
        ready = mp.connection.wait([a for _, a, _, _ in live], timeout=0.2)
        nl = []
        for p, a, dl, s in live:
            if a in ready:
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(([(s[1], UNKNOWN, "analysis process ended", "")], 0.0, f"{s[1]} {s[2]}"))
                a.close()
                p.join()
            elif time.time() > dl:
                p.kill()
                p.join()
                a.close()
                out.append(([(s[1], UNKNOWN, f"time limit {s[2]}", "")], 0.0, f"{s[1]} {s[2]}"))
            else:
                nl.append((p, a, dl, s))
        live = nl
    return out


def known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f["property"] == pid and f.get("status") == "open"]


def main():
    import registry
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    prop = registry.PROPS[pid]
    try:
        for f in prop.get("exports", ["stats"]):
            EXPORTS[f] = extract.export(f)
    except extract.ExtractError as e:
        print(f"cannot extract the program: {e}", file=sys.stderr)
        sys.exit(2)
    import world
    world.EXPORTS = EXPORTS
    world.SEED = SEED
    world.TIER = tier
    mod = importlib.import_module(prop["module"])
    tasks = [(prop["module"],) + tuple(t) for t in getattr(mod, prop["tasks"])(pid, tier)]
    tasks = [t if len(t) == 4 else t + (prop.get("limit", 240),) for t in tasks]
    res = run_all(tasks, int(os.environ.get("VERIF_JOBS", "8")), 780 if tier == "quick" else 3000)
    obs, times = [], []
    for r, t, nm in res:
        obs += r
        times.append((round(t, 2), nm))
    cnt = {}
    for n, v, d, w in obs:
        cnt[v] = cnt.get(v, 0) + 1
    bad = [o for o in obs if o[1] == REFUTED]
    kf = known(pid)
    new, old = [], {}
    for o in bad:
        hit = next((k for k in kf if re.fullmatch(k["name"], o[0]) and (not k.get("where") or re.fullmatch(k["where"], o[3] or "")) and (not k.get("detail") or re.search(k["detail"], o[2]))), None)
        if hit:
            old.setdefault(hit["what"], []).append(o)
        else:
            new.append(o)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    unk = [o for o in obs if o[1] == UNKNOWN]
    samples = [f"{n}: {v} ({w})" + (f" — {d}" if d else "") for n, v, d, w in obs[:: max(1, len(obs) // 12)]][:14]
    from collections import Counter
    names = Counter(n.split(" [")[0] for n, _, _, _ in obs)
    wheres = sorted({w for _, _, _, w in obs if w})
    m = EXPORTS.get("stats") or EXPORTS.get("base")
    cov = {
        "explanation": prop["explanation"],
        "rule": prop["rule"],
        "obligations": len(obs),
        "discharged": cnt.get(PROVED, 0) + cnt.get(AGREE, 0),
        "proved_by_normal_form": cnt.get(PROVED, 0),
        "agree_under_random_interpretation": cnt.get(AGREE, 0),
        "refuted": len(bad),
        "undecided": len(unk),
        "undecided_samples": [f"{n}: {d}" for n, _, d, _ in unk[:12]],
        "known_findings_seen": len(old),
        "analysis_tasks": len(tasks),
        "constructs_analysed": wheres[:80],
        "functions_in_program": len(m["bodies"]) if m else 0,
        "obligation_kinds": dict(sorted(names.items())[:120]),
        "samples": samples,
        "slowest_tasks": sorted(times, reverse=True)[:3],
        "checker_cmd": f"python3-vt check.py {pid}",
        "trusted_base": prop.get("trusted", "rustc's MIR of /repo, the MIR exporter (driver/), the abstract interpreter and library leaf semantics (ana/)"),
    }
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": SEED, "level": prop["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what, os_ in old.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid} [{tier}] {prop['title']}: {len(obs)} obligations, {cnt.get(PROVED,0)} proved, {cnt.get(AGREE,0)} agree, {len(bad)} refuted, {len(unk)} undecided, {ev['wall_s']} s")
    if os.environ.get("VERIF_SHOW"):
        for n, v, d, w in unk[:40]:
            print("  undecided", n, d, w)
    if not obs:
        new = [("no obligations", REFUTED, "nothing could be analysed", "")]
    if new:
        replay = os.path.join(HERE, "evidence", "replay", f"{pid}.json")
        with open(replay, "w") as f:
            json.dump({"property": pid, "violations": [{"obligation": n, "detail": d, "construct": w} for n, _, d, w in new[:200]]}, f, indent=1)
        for n, _, d, w in new[:12]:
            print(f"  violated: {n} at {w}: {d}"[:500])
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    t = threading.Thread(target=lambda: box.append(_main()))
    box = []

    def _main():
        try:
            main()
            return 0
        except SystemExit as e:
            return e.code or 0
        except BaseException:
            traceback.print_exc()
            return 2
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)
