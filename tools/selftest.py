#!/usr/bin/env python3
"""selftest.py MODULE FAMILY MODE N [SEED]: how much do the trace specifications notice?

Records traces of the tree in /repo, corrupts one event of each (dropped, doubled, swapped with the next, or one field
changed) and reports, per kind of corruption, how many of the corrupted traces are still behaviours. Those that are
accepted are either harmless (another order of independent events) or show something that the contract doesn't say."""
import collections, copy, json, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "bin"))
import vlib

module, fam, mode, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4])
seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
show = os.environ.get("SHOW", "")
w = vlib.Work()
w.build()
traces, _ = w.drive(fam, mode, n, seed, env={k: v for k, v in os.environ.items() if k.startswith("VH_")})
r = random.Random(seed)


def change(v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + r.choice([1, -1]) if v > 0 else v + 1
    if isinstance(v, str):
        return {"ok": "fatal", "fatal": "ok"}.get(v, "ok")
    if isinstance(v, list):
        if v and r.random() < .5:
            i = r.randrange(len(v))
            if isinstance(v[i], dict):
                k = r.choice(sorted(v[i]))
                return v[:i] + [dict(v[i], **{k: change(v[i][k])})] + v[i + 1:]
            return v[:i] + v[i + 1:]
        return v + [1] if not v or isinstance(v[0], int) else v[:-1]
    return v


out, kind = [], {}
for t in traces:
    ev = t["ev"]
    if len(ev) < 3:
        continue
    for _ in range(2):
        c = copy.deepcopy(t)
        e = c["ev"]
        i = r.randrange(len(e) - 1)
        if r.random() < .6:
            # events of rare kinds as often as frequent ones
            ks = sorted({x["e"] for x in e})
            k = r.choice(ks)
            i = r.choice([j for j in range(len(e)) if e[j]["e"] == k])
        name = e[i]["e"] + (":" + str(e[i]["k"]) if "k" in e[i] else "")
        op = r.choice(["drop", "double", "swap", "field", "field", "field"])
        if op == "drop":
            del e[i]
        elif op == "double":
            e.insert(i, copy.deepcopy(e[i]))
        elif op == "swap":
            if i + 1 >= len(e) or e[i] == e[i + 1]:
                continue
            e[i], e[i + 1] = e[i + 1], e[i]
            name += "/" + e[i]["e"]
        else:
            fs = [k for k in sorted(e[i]) if k != "e"]
            if not fs:
                continue
            f = r.choice(fs)
            old = e[i][f]
            e[i][f] = change(old)
            if e[i][f] == old:
                continue
            op = "field." + f
        c["id"] = len(out)
        kind[c["id"]] = (op, name, i)
        out.append(c)
rej, _, _ = w.validate(module, out, timeout=1500)
bad = {t["id"] for t, _ in rej}
tot, acc = collections.Counter(), collections.Counter()
for i, (op, name, _) in kind.items():
    tot[op, name] += 1
    acc[op, name] += i not in bad
print(module, fam, mode, len(out), "corrupted traces,", len(bad), "refused")
for k in sorted(tot, key=lambda k: -acc[k]):
    if acc[k]:
        print(f"  {acc[k]:4}/{tot[k]:4} accepted  {k[0]:14} {k[1]}")
if show:
    for c in out:
        op, name, i = kind[c["id"]]
        if c["id"] not in bad and show in (op + " " + name):
            print(op, name, i, c["cfg"])
            for j, e in enumerate(c["ev"]):
                print("  >" if j == i else "   ", j + 1, {k: v for k, v in e.items() if v not in (0, [], False, None)})
            break
w.close()
