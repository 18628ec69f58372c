"""What each check runs. A step is one of
  MC(module, cfg)                    TLC explores the whole state graph of a model and checks its invariants
  RUN(fam, mode, n, module)          n scenarios of a family on the real code; every trace must be a behaviour of module
  ENUM(fam, gens, plans, module)     as RUN, the stimuli being all those TLC enumerates from a generator module"""
import collections, json, os, random, re, sys, time, traceback
import vlib
from vlib import CheckError

KNOWN = os.path.join(vlib.VERIF, "known-findings.txt")


class MC:
    def __init__(self, module, cfg=None, timeout=600, **kw):
        self.module, self.cfg, self.timeout, self.kw = module, cfg, timeout, kw


class RUN:
    def __init__(self, fam, mode, n, module, env=None, cfg=None, seconds=3600):
        self.fam, self.mode, self.n, self.module, self.env, self.cfg, self.seconds = fam, mode, n, module, env or {}, cfg, seconds


class ENUM:
    """gens: [(generator module, its env (CFG: its configuration), line prefix)]; the driver gets one line per sequence,
    times plans."""
    def __init__(self, fam, mode, gens, plans, module, fmt=str, env=None, cfg=None, take=None):
        self.take = take       # so many of them, chosen at random
        self.fam, self.mode, self.gens, self.plans, self.module, self.fmt = fam, mode, gens, plans, module, fmt
        self.env, self.cfg = env or {}, cfg


# ---------------------------------------------------------------------------------------------------------------
def recv_enum(*sets):
    gens = [("RecvEnum", dict(ENUM_SET=s, ENUM_N=str(n), ENUM_MAX=str(mx), ENUM_FRAG=str(fr)), f"{mx} {fr} ")
            for s, n, mx, fr in sets]
    return ENUM("recv", "enum", gens, 7, "RecvTrace", lambda s: re.sub(r'[",\s]', "", s))


CHECKS = {
    "C01": dict(
        quick=[MC("RecvMC"), recv_enum(("data", 3, -1, 0)), RUN("recv", "C01", 3000, "RecvTrace")],
        thorough=[MC("RecvMC", "RecvMC4"), MC("RecvMC", "RecvMCall4"), recv_enum(("data", 4, -1, 0)), RUN("recv", "C01", 40000, "RecvTrace")]),
    "C02": dict(
        quick=[MC("RecvMC"), recv_enum(("all", 2, -1, 0), ("all", 3, -1, 0)), RUN("recv", "C02", 3000, "RecvTrace")],
        thorough=[MC("RecvMC", "RecvMC4"), recv_enum(("all", 3, -1, 0), ("core", 5, -1, 0)), RUN("recv", "C02", 40000, "RecvTrace")]),
    "C03": dict(
        quick=[MC("RecvMC"), recv_enum(("limits", 4, 4, 2), ("limits", 4, 4, 0), ("limits", 4, -1, 2)), RUN("recv", "C03", 2500, "RecvTrace")],
        thorough=[MC("RecvMC", "RecvMC4"), recv_enum(("limits", 6, 4, 2), ("limits", 5, 4, 0), ("limits", 5, -1, 2), ("limits", 5, 6, 3)),
                  RUN("recv", "C03", 30000, "RecvTrace")]),
    "C04": dict(
        quick=[MC("RecvMC", "RecvMCall"), recv_enum(("data", 3, -1, 0)), RUN("recv", "C04", 4000, "RecvTrace")],
        thorough=[MC("RecvMC", "RecvMCall4"), recv_enum(("data", 4, -1, 0)), RUN("recv", "C04", 40000, "RecvTrace")]),
}


def wire(mode, quick, thorough, mixed=0):
    return dict(quick=[RUN("wire", mode, quick, "WireTrace")] + ([RUN("wire", "mixed", mixed, "WireTrace")] if mixed else []),
                thorough=[RUN("wire", mode, thorough, "WireTrace"), RUN("wire", "mixed", thorough // 4, "WireTrace")])


CHECKS["C16"] = dict(quick=[RUN("rate", "x", 6000, "RateLimitTrace")], thorough=[RUN("rate", "x", 150000, "RateLimitTrace")])
def hand_enum(k):
    return ENUM("hand", "enum", [("HandshakeEnum", dict(ENUM_K=str(k)), "")], 1, "HandshakeTrace", lambda s: s.replace(" ", ""))


CHECKS["C18"] = dict(quick=[hand_enum(2), RUN("hand", "x", 8000, "HandshakeTrace")],
                     thorough=[hand_enum(3), RUN("hand", "x", 150000, "HandshakeTrace")])
for p in ("C05", "C06", "C07", "C08", "C09", "C10", "C17", "C19"):
    CHECKS[p] = wire(p, 4000, 60000)
CHECKS["C17"] = dict(quick=[RUN("wire", "C17", 3000, "WireTrace"), RUN("keep", "x", 4000, "KeepAliveTrace")],
                     thorough=[RUN("wire", "C17", 60000, "WireTrace"), RUN("keep", "x", 80000, "KeepAliveTrace")])


CHECKS["C09"] = dict(quick=[RUN("wire", "C09", 3500, "WireTrace"), RUN("recv", "C09", 3000, "RecvTrace")],
                     thorough=[RUN("wire", "C09", 60000, "WireTrace"), RUN("wire", "mixed", 15000, "WireTrace"), RUN("recv", "C09", 40000, "RecvTrace")])
CHECKS["C10"] = dict(quick=[RUN("wire", "C10", 3000, "WireTrace"), RUN("life", "x", 4000, "LifecycleTrace")],
                     thorough=[RUN("wire", "C10", 60000, "WireTrace"), RUN("life", "x", 80000, "LifecycleTrace")])


def hub(mode, n, *kinds):
    return [RUN("hub", mode, n, k.capitalize() + "Trace", env=dict(VH_KIND=k)) for k in kinds]


CHECKS["C11"] = dict(quick=hub("C11", 3000, "registry") + hub("mixed", 1000, "registry"),
                     thorough=hub("C11", 30000, "registry") + hub("mixed", 10000, "registry") + hub("C20", 10000, "registry"))
CHECKS["C12"] = dict(quick=hub("C12", 3000, "rooms") + hub("mixed", 1000, "rooms"),
                     thorough=hub("C12", 30000, "rooms") + hub("mixed", 10000, "rooms") + hub("C20", 10000, "rooms"))
CHECKS["C13"] = dict(quick=hub("C13", 3000, "bcast") + hub("mixed", 1500, "bcast"),
                     thorough=hub("C13", 20000, "bcast") + hub("mixed", 10000, "bcast") + hub("C12", 5000, "bcast"))
CHECKS["C14"] = dict(quick=hub("C14", 3000, "bcast") + hub("mixed", 1500, "bcast"),
                     thorough=hub("C14", 20000, "bcast") + hub("mixed", 10000, "bcast") + hub("C11", 5000, "bcast"))
CHECKS["C20"] = dict(quick=hub("C20", 2000, "registry", "rooms"), thorough=hub("C20", 20000, "registry", "rooms") + hub("C20", 5000, "bcast"))
for p in ("C15", "C21"):
    CHECKS[p] = dict(quick=[RUN("batch", p, 4000 if p == "C15" else 10000, "BatchTrace"), RUN("batch", "mixed", 2000, "BatchTrace")],
                     thorough=[RUN("batch", p, 40000, "BatchTrace"), RUN("batch", "mixed", 20000, "BatchTrace")])


# scripts of operations that the specification generates
def scripts(kind, gen, take=None):
    return ENUM("hub", "script", [(gen + "MC", dict(CFG=gen + "Gen"), "")], 4, gen + "Trace", env=dict(VH_KIND=kind), take=take)


CHECKS["C11"]["quick"] += [MC("RegistryMC"), scripts("registry", "Registry")]
CHECKS["C11"]["thorough"] += [MC("RegistryMC"), scripts("registry", "Registry")]
CHECKS["C12"]["quick"] += [MC("RoomsMC", "RoomsMC3"), scripts("rooms", "Rooms", 2000)]
CHECKS["C12"]["thorough"] += [MC("RoomsMC"), scripts("rooms", "Rooms")]
CHECKS["C20"]["quick"] += [scripts("registry", "Registry")]
CHECKS["C20"]["thorough"] += [scripts("registry", "Registry"), scripts("rooms", "Rooms")]


# pairs of operations, one preempted by the other after each of its steps (pairs_test.go): groups of pairK scenarios
PAIRK = 512
for p, ops in dict(C05=10, C06=8, C07=8, C08=9, C09=10, C10=9, C17=7, C19=8).items():
    CHECKS[p]["quick"].append(RUN("wire", p + "pairs", 100 * PAIRK, "WireTrace"))
    CHECKS[p]["thorough"].append(RUN("wire", p + "pairs", ops * ops * 42 * PAIRK, "WireTrace"))
for p, ops, kinds in ("C11", 8, ["registry"]), ("C12", 11, ["rooms"]), ("C13", 10, ["bcast"]), ("C14", 6, ["bcast"]), ("C20", 12, ["registry", "rooms"]):
    CHECKS[p]["quick"] += hub(p + "pairs", 250 * PAIRK // len(kinds), *kinds)
    CHECKS[p]["thorough"] += hub(p + "pairs", ops * ops * 18 * PAIRK, *kinds)
for p, ops in dict(C15=8, C21=10).items():
    CHECKS[p]["quick"].append(RUN("batch", p + "pairs", 260 * PAIRK, "BatchTrace"))
    CHECKS[p]["thorough"].append(RUN("batch", p + "pairs", ops * ops * 18 * PAIRK, "BatchTrace"))
# the same guarantees elsewhere: batches are frames too, a message over the rate limit is a remainder to be skipped, a
# batch broadcast has recipients that are slow
for p, q, t in ("C05", [RUN("batch", "C15", 1500, "BatchTrace")], [RUN("batch", "C15", 10000, "BatchTrace"), RUN("batch", "mixed", 10000, "BatchTrace")]), \
        ("C04", [RUN("rate", "x", 2500, "RateLimitTrace")], [RUN("rate", "x", 20000, "RateLimitTrace")]), \
        ("C14", [RUN("batch", "C15", 2500, "BatchTrace")], [RUN("batch", "C15", 20000, "BatchTrace"), RUN("batch", "mixed", 10000, "BatchTrace")]):
    CHECKS[p]["quick"] += q
    CHECKS[p]["thorough"] += t
# ---------------------------------------------------------------------------------------------------------------


def known(prop):
    """The findings listed (not the fixed ones): {text: pattern}. Lines: "finding: property=<id> match=<regex> <text>"."""
    r = []
    for l in open(KNOWN):
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l.strip())
        if m and m[1] == prop:
            r.append((re.compile(m[2]), m[3]))
    return r


def tagged(module):
    """Are the conditions of the module attributed to properties (Blame.tla)?"""
    return "TAGS" in open(os.path.join(vlib.SPEC, module + ".cfg")).read()


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = vlib.Work()
        self.states = self.transitions = self.traces = self.distinct = 0
        self.samples, self.models, self.runs, self.viol = [], [], [], []
        self.kinds = collections.Counter()
        self.exhaustive = True

    def violation(self, step, kind, id, detail, trace=None, pos=None, env=None):
        self.viol.append(dict(property=self.prop, kind=kind, family=step.fam, mode=step.mode, module=step.module, id=id,
                              seed=self.seed, env=env or {}, position=pos, detail=detail, trace=trace))

    def judge(self, step, traces, crashes, env, stim=None):
        """stim: {id: env} for stimuli that live in a scratch file"""
        every, seen = traces, {}
        for t in traces:       # equal traces get the same verdict
            seen.setdefault(json.dumps({k: v for k, v in t.items() if k != "id"}, sort_keys=True), t)
        traces = list(seen.values())
        self.distinct += len(traces)
        self.traces += len(every)
        # the first few decide whether the rest is worth the time
        for part in [traces] if len(traces) <= 2500 else [traces[:1000], traces[1000:]]:
            rejected, gen, dist = self.work.validate(step.module, part, cfg=step.cfg)
            self.states += dist
            self.transitions += gen
            if rejected and tagged(step.module):
                # does it break this property, or only others?
                mine, _, _ = self.work.validate(step.module, [t for t, _ in rejected[:400]], cfg=step.cfg, env=dict(PROP=self.prop))
                if len(mine) < len(rejected[:400]):
                    n = len(rejected[:400]) - len(mine)
                    self.kinds["not this property's"] += n
                    print(f"note: {n} traces aren't behaviours of {step.module}, but {self.prop} isn't concerned", file=sys.stderr)
                rejected = mine
            if rejected:
                break
        for t in every:
            for e in t["ev"]:
                self.kinds["/".join(str(e[k]) for k in ("e", "k", "r") if k in e)] += 1
        if traces:
            for t in (traces[0], traces[len(traces) // 2]):
                s = dict(family=step.fam, mode=step.mode, scenario=t["id"], cfg=t.get("cfg"), events=t["ev"][:12])
                if len(json.dumps(s)) < 4000:
                    self.samples.append(s)
        for c in crashes:
            # a death that doesn't repeat isn't the code's (a machine under load, say)
            again = sum(bool(self.work.drive(step.fam, step.mode, 1, self.seed, first=c["id"], env=env, procs=1)[1]) for _ in range(2))
            if again:
                self.violation(step, "crash", c["id"], c["out"][-3000:], env=env)
            else:
                self.kinds["unrepeated crash"] += 1
                print(f"note: {step.fam}/{step.mode} scenario {c['id']} died once (rc {c['rc']}), not when repeated", file=sys.stderr)
        for t, pos in rejected[:20]:
            ev = t["ev"][pos - 1] if 0 < pos <= len(t["ev"]) else None
            self.violation(step, "trace", t["id"], dict(event=ev, before=t["ev"][max(0, pos - 9):pos - 1]), trace=t, pos=pos, env=env)

    def step(self, s):
        t0 = time.time()
        if isinstance(s, MC):
            r = self.work.modelcheck(s.module, s.cfg, timeout=s.timeout, **s.kw)
            r["wall_s"] = round(time.time() - t0, 1)
            self.models.append(r)
            self.states += r["distinct"]
            self.transitions += r["generated"]
            return
        env = dict(s.env)
        left = (600 if self.tier == "quick" else 2400) - (time.time() - self.work.t0)
        n, seconds = 0, max(20, int(left / 2))
        if isinstance(s, ENUM):
            lines = []
            for mod, genv, prefix in s.gens:
                lines += [prefix + s.fmt(x) for x in self.work.enumerate(mod, {k: x for k, x in genv.items() if k != "CFG"}, genv.get("CFG"))]
            if s.take and s.take < len(lines):
                lines = random.Random(self.seed).sample(lines, s.take)
            f = os.path.join(self.work.dir, f"enum-{time.time_ns()}")
            open(f, "w").write("\n".join(lines))
            env["VH_ENUM"] = f
            n = len(lines) * s.plans
        else:
            n, seconds = s.n, min(seconds, s.seconds)
        traces, crashes = self.work.drive(s.fam, s.mode, n, self.seed, env=env, seconds=seconds)
        if not traces and not crashes:
            raise CheckError(f"{s.fam}/{s.mode}: no traces")
        nv, nu = len(self.viol), self.work.undecided
        self.judge(s, traces, crashes, env)
        if isinstance(s, ENUM):
            for v in self.viol[nv:]:
                v["stimulus"] = lines[v["id"] // s.plans] + " plan " + str(v["id"] % s.plans)
        self.runs.append(dict(family=s.fam, mode=s.mode, env=s.env, undecided=self.work.undecided - nu, enumerated=isinstance(s, ENUM), scenarios=n, traces=len(traces),
                              deaths=len(crashes), wall_s=round(time.time() - t0, 1)))


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1].lstrip("-")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    r = Run(prop, tier, seed)
    try:
        if tier != "quick":
            r.work.giveup = 6000
        r.work.build()
        for s in CHECKS[prop][tier]:
            r.step(s)
            if r.viol:
                break
    except CheckError as x:
        print("CHECK ERROR:", x, file=sys.stderr)
        if not r.viol:
            return 2
    except Exception:
        traceback.print_exc()
        if not r.viol:
            return 2
    finally:
        r.work.close()
    kn = known(prop)
    news, olds = [], {}
    for v in r.viol:
        text = json.dumps(v, sort_keys=True)
        hit = [k for k in kn if k[0].search(text)]
        if hit:
            olds[hit[0][1]] = olds.get(hit[0][1], 0) + 1
        else:
            news.append(v)
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k[1]}")
    ev = os.path.join(vlib.VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    if news:
        f = os.path.join(ev, f"replay-{prop}.json")
        json.dump(news, open(f, "w"), indent=1)
        for v in news[:5]:
            print(f"{v['family']}/{v['mode']} scenario {v['id']} (seed {v['seed']}): {v['kind']}, not a behaviour of {v['module']}"
                  f" at event {v['position']}: {json.dumps(v['detail'])[:1500]}")
        print(f"VIOLATION property={prop} replay={f}")
    out = dict(property=prop, tier=tier, seed=seed, level="model_checking",
               coverage=dict(states=r.states, transitions=r.transitions, traces_validated_against_impl=r.traces, distinct_traces=r.distinct,
                             samples=r.samples[:8], models=r.models, runs=r.runs, events=dict(r.kinds.most_common(60)),
                             instrumented_schedules=r.work.instrumented),
               assumptions=["the fake network and clock behave like the kernel's", "the scheduler sees every statement of the package"],
               wall_s=round(time.time() - t0, 1), violations=len(news))
    json.dump(out, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {r.traces} traces validated, {r.states} states, {len(news)} violations, {out['wall_s']} s")
    return 1 if news else 0


def replay(f):
    v = json.load(open(f))[0]
    w = vlib.Work()
    try:
        w.build()
        if "stimulus" in v:
            e = os.path.join(w.dir, "enum")
            line, plan = v["stimulus"].rsplit(" plan ", 1)
            # keep the scenario's number: its seed depends on it
            plans = 1
            for s in CHECKS[v["property"]]["quick"] + CHECKS[v["property"]]["thorough"]:
                if isinstance(s, ENUM) and s.fam == v["family"]:
                    plans = s.plans
            open(e, "w").write("\n".join([line] * (v["id"] // plans + 1)))
            v["env"]["VH_ENUM"] = e
        tr, cr = w.drive(v["family"], v["mode"], 1, v["seed"], first=v["id"], env=v["env"], procs=1)
        for c in cr:
            print(c["out"])
        rej, _, _ = w.validate(v["module"], tr)
        for t in tr:
            pos = next((p for x, p in rej if x is t), None)
            print({k: x for k, x in t.items() if k != "ev"})
            for i, x in enumerate(t["ev"], 1):
                print("=> " if i == pos else "   ", i, x)
        return 1 if rej or cr else 0
    finally:
        w.close()
