"""Runs one property's check: exhaustive TLC runs, generation, execution on the
real library, trace validation; writes evidence; prints VIOLATION lines."""
import os, sys, json, time, random
import vlib
from vlib import CheckError, VERIF


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.notes, self.mc, self.actions = [], [], [], [], {}
        self.findings, self.binding, self.extra = [], [], {}
        self.known = load_known()

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return (840 if self.quick else 6 * 3600) - (time.time() - self.t0)

    # ---------------------------------------------------------- exhaustive TLC
    def model(self, module, cfg, timeout=None, must_take=(), env=None, heap="6g", args=(), cover=True):
        r = vlib.model_check(module, cfg, cover=cover, timeout=timeout or (400 if self.quick else 7200), env=env, heap=heap, args=args)
        ac = vlib.action_counts(r.out)
        self.states += r.distinct; self.transitions += r.generated
        for a in must_take:
            if ac.get(a, (0, 0))[1] == 0:
                raise CheckError("vacuous model: action %s of %s is never taken" % (a, module))
        self.mc.append(dict(module=module, distinct_states=r.distinct, transitions=r.generated, wall_s=round(r.wall, 1),
                            constants=[l.strip() for l in cfg.split("\n") if "=" in l][:6] if "\n" in cfg else cfg,
                            actions={a: c[1] for a, c in sorted(ac.items())}))
        return r

    # ------------------------------------------------------- trace conformance
    def conform(self, driver, module, scripts, cfg_extra="", flavour="asan", defines=(), name=None, env=None, procs=vlib.NCPU,
                bind=True, timeout=600, xform=None, data=None):
        """executes the scripts on the library and validates the recorded traces"""
        if not scripts: raise CheckError("no scripts for " + driver)
        exe = vlib.ensure_driver(driver, flavour, defines)
        cfg = vlib.TRACE_CFG + cfg_extra
        self.extra = dict(env or {})
        env = dict(env or {}, **data_env(data))
        self.data, self.built = data, (flavour, list(defines))
        traces = vlib.run_driver(exe, scripts, env=env, procs=procs, timeout=timeout)
        if xform: traces = [xform(t) for t in traces]
        rej, st = vlib.validate(module, traces, cfg, timeout=timeout, env=env)
        for i, pos, info in rej[:4]:
            self.confirm(exe, driver, module, cfg, scripts[i], traces[i], pos, info, env, xform)
        good = len(traces) - len(rej)
        self.traces += good; self.events += sum(len(t) for t in traces)
        self.transitions += st; self.states += st
        for t in traces:
            for line in t:
                o = line[7:60]
                k = o[o.find('"o":"') + 5:]; k = k[:k.find('"')]
                self.actions[driver + "." + k] = self.actions.get(driver + "." + k, 0) + 1
        if len(self.samples) < 4:
            t = traces[len(traces) // 2]
            self.samples.append(dict(driver=driver, spec=module, trace=[json.loads(x) if len(x) < 1500 else x[:1500] for x in t[:6]]))
        if bind and not rej: self.check_binding(module, cfg, traces, env)
        return traces

    def confirm(self, exe, driver, module, cfg, script, trace, pos, info, env, xform=None):
        """a rejection counts only if executing and validating again repeats it"""
        repeated = 0
        for _ in range(3):
            t2 = vlib.run_driver(exe, [script], env=env, procs=1)
            if xform: t2 = [xform(t) for t in t2]
            rej, _ = vlib.validate(module, t2, cfg, env=env)
            if rej:
                repeated += 1
                trace, (_, pos, info) = t2[0], rej[0]
                break
        if not repeated:
            self.notes.append("a rejection of %s did not repeat and was dropped: %s" % (module, info[:300]))
            return
        self.violation(dict(driver=driver, built=self.built, data=self.data, spec=module, cfg=cfg, script=script, event=trace[pos][:4000] if pos < len(trace) else "",
                            position=pos, explanation=info[:6000]))

    def violation(self, rec):
        d = os.path.join(VERIF, "replay"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, len(self.violations)))
        rec = dict(property=self.prop, env=self.extra, **rec)
        for k in self.known:
            if k["property"] == self.prop and matches(k, rec):
                self.findings.append(k); return
        with open(path, "w") as f: json.dump(rec, f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  %s: event %d %s\n  %s" % (rec.get("spec"), rec.get("position", -1), str(rec.get("event"))[:200], str(rec.get("explanation"))[-400:]))
        sys.stdout.flush()

    def check_binding(self, module, cfg, traces, env=None):
        """the binding is live: a recorded value that is changed is rejected"""
        rng = random.Random(self.seed)
        for _ in range(20):
            t = rng.choice(traces)
            cand = [i for i, l in enumerate(t) if i > 0 and ('"s":' in l or '"r":' in l)]
            if not cand: continue
            i = rng.choice(cand)
            e = json.loads(t[i])
            if not mutate(e, rng): continue
            bad = list(t[:i]) + [json.dumps(e, separators=(",", ":"))] + list(t[i + 1:])
            try:
                rej, _ = vlib.validate(module, [bad], cfg, env=env)
            except CheckError:
                continue
            self.binding.append(dict(spec=module, changed_event=i, rejected=bool(rej)))
            if rej: return
        if not any(b["rejected"] for b in self.binding if b["spec"] == module):
            raise CheckError("changing a recorded value is not noticed by " + module)

    # ------------------------------------------------------------------ result
    def finish(self, level_assumptions=()):
        for k in {json.dumps(f, sort_keys=True) for f in self.findings}:
            k = json.loads(k)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                events_executed_on_impl=self.events, operations=self.actions, models=self.mc,
                                binding_checks=self.binding, samples=self.samples[:4], notes=self.notes),
                  assumptions=list(level_assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        return 1 if self.violations else 0


def data_env(data):
    """a file of values that both the driver (XD_SETS) and the specification (SETS) read"""
    if data is None: return {}
    p = os.path.join(vlib.workdir(), "data-%s.ndjson" % vlib.hashlib.sha256(data.encode()).hexdigest()[:16])
    with open(p, "w") as f: f.write(data)
    return dict(SETS=p, XD_SETS=p)


def mutate(e, rng):
    """changes one number or boolean in the recorded state (or result)"""
    spots = []

    def walk(v, path):
        if isinstance(v, dict):
            for k in v: walk(v[k], path + [k])
        elif isinstance(v, list):
            for k in range(len(v)): walk(v[k], path + [k])
        elif isinstance(v, bool) or isinstance(v, int) or (isinstance(v, str) and v and v[0] in "-0123456789"):
            spots.append(path)
    walk(e["s"], ["s"]) if e.get("s", 0) != 0 else walk(e.get("r"), ["r"])
    if not spots: return False
    path = rng.choice(spots); v = e
    for k in path[:-1]: v = v[k]
    x = v[path[-1]]
    v[path[-1]] = (not x) if isinstance(x, bool) else x + 1 if isinstance(x, int) else repr(float(x) + 1.0)
    return True


def load_known():
    p = os.path.join(VERIF, "known-findings.txt"); out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                out.append(json.loads(line[len("finding: "):]))
    return out


def matches(k, rec):
    return all(str(v) in json.dumps(rec.get(f)) if f != "event_op" else rec.get("event", "").startswith(v) for f, v in k["match"].items())
