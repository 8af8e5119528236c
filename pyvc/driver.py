"""Obligation bookkeeping, outcome policy and evidence of one property check."""
import json
import os
import pickle
import select
import subprocess
import sys
import time
import traceback
from . import terms as T
from . import prove as P
from . import values as V
from .values import Unsupported, PyRaise, SysExit, Infeasible
from .interp import Interp

ROOT = os.environ.get("DG1D_ROOT", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


PRELOAD = ("constants", "advection_physics", "euler_physics", "basis", "enhance", "sensor", "solution", "dg",
           "limiting", "deck")


class Record:
    def __init__(self, name, func, ok, how, secs, detail="", where=None, hint=None):
        self.name, self.func, self.ok, self.how, self.secs = name, func, ok, how, secs
        self.detail, self.where, self.hint = detail, where, hint


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.records = []
        self.lost = 0           # failures of sections that have ended, in other processes
        self.translation = []        # (section, reason)
        self.assumptions = {}
        self.functions = set()
        self.contracts = set()
        self.bounds = []
        self.notes = {}
        self.level = "proof"
        self.t0 = time.time()
        self.budget = 520 if tier == "quick" else 780
        self._sec = None
        self.covers = 0
        self.interps = []

    thorough = property(lambda self: self.tier == "thorough")

    # ---------------------------------------------------------------- set up
    def interp(self):
        I = Interp(ROOT)
        self.interps.append(I)
        # loaded outside every explored path, so that undoing a path never unloads a module
        for m in PRELOAD:
            try:
                I.module("dg1d." + m)
            except FileNotFoundError:
                pass
        return I

    def assume_note(self, s):
        self.assumptions[s] = 1

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def section(self, name):
        return Section(self, name)

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, hyps=(), func="", quants=(), sum_rules=(), rewrites=(), timeout=8000, budget=200,
              where=None, max_splits=4000):
        t0 = time.time()
        goal = T.const(goal)
        left = self.t0 + self.budget - time.time()
        if left < 1:
            self.records.append(Record(name, func, False, "unknown", 0.0, "overall time budget exhausted", where))
            return False
        # once obligations have failed the verdict is settled: the others get less time
        lost = self.lost + sum(1 for r in self.records if not r.ok)
        if lost >= 4:
            budget, timeout = min(budget, 20 if lost < 12 else 4), min(timeout, 2000 if lost < 12 else 500)
        try:
            pr = P.Prover(hyps, quants, sum_rules, rewrites, timeout, max_splits, min(budget, left))
            r = pr.prove(goal)
        except RecursionError:
            if os.environ.get("PYVC_TRACE") == "2":
                traceback.print_exc(limit=-60)
            r = P.Result(False, "unknown", "recursion limit")
        hint = None
        if not r.ok and r.model is not None:
            hint = model_dict(r.model)
        self.records.append(Record(name, func, r.ok, r.how, time.time() - t0, r.detail, where, hint))
        if os.environ.get("PYVC_TRACE"):
            print("   %-4s %6.2fs %-10s %s %s" % ("ok" if r.ok else "FAIL", time.time() - t0, r.how, name,
                                                   "" if r.ok else r.detail[:300]), flush=True)
        return r.ok

    def prove_eq(self, name, a, b, hyps=(), **kw):
        a, b = T.const(a), T.const(b)
        if "B" in (a.sort, b.sort):
            g = T.and_(T.implies(a, b), T.implies(b, a))
        else:
            g = T.eq(a, b)
        return self.prove(name, g, hyps, **kw)

    def require(self, name, ok, func="", detail="", hint=None):
        """an obligation decided by complete evaluation (no inputs, or structural facts about the executed code)"""
        self.records.append(Record(name, func, bool(ok), "evaluation", 0.0, detail if not ok else "", None, hint))
        if os.environ.get("PYVC_TRACE"):
            print("   %-4s eval %s %s" % ("ok" if ok else "FAIL", name, "" if ok else detail[:300]), flush=True)
        return bool(ok)

    def cover(self, hyps, name):
        """vacuity guard: the assumptions of a section are satisfiable (or at least not refuted)"""
        self.covers += 1
        r, _ = P.z3_check([h for h in hyps], T.TRUE, 300)
        if r == "unsat":
            self.records.append(Record("precondition is satisfiable: " + name, "", False, "vacuous", 0.0,
                                       "the assumptions are contradictory"))
        return r != "unsat"

    def definedness(self, I, label="", quants=(), start=0, skip=None, budget=30, timeout=5000):
        """discharge the definedness obligations met while executing the code"""
        obs = I.obligations[start:]
        seen = {}
        for o in obs:
            if skip and skip(o):
                continue
            w = "%s:%s" % o.where if o.where else "?"
            k = "%s%s at %s" % (label + ": " if label else "", o.name, w)
            seen[k] = seen.get(k, 0) + 1
            nm = k if seen[k] == 1 else "%s #%d" % (k, seen[k])
            self.prove(nm, o.goal, list(o.pc), func=o.where[0] if o.where else "", quants=uniq(list(quants) + list(o.lemmas)),
                       where=w, budget=budget, timeout=timeout)
        del I.obligations[start:]

    def run(self, I, thunk, label, normal=True, quants=(), defined=True, limit=400):
        """execute thunk on all paths; with normal=True every feasible path must complete normally"""
        start = len(I.obligations)
        outs = I.explore(thunk, limit)
        self.functions |= I.funcs_used
        self.contracts |= I.contracts_used
        for n in I.notes:
            self.notes[n] = 1
        good = []
        for o in outs:
            if o.kind in ("normal", "ret"):
                good.append(o)
            elif normal:
                pc = list(I.pc) + list(o.pc)
                self.prove("%s: no %s" % (label, "exception (%s)" % o.value if o.kind == "raise" else "exit (%s)" % (o.value,)),
                           T.FALSE, pc, quants=uniq(list(quants) + list(I.lemmas) + list(o.lemmas)), func=label)
        if defined:
            self.definedness(I, label, quants, start)
        if normal and not good:
            self.require("%s: some path completes" % label, False, detail="no path completes normally: %r" % (outs[:3],))
        return good if normal else outs

    # ---------------------------------------------------------------- parallel sections
    def tasks(self, todo, width=8):
        """run (name, function) sections in forked processes and merge what they recorded"""
        if os.environ.get("PYVC_SERIAL") or len(todo) == 1:
            for name, f in todo:
                with self.section(name):
                    f()
            return
        sys.stdout.flush()
        results, running, k = {}, {}, 0
        while k < len(todo) or running:
            while k < len(todo) and len(running) < width:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        data = pickle.dumps(self.child(*todo[k]))
                        with os.fdopen(w, "wb") as f:
                            f.write(data)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                os.close(w)
                running[r] = (k, pid, [])
                k += 1
            ready, _, _ = select.select(list(running), [], [])
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    running[r][2].append(b)
                    continue
                os.close(r)
                n, pid, parts = running.pop(r)
                os.waitpid(pid, 0)
                try:
                    results[n] = pickle.loads(b"".join(parts))
                    self.lost += sum(1 for x in results[n]["records"] if not x[2])
                except Exception:
                    results[n] = None
        self.lost = 0
        for n in range(len(todo)):
            r = results[n]
            if r is None:
                self.translation.append((todo[n][0], "engine: the process of this section died"))
                continue
            self.records += [Record(*x) for x in r["records"]]
            self.translation += r["translation"]
            self.functions |= r["functions"]
            self.contracts |= r["contracts"]
            self.notes.update(r["notes"])
            self.assumptions.update(r["assumptions"])
            for b in r["bounds"]:
                self.bound(b)
            self.covers += r["covers"]
            for k_, v in r["stats"].items():
                P.STATS[k_] = P.STATS.get(k_, 0) + v

    def child(self, name, f):
        self.records, self.translation, self.covers, self.bounds = [], [], 0, []
        before = dict(P.STATS)
        with self.section(name):
            f()
        return dict(records=[(r.name, r.func, r.ok, r.how, r.secs, r.detail, r.where, r.hint) for r in self.records],
                    translation=[(a, str(b)) for a, b in self.translation], functions=self.functions,
                    contracts=self.contracts, notes=self.notes, assumptions=self.assumptions, bounds=self.bounds,
                    covers=self.covers, stats={k: P.STATS[k] - before.get(k, 0) for k in P.STATS})

    # ---------------------------------------------------------------- results
    @property
    def failed(self):
        return [r for r in self.records if not r.ok]


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


class Section:
    """one group of obligations; a translation failure inside is recorded, not raised"""
    def __init__(self, chk, name):
        self.chk, self.name = chk, name

    def __enter__(self):
        self.m = V.mark()
        self.n = len(self.chk.records)
        if os.environ.get("PYVC_TRACE"):
            print("==", self.name, flush=True)
        return self

    def __exit__(self, et, ev, tb):
        V.undo(self.m)
        for I in self.chk.interps:
            self.chk.functions |= I.funcs_used
            self.chk.contracts |= I.contracts_used
            for n in I.notes:
                self.chk.notes[n] = 1
        if et is None:
            if len(self.chk.records) == self.n:
                self.chk.translation.append((self.name, "no obligation was generated"))
            return False
        if issubclass(et, Unsupported) or issubclass(et, (RecursionError,)):
            self.chk.translation.append((self.name, "%s" % (ev,)))
            if os.environ.get("PYVC_TRACE"):
                print("   TRANSLATION FAILURE", ev)
                if os.environ.get("PYVC_TRACE") == "2":
                    traceback.print_exception(et, ev, tb)
            return True
        if issubclass(et, (PyRaise, SysExit)):
            self.chk.records.append(Record(self.name + ": completes", "", False, "execution", 0.0, "raises %s" % ev))
            return True
        if issubclass(et, Infeasible):
            self.chk.records.append(Record(self.name + ": reachable", "", False, "vacuous", 0.0, "no feasible path"))
            return True
        if issubclass(et, (KeyboardInterrupt, SystemExit)):
            return False
        # an engine error: the section could not be translated
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exception(et, ev, tb)
        self.chk.translation.append((self.name, "engine: %s: %s" % (et.__name__, ev)))
        return True


def model_dict(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    out[d.name()] = float(v.as_fraction())
                except Exception:
                    try:
                        out[d.name()] = float(v.approx(12).as_fraction())
                    except Exception:
                        out[d.name()] = str(v)
    except Exception:
        pass
    return out


# --------------------------------------------------------------------------------------------- run-time contracts
def runtime(pid, seed, seconds, hints=(), replay=None):
    """check the property at run time on the real code (bounded): dict(evaluations, samples, violations)"""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               PYTHONHASHSEED="0", DG1D_ROOT=ROOT, MPLBACKEND="Agg")
    env.pop("PYTHONPATH", None)
    cmd = [sys.executable if pid == "C27" else PY, "-W", "ignore", os.path.join(HERE, "replay", "oracle.py"), pid, "--seed", str(seed),
           "--seconds", str(seconds)]
    if replay:
        cmd += ["--replay", replay]
    try:
        p = subprocess.run(cmd, input=json.dumps(list(hints)), capture_output=True, text=True, env=env,
                           timeout=seconds * 3 + 120, cwd="/tmp")
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, samples=[], violations=[], error="timeout")
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("ORACLE "):
            return json.loads(line[7:])
    return dict(evaluations=0, samples=[], violations=[], error=(p.stderr or p.stdout)[-1500:])


TRUSTED = [
    "the executor in /verif/pyvc (Python subset semantics, numpy models) and its prover front end (ring normaliser, case splitter)",
    "z3 5.3 / cvc5 1.1 verdict 'unsat'",
]


def known_findings(pid):
    fn = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("finding:") and "property=%s " % pid in l + " ":
                out.append(l[len("finding:"):].strip())
    return out


def main(spec, pid, title):  # noqa
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    t0 = time.time()
    chk = Check(pid, tier, seed)
    try:
        spec(chk)
    except Exception as e:      # the specification itself failed to run
        traceback.print_exc()
        chk.translation.append(("specification", "engine: %s: %s" % (type(e).__name__, e)))
    proof_s = time.time() - t0
    failed = chk.failed
    hints = [r.hint for r in failed if r.hint][:20]
    bad = bool(failed or chk.translation)
    secs = (12 if not bad else 90) if tier == "quick" else (90 if not bad else 200)
    rt = runtime(pid, seed, secs, hints)
    if rt.get("error"):
        print("run-time contract harness: " + rt["error"])
    print("%s %s" % (pid, title))
    print("  obligations %d, discharged %d, translation failures %d, run-time evaluations %d" %
          (len(chk.records), len(chk.records) - len(failed), len(chk.translation), rt.get("evaluations", 0)))
    for s, why in chk.translation:
        print("  not translated: %s (%s) -- bounded run-time check stands in" % (s, why))
    for r in failed[:12]:
        print("  undischarged: %s [%s] %s" % (r.name, r.how, r.detail[:300]))
    known = known_findings(pid)
    for k in known:
        print("KNOWN-FINDING: " + k)
    viol = rt.get("violations", [])
    code = 0
    rdir = os.path.join(HERE, "evidence", "replay")
    replay = os.path.join(rdir, pid + ".json")
    if viol or failed:
        os.makedirs(rdir, exist_ok=True)
        with open(replay, "w") as f:
            json.dump(dict(property=pid, title=title,
                           failed_obligations=[dict(name=r.name, function=r.func, where=r.where, verdict=r.how,
                                                    verifier_output=r.detail, model=r.hint) for r in failed],
                           failing_inputs=viol,
                           how_to_replay="%s %s/replay/oracle.py %s --replay %s" % (PY, HERE, pid, replay)),
                      f, indent=1, default=str)
        code = 1
        if viol:
            print("  failing input: %s" % json.dumps(viol[0], default=str)[:1500])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
    elif os.path.exists(replay):
        os.unlink(replay)
    ev = evidence(chk, rt, tier, seed, time.time() - t0, proof_s, len(viol) if viol else (1 if failed else 0))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    sys.stdout.flush()
    return code


def evidence(chk, rt, tier, seed, wall, proof_s, nviol):
    by = {}
    tm = {}
    for r in chk.records:
        if r.ok:
            by[r.how] = by.get(r.how, 0) + 1
            tm[r.how] = tm.get(r.how, 0) + r.secs
    n = len(chk.records)
    d = sum(1 for r in chk.records if r.ok)
    slow = sorted(chk.records, key=lambda r: -r.secs)[:5]
    cov = dict(obligations=n, discharged=d,
               checker_cmd="python3-vt /verif/check.py %s" % chk.pid,
               trusted_base=TRUSTED + sorted(chk.notes),
               discharged_by=by, solver_seconds={k: round(v, 2) for k, v in tm.items()},
               z3_calls=P.STATS["z3"], z3_seconds=round(P.STATS["z3_time"], 2), cvc5_calls=P.STATS["cvc5"],
               ring_calls=P.STATS["ring"], proof_seconds=round(proof_s, 2),
               functions_executed=sorted(chk.functions), contracts_assumed_at_calls=sorted(chk.contracts),
               bounds=chk.bounds, vacuity_guards=chk.covers,
               not_translated=[dict(section=s, reason=w, standin="bounded run-time check") for s, w in chk.translation],
               slowest=[dict(name=r.name, seconds=round(r.secs, 2), how=r.how) for r in slow],
               obligation_names=[r.name for r in chk.records][:400],
               runtime=dict(label="bounded: run-time evaluation of the same contract on the real code, not counted as proved",
                            evaluations=rt.get("evaluations", 0), distinct_nontrivial=rt.get("distinct", 0),
                            rule=rt.get("rule", ""), samples=rt.get("samples", [])[:4], error=rt.get("error")))
    return dict(property=chk.pid, tier=tier, seed=seed, level=chk.level, coverage=cov,
                assumptions=sorted(chk.assumptions) + ["machine arithmetic (IEEE double) is treated as real arithmetic"],
                wall_s=round(wall, 2), violations=nviol)
