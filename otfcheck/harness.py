"""Scenario harness: drives the abstract interpreter and records obligations."""
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
from fractions import Fraction as F

sys.setrecursionlimit(30000)

from . import interp as _interp
from . import poly as P
from .interp import Dead, num, intv, boolv
from .npmodel import unstack
from .poly import as_poly
from .state import ObjCell, ArrCell, ListCell, DictCell
from .values import *

ROOT = os.environ.get("OTFCHECK_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ["utils", "zernike", "otf", "display", "microscope", "phaseretrieval", "labview"]


def fl(name, unit=0, **kw):
    """Symbolic positive python float carrying length dimension `unit`."""
    kw.setdefault("pos", True)
    return AV((), "f", F(unit), P.sym(name, **kw), pt="float")


def isym(name, lb=8, par=None):
    return P.sym(name, integer=True, lb=F(lb), par=par)


def isz(name, lb=8, par=None):
    return intv(isym(name, lb, par))


class Outcome:
    """Result of running one call of the program abstractly."""

    def __init__(self, status, value=None, why="", excs=()):
        self.status, self.value, self.why, self.excs = status, value, why, excs

    @property
    def ok(self):
        return self.status == "ok"


class Lab:
    """One abstract machine with the package loaded."""

    def __init__(self, root=None, modules=None):
        self.I = _interp.Interp(root or ROOT, "pyotf")
        for m in modules or MODULES:
            self.I.load_module("pyotf." + m)
        self.I.events.clear()
        self.I._evkeys.clear()
        self.t0 = time.time()

    # ---- access
    def g(self, mod, name):
        return self.I.st.heap[self.I.modules["pyotf." + mod].env].vars[name]

    def has(self, mod, name):
        return name in self.I.st.heap[self.I.modules["pyotf." + mod].env].vars

    def run(self, f):
        """Run f() and classify: ok / raises (on every path) / undecided (analysis limit)."""
        I = self.I
        fr, ns = list(I.frames), len(I.sinks)
        n0 = len(I.sinks[0])
        p0 = I.st.path
        try:
            v = f()
            o = Outcome("ok", v, excs=list(I.sinks[0][n0:]))
            o.lab, o.path0 = self, p0
            return o
        except Dead:
            ex = [e for e, s in I.sinks[0][n0:]]
            e = ex[-1] if ex else None
            why = describe_exc(e) if e is not None else "no path completes"
            o = Outcome("raises", None, why, list(I.sinks[0][n0:]))
            o.exc, o.lab, o.path0 = e, self, p0
            return o
        except NotImpl as e:
            return Outcome("undecided", None, f"{e} at {self.where()}", list(I.sinks[0][n0:]))
        except RecursionError:
            return Outcome("undecided", None, "recursion limit of the analysis")
        except Exception as e:  # engine defect: never an alarm
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return Outcome("undecided", None, f"analysis error {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno}) at {self.where()}")
        finally:
            I.frames[:] = fr
            del I.sinks[ns:]

    def where(self):
        s = self.I.stack()
        return "%s:%s:%s" % s[-1] if s else "?"

    def call(self, f, *a, **k):
        return self.run(lambda: self.I.call(f, list(a), k))

    def get(self, o, name):
        return self.run(lambda: self.I.getattr(o, name))

    def set(self, o, name, v):
        return self.run(lambda: self.I.setattr(o, name, v))

    def meth(self, o, name, *a, **k):
        return self.run(lambda: self.I.call(self.I.getattr(o, name), list(a), k))

    def av(self, v):
        v = self.I.res(v)
        if isinstance(v, (Arr, AV)):
            return unstack(self.I.arr(v))
        return None

    # ---- inputs
    def array(self, name, shape, kind="f", unit=0, nonneg=False, owner=None, lay=None):
        shape = tuple(as_poly(s) for s in shape)
        nd = len(shape)
        t = P.arr(name, tuple(range(-nd, 0)), real=kind != "c", nonneg=nonneg, integer=kind in "ib")
        a = self.I.new_arr(AV(shape, kind, F(unit), t, lay=lay), owner=owner)
        INPUT_SHAPES[name] = shape
        return a

    def dict(self, d, owner=None):
        r = self.I.new_dict(d)
        if owner:
            self.I.set_cell(r, DictCell(dict(d), owner))
        return r

    def events(self, *kinds):
        return [e for e in self.I.events if e.kind in kinds]

    def own(self, ref, owner):
        """Mark a heap cell (and what it reaches) as belonging to `owner`."""
        I = self.I
        seen = set()

        def walk(v):
            if isinstance(v, Obj) and v.id not in seen:
                seen.add(v.id)
                c = I.cell(v)
                I.set_cell(v, ObjCell(c.cls, c.fields, owner))
                for x in c.fields.values():
                    walk(x)
            elif isinstance(v, Arr) and v.id not in seen:
                seen.add(v.id)
                c = I.cell(v)
                I.set_cell(v, ArrCell(c.av, owner, c.base, c.derive, c.putback, c.src))
                if c.base is not None:
                    walk(c.base)
            elif isinstance(v, ListRef) and v.id not in seen:
                seen.add(v.id)
                c = I.cell(v)
                I.set_cell(v, ListCell(c.items, owner))
                if isinstance(c.items, tuple):
                    for x in c.items:
                        walk(x)
            elif isinstance(v, DictRef) and v.id not in seen:
                seen.add(v.id)
                c = I.cell(v)
                I.set_cell(v, DictCell(c.d, owner))
                for x in c.d.values():
                    walk(x)
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)

        walk(ref)

    def def_loc(self, mod, qual):
        """file:function label of a definition, for reports."""
        return f"pyotf/{mod}.py:{qual}"


INPUT_SHAPES = {}
START = time.time()
TIME_LIMIT = float(os.environ.get("OTFCHECK_TIME", "780"))  # whole run
TASK_LIMIT = float(os.environ.get("OTFCHECK_TASK_TIME", "200"))  # one scenario


class Expired(BaseException):
    """A scenario took too long: undecided."""


def _expired(sig, frame):
    raise Expired




def describe_exc(e):
    loc = getattr(e, "loc", None)
    args = ", ".join(str(a)[:120] for a in e.args)
    return f"{e.name}({args}) at " + ("%s:%s:%s" % tuple(loc) if loc else "?")


# ------------------------------------------------------------------ obligations
def limit_memory(jobs):
    """Workers together stay below the memory of the machine; a scenario that needs more is undecided."""
    try:
        total = os.sysconf("SC_PAGE_SIZE") * os.sysconf("SC_PHYS_PAGES")
        share = max(int(total * 0.85) // jobs, 1 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (share, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl = []  # (rule, construct, status, detail)
        self.groups = {}
        self.notes = []
        self.functions = set()
        self.anchors_missing = []
        self.known = load_known(prop)
        self.known_hit = []
        self.tasks = []

    def add(self, rule, construct, status, detail=""):
        assert status in ("ok", "violated", "undecided")
        self.obl.append((rule, construct, status, str(detail)))
        g = self.groups.setdefault(rule, {"ok": 0, "violated": 0, "undecided": 0})
        g[status] += 1
        if os.environ.get("OTFCHECK_VERBOSE"):
            print(f"  [{status}] {rule} | {construct} | {detail}", flush=True)

    def ok(self, rule, construct, detail=""):
        self.add(rule, construct, "ok", detail)

    def bad(self, rule, construct, detail=""):
        self.add(rule, construct, "violated", detail)

    def undecided(self, rule, construct, detail=""):
        self.add(rule, construct, "undecided", detail)

    def need(self, rule, construct, out, what="raises on every path for valid input"):
        """Outcome must be a normal completion.  Returns True if it is."""
        if out.ok:
            from .check import raises_somewhere

            for why, sure in raises_somewhere(out):
                (self.bad if sure else self.undecided)(rule, construct, why)
            return True
        if out.status == "raises":
            self.bad(rule, construct, f"{what}: {out.why}")
        else:
            self.undecided(rule, construct, out.why)
        return False

    # ---- independent scenarios, analysed in parallel worker processes
    def spawn(self, f, *a, **k):
        self.tasks.append((f, a, k))

    def run_tasks(self):
        tasks, self.tasks = self.tasks, []
        jobs = min(int(os.environ.get("OTFCHECK_JOBS", "0") or 0) or os.cpu_count() or 1, 8, len(tasks))
        if jobs <= 1:
            for t in tasks:
                self._task(t)
            if self.tasks:
                self.run_tasks()
            return
        # each worker takes every jobs-th task and leaves its obligations in a file
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for w in range(jobs):
            fh = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    limit_memory(jobs)
                    for i in range(w, len(tasks), jobs):
                        sub = Report(self.prop, self.tier)
                        sub._task(tasks[i])
                        sub.run_tasks()
                        pickle.dump((i, sub.obl, sub.functions, sub.notes), fh)
                        fh.flush()
                    sys.stdout.flush()
                    rc = 0
                finally:
                    os._exit(rc)
            kids.append((pid, fh))
        res = []
        for w, (pid, fh) in enumerate(kids):
            os.waitpid(pid, 0)
            fh.seek(0)
            got = set()
            while True:
                try:
                    r = pickle.load(fh)
                except EOFError:
                    break
                except Exception as e:
                    self.undecided("analysis", "worker process", f"{type(e).__name__}: {e}")
                    break
                got.add(r[0])
                res.append(r)
            fh.close()
            lost = [i for i in range(w, len(tasks), jobs) if i not in got]
            if lost:
                self.undecided("analysis", f"{len(lost)} scenarios", "the worker process ended early")
        for i, obl, fn, notes in sorted(res, key=lambda x: x[0]):
            for o in obl:
                self.obl.append(o)
                self.groups.setdefault(o[0], {"ok": 0, "violated": 0, "undecided": 0})[o[2]] += 1
            self.functions |= fn
            self.notes += notes

    def _task(self, t):
        f, a, k = t
        left = min(TASK_LIMIT, START + TIME_LIMIT - time.time())
        if left < 1:
            self.undecided("analysis", getattr(f, "__name__", "task"), "time budget of the run is used up")
            return
        old = signal.signal(signal.SIGALRM, _expired)
        signal.setitimer(signal.ITIMER_REAL, left)
        try:
            try:
                f(self, *a, **k)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
        except Expired:
            self.undecided("analysis", f"{getattr(f, '__name__', 'task')}{a!r}"[:200], f"takes more than {left:.0f} s")
        except SyntaxError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided("analysis", getattr(f, "__name__", "task"), f"{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")

    def seen(self, lab):
        for m, q in lab.I.funcs_seen:
            if m.startswith("pyotf"):
                self.functions.add(f"{m}:{q}")

    def finish(self):
        self.run_tasks()
        wall = round(time.time() - self.t0, 2)
        viol = []
        for rule, construct, status, detail in self.obl:
            if status != "violated":
                continue
            k = next((k for k in self.known if k["rule"] == rule and k["construct"] == construct and k.get("contains", "") in detail), None)
            if k is not None:
                self.known_hit.append(k)
            else:
                viol.append((rule, construct, detail))
        n = {s: sum(1 for o in self.obl if o[2] == s) for s in ("ok", "violated", "undecided")}
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis: abstract interpretation of the current source with value numbering; "
                               "each obligation compares or inspects abstract values computed from the source. See DESIGN.md.",
                "obligations": len(self.obl),
                "discharged": n["ok"],
                "violated": len(viol),
                "known_findings": len(self.known_hit),
                "undecided": n["undecided"],
                "rules": self.groups,
                "functions_analysed": sorted(self.functions),
                "constructs": sorted({f"{r}: {c}" for r, c, s, d in self.obl})[:400],
                "undecided_list": sorted({f"{r}: {c}: {d}"[:300] for r, c, s, d in self.obl if s == "undecided"})[:60],
                "notes": self.notes,
            },
            "violations": [{"rule": r, "construct": c, "detail": d[:2000]} for r, c, d in viol],
            "wall_s": wall,
        }
        out = os.environ.get("OTFCHECK_EVID", HERE)
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        with open(os.path.join(out, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r, g in sorted(self.groups.items()):
            print(f"rule {r}: {g['ok']} discharged, {g['violated']} violated, {g['undecided']} undecided")
        for r, c, s, d in self.obl:
            if s == "undecided":
                print(f"UNDECIDED rule={r} construct={c}: {d[:300]}")
        for k in {(k["rule"], k["construct"]): k for k in self.known_hit}.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop}: {len(self.obl)} obligations over {len(self.functions)} functions, {n['ok']} discharged, {len(viol)} violated, "
              f"{n['undecided']} undecided, {wall} s")
        if viol:
            os.makedirs(os.path.join(out, "replay"), exist_ok=True)
            path = os.path.join(out, "replay", self.prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "command": f"python3-vt -m otfcheck {self.prop} --tier {self.tier}",
                           "violations": ev["violations"]}, f, indent=1)
            for r, c, d in viol[:20]:
                print(f"  violated rule={r} construct={c}: {d[:1500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if not self.obl or n["ok"] == 0 and not self.known_hit:
            print(f"{self.prop}: nothing could be decided on this tree")
            return 2
        return 0


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    d = json.load(open(p))
    return [k for k in d.get("known", []) if k["property"] == prop]
