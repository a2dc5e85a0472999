"""Deciding queries: quick z3, then a portfolio of z3 strategies and cvc5."""

from __future__ import annotations

import os
import shutil
import subprocess
import tempfile
import threading
import time
from fractions import Fraction

import z3

from .ctx import STATS

STRATS = {
    "smt": lambda c: z3.Solver(ctx=c),
    "nra": lambda c: z3.Then(
        z3.With(z3.Tactic("simplify", c), som=True), z3.Tactic("purify-arith", c),
        z3.Tactic("elim-uncnstr", c), z3.Tactic("solve-eqs", c),
        z3.Tactic("qfnra-nlsat", c), ctx=c).solver(),
    "nlsat": lambda c: z3.Tactic("qfnra-nlsat", c).solver(),
    "split": lambda c: z3.Then(
        z3.Tactic("simplify", c), z3.Tactic("propagate-values", c),
        z3.Tactic("solve-eqs", c), z3.Tactic("ctx-simplify", c),
        z3.Tactic("smt", c), ctx=c).solver(),
    "smt2": lambda c: _seeded(c, 7),
    "smt-old": lambda c: _oldnl(c),
}


def _seeded(c, seed):
    s = z3.Solver(ctx=c)
    s.set("random_seed", seed)
    return s


def _oldnl(c):
    s = z3.Solver(ctx=c)
    s.set("arith.solver", 2)
    return s


def pure_real(cons):
    seen = set()
    stack = list(cons)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if z3.is_int(x):
                    return False
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return False
            stack.extend(x.children())
        else:
            return False
    return True


def to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    raise ValueError(v)


def model_values(m, consts):
    out = {}
    for n, c in consts.items():
        v = m.eval(c, model_completion=True)
        if z3.is_bool(c):
            out[n] = z3.is_true(v)
        elif z3.is_int(c):
            out[n] = int(v.as_long())
        else:
            try:
                out[n] = to_fraction(v)
            except ValueError:
                out[n] = Fraction(0)
    return out


def check(cons, timeout_s, inputs=None, kind="query"):
    """-> (status, values or None); sequential z3 default solver."""
    t = time.time()
    s = z3.Solver()
    s.set("timeout", max(1, int(timeout_s * 1000)))
    s.add(*cons)
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    vals = None
    if r == "sat" and inputs is not None:
        vals = model_values(s.model(), inputs)
    STATS.solver_s += time.time() - t
    _count(kind, r)
    return r, vals


def _count(kind, r):
    if kind == "query":
        STATS.queries += 1
        setattr(STATS, r, getattr(STATS, r) + 1)
    else:
        STATS.side_queries += 1


def portfolio(cons, timeout_s, inputs, kind="query", names=None):
    """Race strategies in separate z3 contexts (threads) + cvc5 (process)."""
    real = pure_real(cons)
    if names is None:
        names = ["smt", "nra", "nlsat", "split", "smt2", "smt-old"] if real else ["smt", "split", "smt2", "smt-old"]
    t0 = time.time()
    done = threading.Event()
    result = {}
    lock = threading.Lock()
    jobs = []
    goal = z3.Goal()
    for n in names:
        c = z3.Context()
        tr = [x.translate(c) for x in cons]
        ins = {k: v.translate(c) for k, v in (inputs or {}).items()}
        jobs.append((n, c, tr, ins))
    smt2 = None

    def work(n, c, tr, ins):
        try:
            s = STRATS[n](c)
            s.set("timeout", int(timeout_s * 1000))
            s.add(*tr)
            r = str(s.check())
            if r in ("sat", "unsat"):
                vals = model_values(s.model(), ins) if r == "sat" else None
                with lock:
                    if "r" not in result:
                        result["r"], result["vals"], result["by"] = r, vals, n
                        done.set()
        except Exception as e:  # noqa: BLE001
            result.setdefault("err", []).append((n, str(e)))

    threads = [threading.Thread(target=work, args=j, daemon=True) for j in jobs]
    for th in threads:
        th.start()
    proc = None
    tmp = None
    exe = shutil.which("cvc5")
    if exe:
        s = z3.Solver()
        s.add(*cons)
        fd, tmp = tempfile.mkstemp(suffix=".smt2")
        with os.fdopen(fd, "w") as f:
            f.write("(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", ""))
        proc = subprocess.Popen(
            [exe, "--nl-ext-tplanes", f"--tlimit={int(timeout_s * 1000)}", tmp],
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

        def cv():
            o = proc.communicate()[0]
            if o.strip().split("\n")[0] == "unsat" and "(error" not in o:
                with lock:
                    if "r" not in result:
                        result["r"], result["vals"], result["by"] = "unsat", None, "cvc5"
                        done.set()
        cth = threading.Thread(target=cv, daemon=True)
        cth.start()
        threads.append(cth)
    end = time.time() + timeout_s + 1
    while time.time() < end and not done.is_set():
        if not any(th.is_alive() for th in threads):
            break
        done.wait(0.05)
    if proc is not None and proc.poll() is None:
        proc.kill()
    for _, c, _, _ in jobs:
        try:
            c.interrupt()
        except Exception:  # noqa: BLE001
            pass
    lim = time.time() + 10
    for th in threads:
        while th.is_alive() and time.time() < lim:
            th.join(0.2)
            for _, c, _, _ in jobs:
                try:
                    c.interrupt()
                except Exception:  # noqa: BLE001
                    pass
    if tmp:
        os.unlink(tmp)
    r = result.get("r", "unknown")
    STATS.solver_s += time.time() - t0
    _count(kind, r)
    WINS[result.get("by", "none")] = WINS.get(result.get("by", "none"), 0) + 1
    return r, result.get("vals")


WINS = {}
