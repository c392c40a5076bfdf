"""Mutation testing of the contracts: python3 tools/mutate.py [-n PER_FUNCTION] [-j JOBS] [-s SEED] [MODULE_SUBSTRING ...]

Changes one operator, constant, axis or call at a time in a scratch copy of a function under contract
and runs every contract of that module on it, the proofs and the samples separately.
Prints   UNSOUND  proofs pass although a sample fails      (an engine bug)
         SURVIVED nothing fails                             (equivalent change or weak contract)
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import sys
import threading
from queue import Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
SRC = os.environ.get("SPA_REPO", "/repo")
PKG = "surface_potential_analysis"


class Mut(ast.NodeTransformer):
    """Collects (or applies the k-th of) the possible changes."""

    def __init__(self, k=None):
        self.k, self.n, self.what = k, 0, None

    def hit(self, what):
        i = self.n
        self.n += 1
        if i == self.k:
            self.what = what
            return True
        return False

    def visit_BinOp(self, node):
        self.generic_visit(node)
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mod}
        t = type(node.op)
        if t in sw and self.hit(f"{t.__name__}->{sw[t].__name__} line {node.lineno}"):
            return ast.copy_location(ast.BinOp(node.left, sw[t](), node.right), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.USub) and self.hit(f"drop minus line {node.lineno}"):
            return node.operand
        if isinstance(node.op, ast.Not) and self.hit(f"drop not line {node.lineno}"):
            return node.operand
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        t = type(node.ops[0])
        if t in sw and self.hit(f"{t.__name__}->{sw[t].__name__} line {node.lineno}"):
            node.ops[0] = sw[t]()
        return node

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            if self.hit(f"{v}->{not v} line {node.lineno}"):
                return ast.copy_location(ast.Constant(not v), node)
        elif isinstance(v, int):
            for d in (1, -1):
                if self.hit(f"{v}->{v + d} line {node.lineno}"):
                    return ast.copy_location(ast.Constant(v + d), node)
        elif isinstance(v, float):
            if self.hit(f"{v}->{v * 2} line {node.lineno}"):
                return ast.copy_location(ast.Constant(v * 2), node)
        elif v == "ortho":
            if self.hit(f"ortho->forward line {node.lineno}"):
                return ast.copy_location(ast.Constant("forward"), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in ("conj", "conjugate", "abs", "real", "flip", "fftshift", "ifftshift") and node.args and self.hit(f"drop {name} line {node.lineno}"):
            return node.args[0]
        swn = {"fft": "ifft", "ifft": "fft", "fftn": "ifftn", "ifftn": "fftn", "real": "imag", "cos": "sin", "sin": "cos", "ceil": "floor", "floor": "ceil", "eigh": "eig", "sum": "prod", "min": "max", "max": "min"}
        if name in swn and isinstance(f, ast.Attribute) and self.hit(f"{name}->{swn[name]} line {node.lineno}"):
            f.attr = swn[name]
            return node
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]) and self.hit(f"swap args of {name} line {node.lineno}"):
            node.args[0], node.args[1] = node.args[1], node.args[0]
        if name == "copy" and not node.args and isinstance(f, ast.Attribute) and self.hit(f"drop copy line {node.lineno}"):
            return f.value
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        sw = {"fundamental_n": "n", "n": "fundamental_n", "T": None, "delta_x": "fundamental_delta_x"}
        if node.attr in sw and isinstance(node.ctx, ast.Load) and self.hit(f".{node.attr} changed line {node.lineno}"):
            if sw[node.attr] is None:
                return node.value
            node.attr = sw[node.attr]
        return node

    def visit_Slice(self, node):
        self.generic_visit(node)
        if node.step is not None and self.hit(f"drop step line {node.step.lineno}"):
            node.step = None
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if self.hit(f"swap branches line {node.lineno}"):
            node.body, node.orelse = node.orelse, node.body
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(b) for b in node.body]
        node.args.defaults = [d if not isinstance(d, ast.Constant) else d for d in node.args.defaults]
        return node


def strip(fn):
    if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
        return fn.body[0]
    return None


def find(tree, qual):
    node = tree
    for part in qual.split("."):
        node = next((c for c in node.body if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == part), None)
        if node is None:
            return None
    return node if isinstance(node, ast.FunctionDef) else None


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield f"{n.name}.{m.name}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=4)
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("-s", type=int, default=0)
    ap.add_argument("--cases", type=int, default=3)
    ap.add_argument("mods", nargs="*")
    a = ap.parse_args()
    from spaverify import load_contracts
    from spaverify.contract import REG

    sys.path.insert(0, SRC)
    load_contracts()
    rng = random.Random(a.s)
    bymod: dict = {}
    for con in REG.values():
        if con.target and con.kind != "lemma":
            bymod.setdefault(con.target.split(":")[0], []).append(con)
    jobs = Queue()
    total = 0
    for mod, cons in sorted(bymod.items()):
        if a.mods and not any(m.replace("/", ".") in mod for m in a.mods):
            continue
        rel = PKG + "/" + mod.replace(".", "/") + ".py"
        if not os.path.exists(os.path.join(SRC, rel)):
            rel = PKG + "/" + mod.replace(".", "/") + "/__init__.py"
        text = open(os.path.join(SRC, rel)).read()
        tree = ast.parse(text)
        targets = {}
        for con in cons:
            targets.setdefault(con.target.split(":")[1], []).append(con)
        for qual in functions(tree):
            fn = find(tree, qual)
            direct = targets.get(qual)
            if direct is None and not qual.split(".")[-1].startswith("_"):
                continue
            m = Mut()
            m.visit(copy.deepcopy(fn))
            ks = list(range(m.n))
            rng.shuffle(ks)
            for k in ks[: a.n]:
                t2 = copy.deepcopy(tree)
                node = find(t2, qual)
                doc = strip(node)
                mm = Mut(k)
                if doc is not None:
                    node.body = node.body[1:]
                    m0 = Mut()
                    m0.visit(copy.deepcopy(node))
                    if k >= m0.n:
                        continue
                mm.visit(node)
                if doc is not None:
                    node.body.insert(0, doc)
                ast.fix_missing_locations(t2)
                use = direct or [c for c in cons]
                jobs.put((rel, qual, mm.what, ast.unparse(t2), [(c.name, i, c.timeout) for c in use for i in _spread(len(c.case_list("quick")), a.cases)]))
                total += 1
    print(total, "mutants", flush=True)
    lock = threading.Lock()
    counts = {"killed": 0, "survived": 0, "unsound": 0, "proof only": 0}

    def loop(slot):
        from spaverify.check import Proc

        base = f"/tmp/mutants/{slot}"
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree(os.path.join(SRC, PKG), os.path.join(base, PKG), ignore=shutil.ignore_patterns("__pycache__"))
        while not jobs.empty():
            try:
                rel, qual, what, text, cs = jobs.get_nowait()
            except Exception:  # noqa: BLE001
                return
            p = os.path.join(base, rel)
            orig = open(p).read()
            open(p, "w").write(text)
            try:
                env = {"SPA_REPO": base}
                sym, con = P(Proc, "spaverify.worker", env), P(Proc, "spaverify.concrete", env)
                sv, cv = "ok", "ok"
                det = ""
                for name, i, to in cs:
                    r = sym.run({"contract": name, "case_index": i, "tier": "quick", "timeout": to}, to + 45)
                    c = con.run({"contract": name, "case_index": i, "tier": "quick", "samples": 12, "seed": 1, "overrides": None, "time_limit": 12}, 60)
                    s1 = "fail" if r.get("failures") else ("unsup" if r.get("unsupported") or r.get("error") else "ok")
                    c1 = "fail" if c.get("failing") or c.get("error") else "ok"
                    if s1 == "ok" and c1 == "fail":
                        sv, cv, det = s1, c1, f"{name} case {i} {json.dumps(c.get('failing') or c.get('error'))[:300]}"
                        break
                    if s1 != "ok" and sv == "ok":
                        sv = s1
                    if s1 == "fail":
                        sv = "fail"
                    if c1 == "fail":
                        cv = "fail"
                    if sv == "fail" and cv == "fail":
                        break
                sym.stop()
                con.stop()
            finally:
                open(p, "w").write(orig)
            with lock:
                if sv == "ok" and cv == "fail":
                    counts["unsound"] += 1
                    print("UNSOUND ", rel, qual, what, det, flush=True)
                elif sv != "fail" and cv == "ok":
                    counts["survived"] += 1
                    print("SURVIVED", rel, qual, what, sv, flush=True)
                elif cv == "ok":
                    counts["proof only"] += 1
                else:
                    counts["killed"] += 1
        shutil.rmtree(base, ignore_errors=True)

    ths = [threading.Thread(target=loop, args=(k,)) for k in range(a.j)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    print(counts)


def P(Proc, module, env):
    class Q(Proc):
        def start(self):
            old = {k: os.environ.get(k) for k in env}
            with _L:
                os.environ.update(env)
                super().start()

    return Q(module)


_L = threading.Lock()


def _spread(n, k):
    if n <= k:
        return range(n)
    return sorted({0, n - 1, *[(j * n) // k for j in range(k)]})[: k + 1]


if __name__ == "__main__":
    main()
