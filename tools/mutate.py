#!/usr/bin/env python3
"""Self-test of the verifier: mutates the source (in memory) of every function
under contract, one change at a time, and lists the mutants whose obligations
are all still discharged.  tools/mutate.py [QUAL...]"""
import ast
import copy
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(20000)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(body):
    """(kind, path-index) of every mutation site."""
    out = []
    for i, n in enumerate(ast.walk(body)):
        if isinstance(n, ast.Compare):
            out.append((i, "cmp"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "boolop"))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            out.append((i, "const"))
        elif isinstance(n, ast.BinOp):
            out.append((i, "binop"))
        elif isinstance(n, ast.If):
            out.append((i, "if"))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((i, "compif"))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in SWAP:
            out.append((i, "attr"))
        if hasattr(n, "body") and isinstance(n.body, list):
            for j, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.For, ast.Return, ast.Break, ast.Continue)) and not (
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((i, "del:%d" % j))
    return out


SWAP = {"source_node_object": "dest_node_object", "dest_node_object": "source_node_object", "node_object": "remote_node_object",
        "remote_node_object": "node_object", "interface_a": "interface_b", "interface_b": "interface_a", "_capacity": "_cost",
        "demand_objects": "rsvp_lsp_objects", "node_objects": "srlg_objects", "name": "lsp_name", "lsp_name": "name",
        "capacity": "cost", "_lat": "_lon", "_lon": "_lat"}


def apply(node, idx, kind):
    node = copy.deepcopy(node)
    n = list(ast.walk(node))[idx]
    if kind == "cmp":
        t = CMP.get(type(n.ops[0]))
        if t is None:
            return None
        n.ops[0] = t()
    elif kind == "boolop":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "const":
        v = n.value
        n.value = (not v) if isinstance(v, bool) else v + 1
    elif kind == "binop":
        n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op), ast.Add)()
    elif kind == "if":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "compif":
        n.ifs = []
    elif kind == "attr":
        n.attr = SWAP[n.attr]
    elif kind.startswith("del:"):
        n.body[int(kind[4:])] = ast.copy_location(ast.Pass(), n.body[int(kind[4:])])
    ast.fix_missing_locations(node)
    return node


def run(a):
    qual, idx, kind = a
    from lib import Lib
    from prog import Program
    from verify import Verifier
    prog = Program()
    lib = Lib(prog)
    fn = prog.function(qual)
    m = apply(fn.node, idx, kind)
    if m is None:
        return a, "skip", ""
    line = getattr(list(ast.walk(fn.node))[idx], "lineno", 0)
    what = "line %s %s: %s" % (line, kind, ast.unparse(list(ast.walk(fn.node))[idx])[:100].replace("\n", " / "))
    fn.node = m
    v = Verifier(prog, lib, timeout=4000)
    try:
        v.verify(lib.contracts[qual])
    except Exception as e:
        return a, "error", what + " %r" % e
    st = {o.status for o in v.obs}
    return a, "SURVIVED" if st == {"discharged"} else "refuted" if "refuted" in st else "unknown", what


def main():
    from lib import Lib
    from par import Par
    from prog import Program
    prog = Program()
    lib = Lib(prog)
    quals = sys.argv[1:] or [q for q, c in lib.contracts.items() if not c.assumed]
    jobs = []
    for q in quals:
        fn = prog.function(q)
        jobs += [(q, i, k) for i, k in sites(fn.node)]
    cnt = {}
    par = Par()
    for a in jobs:
        par.submit(a, run, a, 120)
    while par.busy():
        for a, ok, r in par.collect():
            st, what = (r[1], r[2]) if ok else ("died", r)
            cnt[st] = cnt.get(st, 0) + 1
            if st in ("SURVIVED", "error", "died"):
                print(st, a, what, flush=True)
    print(cnt)


if __name__ == "__main__":
    main()
