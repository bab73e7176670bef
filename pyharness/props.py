"""Cases, oracles and checks for TestSupport/planaritytesting (T01..T05)."""
import copy, importlib, itertools, json, logging, os, random, re, shutil, subprocess, sys, warnings
from pathlib import Path
from hypothesis import strategies as st
import networkx as nx
warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")

class Fail(AssertionError): pass
def need(c, msg):
    if not c: raise Fail(msg)

class Ctx:
    """A private copy of the Python tools, a scratch directory and the executables under test."""
    def __init__(self, scratch, cfg, tier):
        self.known = cfg["known"]; self.scratch, self.cfg, self.tier, self.known_seen, self.k = Path(scratch).resolve(), cfg, tier, set(), 0
        d = self.scratch / "tool" / "planaritytesting"
        if not d.exists(): shutil.copytree(os.path.join(REPO, "TestSupport", "planaritytesting"), d, ignore=shutil.ignore_patterns("__pycache__"))
        sys.path.insert(0, str(d)); logging.disable(logging.CRITICAL)
    def accept(self, key, cond, msg):
        """a wrong answer is let pass only when it is the recorded one and is listed in known_findings.txt"""
        need(cond and key in self.known, msg); self.known_seen.add(key)
    def mod(self, name): return importlib.import_module(name)
    def dir(self):
        self.k += 1; d = self.scratch / ("c%d" % self.k)
        if d.exists(): shutil.rmtree(d)
        d.mkdir(); return d
    def run(self, args, cwd=None, ok=(0,)):
        r = subprocess.run([self.cfg["planarity"]] + [str(x) for x in args], cwd=cwd, capture_output=True, text=True, stdin=subprocess.DEVNULL)
        need(r.returncode in ok, "planarity %s ended with %d: %s" % (" ".join(str(x) for x in args[:2]), r.returncode, (r.stdout + r.stderr)[-200:]))
        return r

# ------------------------------------------------------------------ oracles
def graph(n, edges):
    G = nx.Graph(); G.add_nodes_from(range(n)); G.add_edges_from(edges); return G
def g6(G): return nx.to_graph6_bytes(G, nodes=range(G.number_of_nodes()), header=False).decode().strip()
def planar(G): return nx.check_planarity(G)[0]
def outerplanar(G):
    H = G.copy(); a = max(H.nodes, default=-1) + 1; H.add_node(a); H.add_edges_from((a, v) for v in G.nodes); return planar(H)
def has_k4(G):
    """not series-parallel: repeatedly remove vertices of degree at most 2"""
    H = G.copy()
    while True:
        v = next((v for v in H if H.degree(v) <= 2), None)
        if v is None: return H.number_of_nodes() > 0
        nb = list(H[v]); H.remove_node(v)
        if len(nb) == 2: H.add_edge(*nb)
def has_k23(G):
    """free of K2,3 exactly when every block is outerplanar or K4"""
    for b in nx.biconnected_components(G):
        B = G.subgraph(b)
        if not outerplanar(nx.convert_node_labels_to_integers(B)) and not (len(b) == 4 and B.number_of_edges() == 6): return True
    return False
def has_k33(G, memo=None):
    if memo is None: memo = {}
    key = frozenset(frozenset(e) for e in G.edges)
    if key in memo: return memo[key]
    ok, cert = nx.check_planarity(G, counterexample=True)
    if ok: r = False
    elif sum(1 for v in cert if cert.degree(v) >= 3) == 6: r = True
    else:
        r = False
        for e in list(cert.edges):
            H = G.copy(); H.remove_edge(*e)
            if has_k33(H, memo): r = True; break
    memo[key] = r; return r
FINDS = {"p": lambda G: not planar(G), "d": lambda G: not planar(G), "o": lambda G: not outerplanar(G), "2": has_k23, "3": has_k33, "4": has_k4}

# ------------------------------------------------------------------ T01 graph class and shared helpers
def adj(n, edges):
    a = [[] for _ in range(n)]
    for u, v in edges: a[u].append(v); a[v].append(u)
    return a
@st.composite
def t01(draw, tier):
    n = draw(st.integers(2, 12)); ops = [["add", draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))] for _ in range(draw(st.sampled_from([0, 4, 12, 25])))]
    for _ in range(draw(st.integers(0, 14 if tier == "quick" else 40))):
        ops.append([draw(st.sampled_from(["add", "add", "add", "del", "copy", "arcbad", "delbad", "swap"])), draw(st.integers(-2, n + 1)), draw(st.integers(-2, n + 1))])
    bad = draw(st.sampled_from(["none", "dup", "range", "len", "type", "minus1", "neg"]))
    return {"n": n, "ops": ops, "bad": bad, "at": draw(st.integers(0, n - 1)), "x": draw(st.integers(0, 3)), "explicit": draw(st.booleans()),
            "lo": draw(st.integers(-20, 20)), "hi": draw(st.integers(-20, 20)), "txt": draw(st.text("0123456789,x -", max_size=5)), "keys": draw(st.lists(st.integers(0, 6), max_size=5)),
            "badorder": draw(st.sampled_from([1, 13, -1, 40]))}
def t01_check(c, ctx):
    G = ctx.mod("graph"); U = ctx.mod("planaritytesting_utils"); n = c["n"]; model = [[] for _ in range(n)]; g = G.Graph(n); keep = []
    def same(x, m, what):
        need(x.order == n and x.graph_adj_list_repr == m, "%s: adjacency lists are %r, expected %r" % (what, x.graph_adj_list_repr, m))
    def rejects(f, what, exc=None):
        try: f()
        except (exc or G.GraphError): return
        raise Fail(what + " was accepted")
    for op, u, v in c["ops"]:
        okp = 0 <= u < n and 0 <= v < n
        if op == "add" and okp and u != v and v not in model[u]:
            g.add_arc(u, v); g.add_arc(v, u); model[u].append(v); model[v].append(u)
        elif op == "del" and okp and v in model[u]:
            g.delete_edge(u, v); model[u].remove(v); model[v].remove(u)
        elif op == "del" and sum(map(len, model)):
            e = [(a, b) for a in range(n) for b in model[a]]; u, v = e[(u * 7 + v) % len(e)]
            g.delete_edge(u, v); model[u].remove(v); model[v].remove(u)
        elif op in ("arcbad", "delbad") and not okp:
            rejects(lambda: (g.add_arc if op == "arcbad" else g.delete_edge)(u, v), "%s(%d,%d)" % (op, u, v))
        elif op in ("copy", "swap"):
            h = copy.deepcopy(g); need(h == g and g == h, "a deep copy is not equal to its original")
            if op == "swap": g, h = h, g
            keep.append((h, copy.deepcopy(model)))
        same(g, model, "after " + op)
    for h, m in keep:
        same(h, m, "the copy made earlier"); need((h == g) == (m == model), "equality of two graphs is wrong")
    need(not (g == 5) and g != G.Graph(2 if n != 2 else 3), "equality with another object")
    deg = {}
    for a in model: deg[len(a)] = deg.get(len(a), 0) + 1
    need(dict(g.get_vertex_degree_counts()) == deg and g.get_max_degree() == max(map(len, model)), "degree counts")
    rejects(lambda: copy.copy(g), "shallow copy", NotImplementedError)
    rejects(lambda: G.Graph(c["badorder"]), "order %d" % c["badorder"])
    # construction from adjacency lists: valid ones accepted, malformed ones refused
    L = copy.deepcopy(model); m = sum(map(len, L)) // 2; b = c["bad"]; at = c["at"]; kw = {"order": n} if c["explicit"] else {}
    if b == "none":
        if m or c["explicit"]: same(G.Graph(graph_adj_list_repr=L, **kw), model, "constructed from lists")
    elif b == "dup" and L[at]: L[at].append(L[at][0]); rejects(lambda: G.Graph(graph_adj_list_repr=L, **kw), "duplicate neighbour")
    elif b == "range": L[at].insert(min(c["x"], len(L[at])), n + c["x"]); rejects(lambda: G.Graph(graph_adj_list_repr=L, **kw), "neighbour out of range")
    elif b == "neg": L[at].append(-2 - c["x"]); rejects(lambda: G.Graph(graph_adj_list_repr=L, **kw), "negative neighbour")
    elif b == "len" and n + c["x"] + 1 <= 12: rejects(lambda: G.Graph(n + c["x"] + 1, L), "too few lists")
    elif b == "type": L[at].append(str(c["x"])); rejects(lambda: G.Graph(graph_adj_list_repr=L, **kw), "neighbour of another type")
    elif b == "minus1":
        i = min(c["x"], len(L[at])); L[at].insert(i, -1); right = "reject" if i + 1 < len(L[at]) else "accept"
        known = "crash" if i + 1 >= n else "reject" if L[i + 1] else "accept"
        try: G.Graph(graph_adj_list_repr=L, **kw); got = "accept"
        except G.GraphError: got = "reject"
        except IndexError: got = "crash"
        if got != right:
            ctx.accept("T01-minus1", got == known, "-1 at position %d of list %d: %s, expected %s" % (i, at, got, right))
    # text form: read by planarity as the same graph
    d = ctx.dir(); (d / "a.txt").write_text(str(g)); fmt = "gam"[c["x"] % 3]
    ctx.run(["-x", "-" + fmt, "a.txt", "out.g6" if fmt == "g" else "out.txt"], d)
    o = d / ("out.g6" if fmt == "g" else "out.txt")
    if fmt == "g":
        H = nx.from_graph6_bytes(o.read_text().replace(">>graph6<<", "").split("\n")[0].strip().encode())
        need(H.number_of_nodes() == n and {frozenset(e) for e in H.edges} == {frozenset((u, v)) for u in range(n) for v in model[u]}, "planarity read another graph from the text form")
    kind = {"g": "G6", "a": "AdjList", "m": "AdjMat"}[fmt]
    need(U.determine_input_filetype(o) == kind, "file type of a %s file is given as %s" % (kind, U.determine_input_filetype(o)))
    (d / "l.leda").write_text("LEDA.GRAPH\nvoid\nvoid\n-1\n0\n0\n"); need(U.determine_input_filetype(d / "l.leda") == "LEDA", "LEDA file type")
    (d / "e.g6").write_text(""); rejects(lambda: U.determine_input_filetype(d / "e.g6"), "empty file", ValueError)
    rejects(lambda: U.determine_input_filetype(d / "none.g6"), "missing file", ValueError)
    (d / "x.g6").write_text("!?\n"); rejects(lambda: U.determine_input_filetype(d / "x.g6"), "unknown file type", ValueError)
    shutil.rmtree(d)
    # helpers
    lo, hi = c["lo"], c["hi"]
    need(U.parse_range(str(lo)) == (lo,), "parse_range(single)")
    if lo <= hi: need(U.parse_range("%d,%d" % (lo, hi)) == tuple(range(lo, hi + 1)), "parse_range(%d,%d)" % (lo, hi))
    else: rejects(lambda: U.parse_range("%d,%d" % (lo, hi)), "descending range", ValueError)
    if not re.fullmatch(r"\s*-?\d+\s*(,\s*-?\d+\s*)?", c["txt"]): rejects(lambda: U.parse_range(c["txt"]), "range %r" % c["txt"], ValueError)
    pairs = [(k, i) for i, k in enumerate(c["keys"])]
    if len(set(c["keys"])) < len(c["keys"]): rejects(lambda: U.raise_on_duplicates(pairs), "duplicate keys", ValueError)
    else: need(U.raise_on_duplicates(pairs) == dict(pairs), "raise_on_duplicates")
    need(U.max_num_edges_for_order(n) == n * (n - 1) // 2, "max_num_edges_for_order")
    return m > 0 and len(c["ops"]) > 2, "%s %s" % ("m<=6" if m <= 6 else "m>6", b)

# ------------------------------------------------------------------ T02 .g6 file comparison
@st.composite
def t02(draw, tier):
    n = draw(st.integers(2, 8)); pairs = n * (n - 1) // 2
    pool = draw(st.lists(st.integers(0, 2 ** min(pairs, 12) - 1), min_size=1, max_size=6, unique=True)); k = len(pool)
    def f(): return {"lines": draw(st.lists(st.integers(-1, k - 1), min_size=0, max_size=12)), "first": draw(st.integers(0, k - 1)), "header": draw(st.booleans()), "newline": draw(st.booleans()), "sp": draw(st.booleans())}
    return {"n": n, "pool": pool, "a": f(), "b": f(), "names": draw(st.sampled_from([["x.g6", "y.g6"], ["n5.m3.g6", "n5.m3.canonical.g6"], ["same.g6", "sub/same.g6"]]))}
def t02_model(c, f, skip_blank):
    pairs = list(itertools.combinations(range(c["n"]), 2)); enc = [g6(graph(c["n"], [e for i, e in enumerate(pairs) if x >> i & 1])) for x in c["pool"]]
    lines = [f["first"]] + f["lines"]; d = {}; ln = 0
    for x in lines:
        if x < 0:
            if not skip_blank: ln += 1
            continue
        ln += 1; d.setdefault(enc[x], []).append(ln)
    text = "\n".join("" if x < 0 else enc[x] + (" " if f["sp"] and i % 3 == 1 else "") for i, x in enumerate(lines))
    return d, (">>graph6<<" if f["header"] else "") + text + ("\n" if f["newline"] else "")
def t02_check(c, ctx):
    M = ctx.mod("g6_diff_finder"); d = ctx.dir(); (d / "sub").mkdir(); pa, pb = [d / x for x in c["names"]]
    pa.write_text(t02_model(c, c["a"], 0)[1]); pb.write_text(t02_model(c, c["b"], 0)[1])
    F = M.G6DiffFinder(pa, pb, d / "log.txt"); F.output_duplicates(); F.graph_set_diff(); F.graph_set_intersection_with_different_line_nums()
    for h in list(F.logger.handlers): h.close(); F.logger.removeHandler(h)
    na, nb = pa.name[:-3], pb.name[:-3]
    def expect(sk):
        A, B = t02_model(c, c["a"], sk)[0], t02_model(c, c["b"], sk)[0]; e = {}
        for p, D in ((pa, A), (pb, B)):
            dup = {k: {"first_line": v[0], "duplicate_line_nums": v[1:]} for k, v in D.items() if len(v) > 1}
            if dup: e[p.parent / "results" / (p.name + ".duplicates.out.txt")] = ("dup", p.name, dup)
        for p, D, E, x, y in ((pa, A, B, na, nb), (pb, B, A, nb, na)):
            only = [k for k in D if k not in E]
            if only: e[p.parent / "results" / ("graphs_in_%s_not_in_%s.g6" % (x, y))] = ("diff", only)
        both = {k: [A[k][0], B[k][0]] for k in A if k in B and A[k][0] != B[k][0]}
        if both: e[pa.parent / "results" / ("graphs_in_%s_and_%s.txt" % (na, nb))] = ("both", both)
        return e
    got = {}
    for r in (pa.parent / "results", pb.parent / "results"):
        if r.is_dir():
            for f in r.iterdir():
                t = f.read_text()
                if f.name.endswith(".duplicates.out.txt"):
                    l, rest = t.split("\n", 1); mm = re.fullmatch("Comparand infile name: '(.*)'", l); need(mm, "first line of the duplicates file: %r" % l); got[f] = ("dup", mm.group(1), json.loads(rest))
                elif "_not_in_" in f.name: got[f] = ("diff", t.split("\n")[:-1]); need(t.endswith("\n"), "difference file does not end in a newline")
                else: got[f] = ("both", json.loads(t))
    want = expect(0)
    if got != want:
        rel = lambda e: {str(k.relative_to(d)): v for k, v in e.items()}
        ctx.accept("T02-blank", got == expect(1), "result files are %s, expected %s" % (json.dumps(rel(got))[:400], json.dumps(rel(want))[:400]))
    shutil.rmtree(d)
    A, B = t02_model(c, c["a"], 0)[0], t02_model(c, c["b"], 0)[0]
    return bool(set(A) & set(B)) and A != B, "%d result files" % len(want)

# ------------------------------------------------------------------ graphs with obstructions, for T03
BASES = {"none": [], "K5": list(itertools.combinations(range(5), 2)), "K33": [(a, b) for a in range(3) for b in range(3, 6)], "K4": list(itertools.combinations(range(4), 2)), "K23": [(a, b) for a in range(2) for b in range(2, 5)],
         "W5": [(0, i) for i in range(1, 6)] + [(i, i % 5 + 1) for i in range(1, 6)], "K5+": list(itertools.combinations(range(5), 2)) + [(0, 5), (1, 5)], "K5++": list(itertools.combinations(range(5), 2)) + [(0, 5), (1, 5), (2, 5)], "C6": [(i, (i + 1) % 6) for i in range(6)]}
@st.composite
def obstruct(draw, maxn, maxextra):
    E = set(tuple(sorted(e)) for e in BASES[draw(st.sampled_from(sorted(BASES)))]); n = max([max(e) for e in E], default=0) + 1
    for _ in range(draw(st.integers(0, 2))):
        if n < maxn and E:
            e = sorted(E)[draw(st.integers(0, len(E) - 1))]; E.discard(e); E |= {(e[0], n), (e[1], n)}; n += 1
    n = max(n, 4)
    if n < maxn: n += draw(st.integers(0, min(2, maxn - n)))
    for _ in range(draw(st.integers(0, maxextra))):
        u, v = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if u != v: E.add((min(u, v), max(u, v)))
    perm = draw(st.permutations(range(n)))
    return {"n": n, "edges": sorted([min(perm[a], perm[b]), max(perm[a], perm[b])] for a, b in E)}
@st.composite
def t03(draw, tier):
    gs = draw(st.lists(obstruct(8 if tier == "quick" else 11, 5), min_size=1, max_size=3))
    return {"ext": draw(st.sampled_from("234")), "graphs": gs, "lie": [draw(st.sampled_from([True, True, False])) for _ in gs], "header": draw(st.booleans()), "name": draw(st.sampled_from(["in.g6", "n6.m9.g6"]))}
def t03_check(c, ctx):
    M = ctx.mod("edge_deletion_analysis"); d = ctx.dir(); p = d / c["name"]; lies = d / "lies.txt"; gs = [graph(g["n"], g["edges"]) for g in c["graphs"]]
    p.write_text((">>graph6<<" if c["header"] else "") + "".join(g6(G) + "\n" for G in gs))
    lies.write_text("".join("%s.%d.AdjList.out.txt\n" % (c["name"], i + 1) for i, l in enumerate(c["lie"]) if l))
    os.environ["LIE_FILE"] = str(lies); os.environ["LIE_REAL"] = ctx.cfg["planarity"]; truth = [FINDS[c["ext"]](G) for G in gs]
    for lie in (False, True):
        A = M.EdgeDeletionAnalyzer(Path(ctx.cfg["lie"] if lie else ctx.cfg["planarity"]), p, d / ("o%d" % lie), c["ext"]); k = A.analyze_graphs()
        for h in list(A.logger.handlers): h.close(); A.logger.removeHandler(h)
        want = [t and l and lie for t, l in zip(truth, c["lie"])]; got = [(d / ("o%d" % lie) / p.stem / c["ext"] / ("%s.%d" % (c["name"], i + 1))).is_dir() for i in range(len(gs))]
        # a graph that is a K4 subdivision and nothing else contains K2,3 too, and no edge can be spared: it may go unreported
        if c["ext"] == "4": want = [w and (g or any(has_k4(nx.restricted_view(G, [], [e])) for e in G.edges)) for w, g, G in zip(want, got, gs)]
        need(k == sum(want), "%d missed homeomorphs reported, expected %d (search %s)" % (k, sum(want), "made to miss %s" % c["lie"] if lie else "as it is"))
        need(got == want, "evidence directories kept for lines %s, expected %s" % (got, want))
    need(p.read_text().count("\n") == len(gs), "the input file was changed"); shutil.rmtree(d)
    return any(c["lie"]), "ext%s %s" % (c["ext"], "missed" if any(t and l for t, l in zip(truth, c["lie"])) else "clean")

# ------------------------------------------------------------------ T04 orchestrator -> output files -> tables
@st.composite
def t04(draw, tier):
    n = draw(st.integers(2, 6 if tier == "quick" else 7)); mx = n * (n - 1) // 2
    return {"order": n, "canonical": draw(st.booleans()), "makeg": draw(st.booleans()), "counts": [draw(st.integers(1, 3)) for _ in range(mx + 1)], "seed": draw(st.integers(0, 10 ** 6)), "header": draw(st.booleans()),
            "bad": draw(st.lists(st.integers(0, mx), max_size=2, unique=True)), "eda": draw(st.booleans()), "nm": [draw(st.integers(1, 9)), draw(st.integers(0, 40)), draw(st.sampled_from("pdo234x")), draw(st.integers(0, 9)), draw(st.sampled_from(["", "p", "d", "3"]))],
            "drop": draw(st.integers(0, 6))}
def t04_check(c, ctx):
    O = ctx.mod("planarity_testAllGraphs_orchestrator"); Pz = ctx.mod("planarity_testAllGraphs_output_parsing"); T = ctx.mod("test_table_generator")
    d = ctx.dir(); n = c["order"]; ext = (".makeg" if c["makeg"] else "") + (".canonical" if c["canonical"] else ""); rnd = random.Random(c["seed"]); pairs = list(itertools.combinations(range(n), 2)); ind = d / "in" / str(n); ind.mkdir(parents=True); files = {}
    for m, k in enumerate(c["counts"]):
        gs = [graph(n, rnd.sample(pairs, m)) for _ in range(k)]; files[m] = gs
        (ind / ("n%d.m%d%s.g6" % (n, m, ext))).write_text((">>graph6<<" if c["header"] else "") + "".join(g6(G) + "\n" for G in gs) + ("~~~\n" if m in c["bad"] else ""))
    O.distribute_planarity_testAllGraphs_workload(Path(ctx.cfg["planarity"]), c["canonical"], c["makeg"], n, ind, d / "out")
    mixed = 0
    for cmd in "pdo234":
        src = d / "out" / str(n) / cmd
        need(sorted(f.name for f in src.iterdir()) == sorted("n%d.m%d%s.%s.out.txt" % (n, m, ext, cmd) for m in files), "-%s: output files are %s" % (cmd, sorted(f.name for f in src.iterdir())))
        eda = {"n%d.m%d%s.g6" % (n, m, ext): {"numInvalidOK": rnd.randrange(4), "proc_time_s": 0.25 * m, "tot_time_s": 0.5} for m in files} if c["eda"] else None
        if not c["canonical"]: (src / ("n%d.m0%s.canonical.%s.out.txt" % (n, ".makeg" if c["makeg"] else "", cmd))).write_text("of another kind: to be skipped\n")
        g = T.TestTableGenerator(src, d / "tab", c["canonical"], c["makeg"], eda); g.get_order_and_command_from_input_dir(); g.process_files(); g.write_table_formatted_data_to_file()
        tab = [[x.strip() for x in l.strip("|\n").split("|")] for l in open(d / "tab" / str(n) / ("n%d.mALL%s.%s.out.txt" % (n, ext, cmd))) if "=" not in l]
        head, rows, tot = tab[0], tab[1:-1], tab[-1]; need(len(rows) == len(files) and tot[0] == "TOTALS", "table of -%s has %d rows" % (cmd, len(rows)))
        need(head[:7] == ["Input filename", "# Edges", "# Graphs", "# OK", "# NONEMBEDDABLE", "Error flag", "Duration"], "headings %s" % head); sums = [0] * 3; inv = 0; bad = 0
        for m, r in enumerate(rows):
            ne = sum(FINDS[cmd](G) for G in files[m]); k = len(files[m]); mixed += 0 < ne < k; name = "n%d.m%d%s.g6" % (n, m, ext)
            need(r[0] == name and int(r[1]) == m, "row %d of -%s is about %s, %s edges" % (m, cmd, r[0], r[1]))
            if m in c["bad"]: need(r[5] == "ERROR", "row %d of -%s: a file with an unreadable graph has flag %s" % (m, cmd, r[5])); bad += 1
            else: need([int(x) for x in r[2:5]] == [k, k - ne, ne] and r[5] == "SUCCESS", "row %d of -%s is %s, expected %d graphs, %d OK, %d NONEMBEDDABLE, SUCCESS" % (m, cmd, r[2:6], k, k - ne, ne))
            if c["eda"]: need(int(r[7]) == eda[name]["numInvalidOK"] and float(r[8]) == 0.25 * m, "edge deletion columns of row %d are %s" % (m, r[7:])); inv += int(r[7])
            sums = [a + int(b) for a, b in zip(sums, r[2:5])]
        need([int(x) for x in tot[1:4]] == sums, "totals of -%s are %s, expected %s" % (cmd, tot[1:4], sums))
        if c["eda"]: need(int(tot[6]) == inv, "total of invalid OKs is %s, expected %d" % (tot[6], inv))
        if int(tot[4]) != bad: ctx.accept("T04-errors", int(tot[4]) == len(files) - bad, "total number of errors is %s, expected %d" % (tot[4], bad))
    # file names and contents that do not fit are refused
    a, m, cm, wa, wc = c["nm"]; name = "n%d.m%d%s.%s.out.txt" % (a, m, ext, cm)
    good = cm != "x" and (not wa or wa == a) and (not wc or wc == cm) and m <= a * (a - 1) // 2
    try: r = Pz.validate_infile_name(Path("/z") / name, wa, wc); got = True
    except Pz.TestAllGraphsPathError: got = False
    if got: need(r == (a, m, cm), "validate_infile_name(%s) gives %s" % (name, r))
    if got != good:
        ctx.accept("T04-edges", got and not wa and m > a * (a - 1) // 2 and cm != "x" and (not wc or wc == cm), "validate_infile_name(%s, %d, %r) %s" % (name, wa, wc, "accepted" if got else "refused"))
    w = ["FILENAME=\"n%d.m1%s.g6\"" % (n, ext), " DURATION=\"0.01%d\"\n" % (c["seed"] % 10), "-p", " 7", " 5", " 2", " SUCCESS"]; full = "".join(w)
    (d / "f.txt").write_text(full + "\n"); r = Pz.process_file_contents(d / "f.txt", "p")
    need((r[0], float(r[1]), int(r[2]), int(r[3]), int(r[4]), r[5]) == ("n%d.m1%s.g6" % (n, ext), float("0.01%d" % (c["seed"] % 10)), 7, 5, 2, "SUCCESS"), "process_file_contents gives %s" % (r,))
    (d / "f.txt").write_text("".join(x for i, x in enumerate(w) if i != c["drop"]) + "\n")
    for cmd in "pd":
        if cmd == "d": (d / "f.txt").write_text(full)
        try: Pz.process_file_contents(d / "f.txt", cmd); raise Fail("test results with %s were accepted" % ("part %d missing" % c["drop"] if cmd == "p" else "another command"))
        except Pz.TestAllGraphsOutputFileContentsError: pass
    shutil.rmtree(d)
    return mixed > 0, "order %d%s" % (n, " bad" if c["bad"] else "")

# ------------------------------------------------------------------ T05 recorded tables
_atlas = {}
def all_graphs(n):
    if n not in _atlas:
        from networkx.generators.atlas import graph_atlas_g
        _atlas[n] = [G for G in graph_atlas_g() if G.number_of_nodes() == n]
    return _atlas[n]
@st.composite
def t05(draw, tier):
    return {"order": draw(st.sampled_from([5, 6, 7, 7])), "cmd": draw(st.sampled_from("pdo234")), "seed": draw(st.integers(0, 10 ** 9)), "style": draw(st.sampled_from(["relabel", "relabel", "reverse", "bydegree", "bfs"])), "header": draw(st.booleans())}
def t05_check(c, ctx):
    d = ctx.dir(); n = c["order"]; rnd = random.Random(c["seed"]); by = {}
    for G in all_graphs(n):
        if c["style"] == "relabel": order = list(G.nodes); rnd.shuffle(order)
        elif c["style"] == "reverse": order = list(G.nodes)[::-1]
        elif c["style"] == "bydegree": order = sorted(G.nodes, key=lambda v: (G.degree(v), rnd.random()), reverse=bool(c["seed"] & 1))
        else:
            order = []
            for s in rnd.sample(list(G.nodes), n):
                if s not in order: order += [s] + [v for _, v in nx.bfs_edges(G, s)]
        by.setdefault(G.number_of_edges(), []).append(nx.relabel_nodes(G, {v: i for i, v in enumerate(order)}))
    rows = {}; tf = Path(REPO) / "TestSupport" / "tables" / str(n) / ("n%d.mALL.%s.out.txt" % (n, c["cmd"]))
    for l in tf.read_text().split("\n"):
        x = [y.strip() for y in l.strip("|").split("|")]
        if re.fullmatch(r"n\d+\.m\d+\.g6", x[0]): rows[int(x[1])] = [int(y) for y in x[2:5]]
    need(sorted(rows) == sorted(by), "the table has rows for %s edges" % sorted(rows))
    for m, gs in by.items():
        rnd.shuffle(gs); (d / "in.g6").write_text((">>graph6<<" if c["header"] else "") + "".join(g6(G) + "\n" for G in gs))
        ctx.run(["-t", "-" + c["cmd"], "in.g6", "out.txt"], d); mm = re.search(r"^-%s (\d+) (\d+) (\d+) SUCCESS" % c["cmd"], (d / "out.txt").read_text(), re.M)
        need(mm, "no result line for %d edges" % m); got = [int(x) for x in mm.groups()]
        need(got == rows[m], "order %d, %d edges, -%s: graphs/OK/NONEMBEDDABLE are %s, the recorded table says %s" % (n, m, c["cmd"], got, rows[m]))
    shutil.rmtree(d)
    return True, "order %d -%s" % (n, c["cmd"])

class P:
    def __init__(self, cases, check, quick, thorough, rule, limit=120, jobs=8): self.cases, self.check, self.n, self.rule, self.limit, self.jobs = cases, check, {"quick": quick, "thorough": thorough}, rule, limit, jobs
PROPS = {
 "T01": P(t01, t01_check, 1600, 16000, "the graph built has an edge and more than two operations were made", 60),
 "T02": P(t02, t02_check, 1600, 16000, "the two files share a graph and differ", 60),
 "T03": P(t03, t03_check, 480, 4800, "the search is made to miss at least one graph", 120),
 "T04": P(t04, t04_check, 96, 800, "some file has both kinds of verdict", 180, 4),
 "T05": P(t05, t05_check, 96, 900, "every case (a whole table under one relabelling)", 120),
}
