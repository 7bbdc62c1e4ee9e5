"""Which inputs are run through which specification, per property."""
import itertools, json, multiprocessing, os, random, re
import inputs as I
import shapes as S

ASSUME = ["the recorded runs are of the public API of /repo's crates built by cargo in this sandbox",
          "the harness (yamx) records results faithfully",
          "inputs beyond the enumerated families are not explored"]

class Job:
    """fams: (family, how many of it (None: all), how many of them put deep, late or repeated into documents)"""
    kind = "trace"
    def __init__(self, name, mode="ev", module="EventTrace", env=None, fams=(), chunk=24000, wrap=None, cfg=None, cap=None):
        self.name, self.mode, self.module, self.env = name, mode, module, env or {}
        self.fams, self.chunk, self.wrap, self.cfg, self.cap = fams, chunk, wrap, cfg, cap
    def lines(self, rng, tier, run):
        """distinct inputs of the families, as harness input lines; at most `quick` of each family"""
        sc = 1 if tier == "quick" else 8
        many = lambda n: None if n is None else n * (1 if tier == "quick" else 40)
        todo = [(f[0], rng.random(), sc, many(f[1]), self.cap, many(f[2] if len(f) > 2 else 0)) for f in self.fams]
        if len(todo) > 2:
            with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 8)) as pool: got = pool.starmap(members, todo, 1)
        else: got = [members(*x) for x in todo]
        out = list(dict.fromkeys(s for l in got for s in l))
        rng.shuffle(out)
        if self.wrap is None: return [json.dumps(list(s.encode())).encode() + b"\n" for s in out]
        res = []
        for s in out: res += [json.dumps(v).encode() + b"\n" for v in self.wrap(s, rng)]
        return res

def members(name, seed, sc, limit, cap, more):
    r = random.Random(seed)
    f = getattr(I, name)
    got = list(dict.fromkeys(f() if name == "suite" else f(r, sc)))
    if cap is not None: got = [s for s in got if len(s.encode()) <= cap and PRINTABLE.fullmatch(s)]
    out = r.sample(got, limit) if limit is not None and len(got) > limit else got
    if more: out = out + [s for s in I.amplify(r, got, more) if cap is None or len(s.encode()) <= 3 * cap and PRINTABLE.fullmatch(s)]
    return out

PRINTABLE = re.compile("[\t\n\r -~\x85\xa0-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]*")   # c-printable without the byte order mark

class Several(Job):
    """the inputs of several jobs of one specification in one go (fewer TLC starts)"""
    def __init__(self, *jobs):
        Job.__init__(self, "+".join(j.name for j in jobs), jobs[0].mode, jobs[0].module, jobs[0].env)
        self.jobs = jobs
        assert all((j.mode, j.module, j.env) == (self.mode, self.module, self.env) for j in jobs)
    def lines(self, rng, tier, run):
        out = [l for j in self.jobs for l in j.lines(rng, tier, run)]
        rng.shuffle(out)
        return out

class Mc:
    kind = "mc"
    def __init__(self, name, module, cfg=None, env=None, extra=(), timeout=850):
        self.name, self.module, self.cfg, self.env, self.extra, self.timeout = name, module, cfg or module + ".cfg", env or {}, list(extra), timeout

BIN = {"source": "yamsrc", "de": "yamde", "ser": "yamde", "ways": "yamways"}                  # harness program of a mode, yamx by default
WAYS = ["load", "parser", "single", "source", "events", "first", "peeked", "iter", "ignored", "value", "strings", "map", "float", "text", "record", "choice", "bytes"]
def dead(mode, how, v):
  if mode == "api": return {"keep": 0, "ops": v.get("ops", []), "res": [[how]], "it": [], "itg": how}
  if mode == "breaks": return {"runs": [{"e": [], "f": [how, "", [0, 0, 0]], "g": "ok"}] * 3, "keep": 0}
  if mode == "source": return {"e": [], "f": [how, "", [0, 0, 0]], "g": "ok", "keep": 0, "same": 0, "how": [how, 0]}
  if mode == "de": return {"s": v.get("s", ["any"]), "r": [how]}
  if mode == "ser": return {"i": [], "s": ["any"], "v": v["v"], "r": [how]}
  if mode == "node": return {"t": [how], "sp": [0, []], "spanned": 0, "ok": 0, "h": []}
  if mode == "ways": return {"e": [], "f": how, "g": "ok", "w": {w: [how, 0] for w in WAYS}}
  if mode == "tree": return {"docs": [how], "single": [how], "same": 0, "keep": 0}
  return {"e": [], "f": [how, "", [0, 0, 0]], "g": "ok", "keep": 0}

def tree(name, *fams, wrap=None): return Job(name, "tree", "TreeTrace", {}, fams, wrap=wrap)
def keep_both(s, rng): return [{"i": list(s.encode()), "keep": 1}]

NODES = [["null"], ["bool", 1], ["bool", 0], ["int", 0, [0]], ["int", 1, [1, 2]], ["int", 0, [9]*18], ["int", 0, [1]], ["int", 0, [3]],
         ["float", 0, [1, 5], 1], ["float", 0, [], 0], ["float", 1, [], 0], ["inf", 1], ["nan"], ["str", [97]], ["str", []], ["str", [49]], ["str", [195, 169, 98]],
         ["bad"], ["alias", 3], ["seq", []], ["seq", [["int", 0, [1]], ["str", [98]]]], ["map", []], ["map", [[["str", [97]], ["int", 0, [1]]], [["int", 0, [0]], ["str", [99]]]]],
         ["tag", [33], [120], ["str", [97]]], ["tag", [33], [121], ["str", [97]]], ["tag", [97], [120], ["str", [97]]], ["tag", [33], [120], ["str", [98]]], ["tag", [97, 33], [120], ["int", 0, [1]]],
         ["alias", 1], ["seq", [["str", [98]]]], ["map", [[["str", [97]], ["int", 0, [3]]]]], ["str", [65]], ["float", 0, [1, 6], 1], ["inf", 0]]
MUTS = ["read", "write", "bool", "int", "float", "upper", "push", "set", "entry", "value", "take", "tag", "equal"]
def rand_tree(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.35: return rng.choice(NODES)
    if r < 0.65: return ["seq", [rand_tree(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    if r < 0.95: return ["map", [[rand_tree(rng, depth - 1) if rng.random() < 0.3 else rng.choice(NODES), rand_tree(rng, depth - 1)] for _ in range(rng.randint(0, 3))]]
    return ["tag", [33], [120], rand_tree(rng, depth - 1)]
def steps(rng, n):
    out = []
    for _ in range(n):
        op = "probe" if rng.random() < 0.3 else rng.choice(MUTS)
        where = rng.choice([0, 0, rng.randint(0, 20)])
        if op in ("read", "write"): arg = rng.choice([0, 0, 1, 1, 2, 3, 12, 5, [97], [97], [98], [], [49], [195, 169, 98]])
        else: arg = rng.randint(0, 12)
        out.append([op, where, arg, rng.choice(NODES)])
    return out
def node_history(s, rng): return [{"i": list(s.encode()), "spanned": rng.randint(0, 1), "steps": [["probe", j, 0, []] for j in range(4)] + steps(rng, rng.randint(4, 16))}]
def built_history(s, rng): return [{"i": [], "t": rand_tree(rng, rng.randint(0, 3)), "spanned": rng.randint(0, 3) // 3, "steps": [["probe", j, 0, []] for j in range(3)] + steps(rng, rng.randint(3, 20))} for _ in range(40)]
def each_op(s, rng):
    """every operation on every kind of node, in both node types"""
    return [{"i": [], "t": n, "spanned": sp, "steps": [[op, 0, arg, new], ["probe", 0, 0, []], ["probe", 1, 0, []], ["equal", 0, 0, []]]}
            for n in NODES for sp in (0, 1) for op in ["probe"] + MUTS
            for arg in (([0, 1, 2, 7, [97], [], [98]] if op in ("read", "write") else [0, 1, 5])) for new in (NODES[6], NODES[13], NODES[22])]
def equal_pairs(s, rng):
    """every kind of node with every other, as elements of a sequence, values of a mapping and under a tag"""
    wrap = [lambda a, b: ["seq", [a, b]], lambda a, b: ["map", [[["str", [97]], a], [b, ["str", [98]]]]],
            lambda a, b: ["seq", [["tag", [33], [120], a], ["tag", [33], [120], b]]], lambda a, b: ["seq", [["seq", [a]], ["seq", [b]]]],
            lambda a, b: ["seq", [["map", [[a, ["null"]]]], ["map", [[b, ["null"]]]]]], lambda a, b: ["seq", [["map", [[["null"], a]]], ["map", [[["null"], b]]]]]]
    return [{"i": [], "t": w(a, b), "spanned": 0, "steps": [["equal", j, q, []] for j in range(1, 4) for q in range(j, 8)]} for a in NODES for b in NODES for w in wrap]
def node(name, *fams, wrap): return Job(name, "node", "NodeTrace", {}, fams, wrap=wrap)

def api(name, *fams, wrap): return Job(name, "api", "ApiTrace", {}, fams, wrap=wrap)
OPS = [0, 1, 2, 3, 6]
def all_histories(s, rng):
    """every sequence of 5 calls that starts with up to 9 plain or peeked steps"""
    n = 4 if rng.random() < 0.7 else 5
    return [{"i": list(s.encode()), "keep": 0, "ops": list(pre) + list(w) + [0, 1, 0, 1]}
            for w in itertools.product(OPS, repeat=n) for pre in ([0] * rng.randint(0, 9),)]
def some_history(s, rng):
    w = []
    style = rng.random()
    for _ in range(rng.randint(3, 60)):
        r = rng.random()
        if style < 0.5: w.append(0 if r < 0.55 else 1 if r < 0.85 else 6 if r < 0.9 else rng.choice([2, 3, 4, 5]))
        elif style < 0.7: w.append(2 if r < 0.5 else 4 if r < 0.6 else 1 if r < 0.9 else 0)
        else: w.append(0 if r < 0.5 else 1)
    return [{"i": list(s.encode()), "keep": rng.randint(0, 1), "ops": w + [0, 1, 3, 1, 0, 0]}]

def ev(name, *fams, spans=0, wrap=None): return Job(name, "ev", "EventTrace", {"SPANS": str(spans)}, fams, wrap=wrap)
def src(name, *fams): return Job(name, "source", "SourceTrace", {"SPANS": "1"}, fams)
def brk(name, *fams): return Job(name, "breaks", "BreaksTrace", {}, fams)
def typed(name, *fams, wrap): return Job(name, "de", "TypedTrace", {}, fams, wrap=wrap)
def ser(name, *fams, wrap): return Job(name, "ser", "WriteTrace", {}, fams, wrap=wrap)
def mon(name, what, *fams, wrap=None): return Job(name, "ev", "MonitorTrace", {"MONITOR": what}, fams, wrap=wrap)

def ways(name, *fams): return Job(name, "ways", "WaysTrace", {}, fams)
def gram(name, *fams, cap=48): return Job(name, "ev", "GrammarTrace", {}, fams, cap=cap)
def check(*pieces):
    """the two specifications of the language against each other, over all texts of a few pieces"""
    return lambda tier: [Mc("grammar-" + p + s, "GrammarCheck", env={"PIECES": p, "START": s, "DEPTH": d + (0 if tier == "quick" else 2)}, timeout=600 if tier == "quick" else 14000) for p, s, d in pieces]

GENERAL = ["quoted", "escapes", "plain", "blocks", "indent", "flow", "anchors", "tags", "docs", "mutants", "every_edit", "soup", "short", "insertions", "crlf", "bad"]
LONG = lambda n: [("large_scalars", n), ("large_blocks", n), ("large_layout", n)]
SIZES = [("sizes_scalars", None), ("sizes_blocks", None), ("sizes_layout", None), ("sizes_names", None), ("sizes_keys", None)]
def general(n, more=0): return [("suite", None)] + [(f, n, more) for f in GENERAL]

PROPS = {
  "C01": lambda tier: [mon("grammar", "grammar", *general(14000, 250), *SIZES, *LONG(60)), *check(("mixed", "", 4))(tier)],
  "C02": lambda tier: [mon("safety", "safety", *general(16000, 400), *SIZES, *LONG(None), ("nest", None)), ways("ways", *general(2500, 150), *SIZES, *LONG(None), ("nest", None))],
  "C03": lambda tier: [ev("spans", *general(9000, 150), *SIZES, *LONG(50), spans=1), mon("locations", "locations", *general(5000), *SIZES), *check(("plain", "", 4))(tier)],
  "C04": lambda tier: [ev("scalars", ("suite", None), ("escapes", None), ("sizes_scalars", None), ("sizes_keys", None), ("large_scalars", 150), ("plain", 70000, 1200), ("quoted", 70000, 1200), ("mutants", 20000), ("insertions", 10000)), gram("scalars-12", ("plain", 6000, 500), ("quoted", 6000, 500), ("escapes", 3000), ("mutants", 2000)), *check(("dquoted", "", 5), ("squoted", "", 4), ("plain", "", 4))(tier)],
  "C05": lambda tier: [ev("block-scalars", ("suite", None), ("blocks", None, 2500), ("sizes_blocks", None), ("large_blocks", 120), ("crlf", 10000), ("mutants", 15000), ("docs", 10000)), gram("block-scalars-12", ("blocks", 10000, 500), ("mutants", 2000)), *check(("scalar", "", 4), ("folded", "", 5), ("folded", "1", 5), ("inner", "", 4))(tier)],
  "C06": lambda tier: [ev("structure", ("suite", None), ("indent", None, 2500), ("wide", 200), ("large_layout", 60), ("sizes_layout", None), ("sizes_keys", None), ("mutants", 20000), ("every_edit", None), ("short", 20000)), gram("structure-12", ("indent", 9000, 500), ("short", 3000), ("every_edit", 3000)), *check(("block", "", 5), ("nested", "", 4))(tier)],
  "C07": lambda tier: [ev("flow", ("suite", None), ("flow", None, 2500), ("wide", 200), ("sizes_layout", None), ("sizes_keys", None), ("mutants", 15000), ("every_edit", None)), gram("flow-12", ("flow", 12000, 500), ("mutants", 2000)), *check(("flow", "", 4), ("flowml", "", 4), ("keys", "", 4))(tier)],
  "C08": lambda tier: [ev("anchors", ("suite", None), ("anchors", None, 3000), ("large_layout", 60), ("sizes_names", None), ("mutants", 15000), ("docs", 20000)), mon("ids", "ids", ("anchors", 20000), ("mutants", 10000), ("docs", 10000)), gram("anchors-12", ("anchors", 8000, 500), ("mutants", 2000)), *check(("props", "", 4), ("ftags", "", 4))(tier)],
  "C09": lambda tier: [Several(ev("tags", ("suite", None), ("tags", None, 2500), ("directives", None), ("large_layout", 60), ("sizes_names", None), ("mutants", 15000)), ev("kept-tags", ("tags", 25000), ("docs", 15000), wrap=keep_both)), gram("tags-12", ("tags", 10000, 500), ("mutants", 2000)), *check(("tags", "", 4), ("ftags", "", 4))(tier)],
  "C10": lambda tier: [ev("documents", ("suite", None), ("docs", None, 2500), ("directives", None), ("large_layout", 60), ("sizes_names", None), ("mutants", 15000), ("tags", 15000), ("every_edit", None)), gram("documents-12", ("directives", 1500), ("docs", 10000, 500), ("mutants", 2000), ("every_edit", 2000)), *check(("docs", "", 4), ("dirs", "", 4))(tier)],
  "C11": lambda tier: [tree("core-schema", ("core", 70000), ("plain", 3000))],
  "C12": lambda tier: [Several(tree("trees", ("suite", None), ("wide", 220), ("large_scalars", 40), ("large_blocks", 40), ("trees", 10000, 1500), *[(f, 1200) for f in GENERAL]), tree("kept-tags-trees", ("tags", 2500), ("docs", 2500), wrap=keep_both))],
  "C13": lambda tier: [src("sources", ("suite", None), *[(f, 4000) for f in GENERAL], *SIZES, *LONG(40)), ev("break-styles", ("crlf", None), spans=1), brk("break-equivalence", ("suite", None), *[(f, 4000) for f in GENERAL], *SIZES, *LONG(40))],
  "C14": lambda tier: [Several(api("all-histories", ("api_texts", None), wrap=all_histories), api("histories", ("suite", None), ("api_texts", None), *[(f, 2500) for f in GENERAL], wrap=some_history))],
  "C15": lambda tier: [ev("rejected", ("suite", None), ("every_edit", None), ("bad", None, 1500), ("directives", None), ("mutants", None, 1200), ("soup", 30000, 800), ("short", 30000), ("flow", 20000, 700), ("indent", 20000, 700), ("docs", 15000), ("tags", 8000), ("anchors", 8000), ("quoted", 8000), ("escapes", None)), gram("rejected-12", ("bad", 7000, 500), ("directives", 1500), ("every_edit", 5000), ("mutants", 5000, 500), ("soup", 5000), ("short", 3000), ("flow", 3000), ("indent", 3000), ("docs", 2000), ("tags", 2000), ("anchors", 2000), ("quoted", 2000)), *check(("tabs", "", 4), ("keys", "", 4), ("mixed", "", 3))(tier)],
  "C16": lambda tier: [Several(typed("small", ("one", None), wrap=S.all_small), typed("integers", ("one", None), wrap=S.ints), typed("conforming", ("hundred", None), wrap=S.conforming),
                       typed("derived", ("hundred", 500), wrap=S.derived_types), typed("anything", ("suite", None), ("wide", 100), ("large_scalars", 30), ("trees", 3000), *[(f, 700) for f in GENERAL], wrap=S.any_text))],
  "C17": lambda tier: [Several(ser("small", ("one", None), wrap=S.written_small), ser("long", ("one", None), wrap=S.written_long), ser("values", ("hundred", None), wrap=S.written))],
  "C18": lambda tier: [Several(node("each-operation", ("one", None), wrap=each_op), node("equal-pairs", ("one", None), wrap=equal_pairs), node("histories", ("wide", 150), ("trees", 8000), ("suite", None), ("mutants", 4000), ("tags", 2000), ("anchors", 2000), wrap=node_history),
                       node("built-nodes", ("hundred", None), wrap=built_history))],
  "C19": lambda tier: [ev("comments", ("suite", None), ("insertions", None, 2000), ("large_layout", 100), ("plain", 20000), ("blocks", 10000), ("indent", 20000), ("flow", 20000)), gram("comments-12", ("insertions", 8000, 500), ("plain", 3000), ("indent", 3000), ("flow", 2000)), *check(("comment", "", 4))(tier)],
}

PROPS["C20"] = lambda tier: [ways("all-ways", *general(9000, 400), ("trees", 5000), ("core", 3000), ("crlf", 3000), ("wide", None), *SIZES, *LONG(None))]

def still_fails(finding, record, tmp):
    """runs the listed input again"""
    text, n = finding["repeat"]
    path = os.path.join(tmp, "finding.tr")
    record(finding["mode"], [json.dumps(list((text * n).encode())).encode() + b"\n"], path, [0])
    with open(path) as f: return json.loads(f.readline())["f"] == "CRASH"
