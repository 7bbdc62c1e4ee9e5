"""Shapes of types and texts that (nearly) conform to them, for typed deserialization.  As with
inputs.py, this only chooses what is tried."""
import inputs as I

def B(s): return list(s.encode())
INTS = ["i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128"]
LEAVES = ["bool", "i8", "i32", "i64", "u8", "u64", "f64", "f32", "char", "string", "unit", "any", "ignored", "i16", "u16", "u32", "i128", "u128"]
NAMES = ["a", "b", "c", "A", "B", "kind", "\u00e9", "x y"]

def shape(rng, d, keyed=False):
    r = rng.random()
    if d <= 0 or r < 0.3: return [rng.choice(LEAVES)]
    if r < 0.42: return ["opt", shape(rng, d - 1)]
    if r < 0.48: return ["new", shape(rng, d - 1)]
    if r < 0.6: return ["seq", shape(rng, d - 1)]
    if r < 0.7: return ["map", shape(rng, rng.choice([0, 0, 0, d - 1])), shape(rng, d - 1)]
    if r < 0.78: return [rng.choice(["tup", "tups"]), [shape(rng, d - 1) for _ in range(rng.randint(0, 3))]]
    if r < 0.9: return ["struct", fields(rng, d)]
    return ["enum", [[B(n), rng.choice([["unit"], ["new", shape(rng, d - 1)], ["new", shape(rng, d - 1)], ["tup", [shape(rng, d - 1) for _ in range(rng.choice([0, 2, 2, 3]))]], ["struct", fields(rng, d)]])]
                     for n in rng.sample(NAMES, rng.randint(1, 3))]]
def fields(rng, d): return [[B(n), shape(rng, d - 1)] for n in rng.sample(NAMES, rng.randint(0, 3))]

RANGE = {k: ((-(1 << int(k[1:]) - 1), (1 << int(k[1:]) - 1) - 1) if k[0] == "i" else (0, (1 << int(k[1:])) - 1)) for k in INTS}
def int_text(rng, k):
    lo, hi = RANGE[k]
    r = rng.random()
    if r < 0.5: v = rng.choice([0, 1, 7, 42, 100])
    elif r < 0.9: v = rng.choice([lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, -1, -128, 255, 127, 32767, 65535, 2**31, 2**32 - 1, 2**63 - 1, 2**63, -2**63, 2**64 - 1, 2**64])
    else: v = rng.randint(-70000, 70000)
    f = rng.random()
    if f < 0.6: t = str(v)
    elif f < 0.68: t = f"{v:+d}"
    elif f < 0.76: t = ("-" if v < 0 else "") + "00" + str(abs(v))
    elif f < 0.88: t = hex(abs(v)) if v >= 0 else "-" + hex(-v)
    elif f < 0.94: t = "0o%o" % abs(v)
    else: t = str(v) + rng.choice([".0", "e0", "_", " 1", "."])
    return rng.choice([t] * 8 + [f"'{t}'", f'"{t}"', f"!!int {t}", f"!!str {t}", f"!u {t}", f"&n {t}", "-0", "+0", "+-1", "~", "0x", "0xg", "+", "-", "''"])
STR = ["a", "b c", "'1'", '"x\\ty"', "hello", "'a: b'", "\u00e9", "'\u00e9'", "''", '""', "!!str 1", "!!str true", "'~'", "!u z", '"\\u263a"', "\U0001f600"]
NULLS = ["~", "null", "", "Null", "!!null ~", "NULL", "'~'", "!u ~", "!!null ''", "!!str ~", "nUll", "&n", "!!str", "!!null"]
BOOLS = ["true", "false", "True", "FALSE", "'true'", "!!bool true", "yes", "!!str true", "!u false", "tRue", "1", "!!bool 1"]
FLOATS = ["1.5", "-0.25", "1e3", ".5", "3.", ".inf", "-.INF", ".nan", "0", "-0", "-0.0", "12", "-7", "0x1f", "1e400", "'1.5'", "!!float 1", "!!float 1.5", "!!int 1", "9223372036854775808", "123456", "0.1", "!!float x", "9223372036854775807", "1e-400", "1_0", "16777217", "3.4e38", "3.5e38", "1e-46"]
CHARS = ["a", "'1'", "\u00e9", "'\U0001f600'", "ab", "''", "1", "'~'", "~", '"\\n"', "\"\\u00e9\"", "\"e\\u0301\"", "!!str 1", "!!str 12"]
ANYS = NULLS[:5] + BOOLS[:4] + FLOATS[:8] + STR[:6] + ["[]", "{}", "[a, 1]", "{a: [1], 1: ~}", "*z", "!!int x", "!!bool maybe", "!u [a]", "{? [a] : b}", "[[], {}]"]
def leaf(rng, k):
    if rng.random() < 0.05: return rng.choice(ANYS)
    if k in RANGE: return int_text(rng, k)
    return rng.choice({"bool": BOOLS, "f64": FLOATS, "f32": FLOATS, "char": CHARS, "string": STR, "unit": NULLS, "any": ANYS, "ignored": ANYS}[k])
def name(rng, b):
    n = bytes(b).decode()
    return rng.choice([n] * 9 + [f"'{n}'", f'"{n}"', f"!!str {n}", f"!u {n}", f"&k {n}", n + "x"])

def node(rng, s, slip=0.03):
    """a node for the shape: a scalar text, ["seq", nodes] or ["map", pairs]"""
    if rng.random() < slip:                                    # something else altogether
        return rng.choice([rng.choice(ANYS), ["seq", []], ["map", []], ["seq", ["1", "a"]], ["map", [["a", "1"]]]])
    def fix(shs):
        v = [node(rng, x, slip) for x in shs]
        r = rng.random()
        if r < 0.04 and v: v.pop()
        elif r < 0.08: v.append(rng.choice(["1", "a", "~"]))
        return ["seq", v]
    def rec(fs):
        fs = [f for f in fs if not (rng.random() < (0.3 if f[1][0] == "opt" else 0.03))]
        if rng.random() < 0.4: rng.shuffle(fs)
        v = [[name(rng, f[0]), node(rng, f[1], slip)] for f in fs]
        if rng.random() < 0.15: v.insert(rng.randint(0, len(v)), [rng.choice(["zz", "a", "b", "1", "~", "[q]", "!!str 2", "*k"]), node(rng, ["any"], slip) if rng.random() < .6 else node(rng, shape(rng, 2), 0)])
        if v and rng.random() < 0.05: v.append(rng.choice(v))
        return ["map", v]
    k = s[0]
    if k == "opt": return rng.choice(NULLS) if rng.random() < 0.35 else node(rng, s[1], slip)
    if k == "new": return node(rng, s[1], slip)
    if k == "seq": return ["seq", [node(rng, s[1], slip) for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
    if k == "map": return ["map", [[node(rng, s[1], slip), node(rng, s[2], slip)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]]
    if k in ("tup", "tups"): return fix(s[1])
    if k == "struct": return fix([f[1] for f in s[1]]) if rng.random() < 0.12 else rec(s[1])
    if k == "enum":
        v = rng.choice(s[1])
        n = name(rng, v[0])
        if v[1][0] == "unit": return n if rng.random() < 0.6 else ["map", [[n, rng.choice(NULLS)]]]
        if rng.random() < 0.04: return n
        p = fix(v[1][1]) if v[1][0] == "tup" else rec(v[1][1]) if v[1][0] == "struct" else node(rng, v[1][1], slip)
        m = [[n, p]]
        if rng.random() < 0.05: m.append(rng.choice([["b", "1"], m[0]]))
        return ["map", m]
    return leaf(rng, k)

def flow(rng, n):
    if isinstance(n, str): return n if n else "~"
    p = rng.choice([""] * 12 + ["!u ", "&s ", "!!map ", "!!seq "])
    c = rng.choice([", ", ", ", ",", " ,\n "])
    if n[0] == "seq": return p + "[" + c.join(flow(rng, x) for x in n[1]) + "]"
    return p + "{" + c.join((f"? {flow(rng, k)} : {flow(rng, v)}" if not isinstance(k, str) or rng.random() < .1 else f"{flow(rng, k)}: {flow(rng, v)}") for k, v in n[1]) + "}"
def block(rng, n, ind, first):
    """lines of the node; `first`: it may begin on the line of its indicator"""
    if isinstance(n, str) or not n[1] or rng.random() < 0.2:
        t = n if isinstance(n, str) else flow(rng, n)
        if t == "a" and rng.random() < .2: return rng.choice([" |-\n", " >-\n"]) + " " * (ind + 1) + "a\n"
        return " " + t.replace("\n", " ") + rng.choice(["\n", "\n", "\n", " # c\n"])
    compact = first and rng.random() < 0.5
    pad = " " * ind
    p = "" if compact else rng.choice([""] * 9 + [" !u", " &s", " # c"])
    out = []
    for j, x in enumerate(n[1]):
        lead = ("" if compact and j == 0 else pad)
        if n[0] == "seq": out.append(lead + "-" + block(rng, x, ind + 2, True))
        else:
            k, v = x
            if isinstance(k, str) and k and rng.random() < 0.9: out.append(lead + k + ":" + block(rng, v, ind + 2, False))
            else: out.append(lead + "?" + block(rng, k, ind + 2, True) + pad + ":" + block(rng, v, ind + 2, True))
    return (" " if compact else p + "\n") + "".join(out)
def text(rng, n):
    pre = rng.choice(["", "", "", "---", "---", "# c\n---", "%YAML 1.2\n---"])
    post = rng.choice([""] * 8 + ["...\n", "---\nb\n", "--- [\n", "]\n", "}\n", "@\n", "x: y: z\n"])
    if rng.random() < 0.45: return pre + (" " if pre else "") + flow(rng, n) + rng.choice(["\n", ""]) + post
    return pre + block(rng, n, 0, not pre) + post if pre else block(rng, n, 0, False)[1:] + post

DERIVED = [["struct", [[B("a"), ["i32"]], [B("b"), ["string"]]]], None, ["new", ["i32"]], ["tups", [["i32"], ["string"]]], None]
def derived(n):
    """the shape of a derived type of the harness, shallow"""
    P = ["struct", [[B("a"), ["i32"]], [B("b"), ["string"]]]]
    def Q(d): return ["struct", [[B("a"), ["opt", Q(d - 1) if d else ["unit"]]], [B("b"), ["seq", ["i32"]]], [B("c"), ["opt", P]]]]
    def E(d): return ["enum", [[B("A"), ["unit"]], [B("B"), ["new", ["i32"]]], [B("C"), ["tup", [["i32"], ["string"]]]], [B("D"), ["struct", [[B("a"), ["i32"]], [B("b"), ["opt", ["string"]]]]]],
                               [B("F"), ["new", ["seq", E(d - 1) if d else ["unit"]]]], [B("G"), ["new", ["opt", ["i32"]]]]]]
    N, T2, i = ["new", ["i32"]], ["tups", [["i32"], ["string"]]], ["i32"]
    return [P, Q(2), N, T2, E(2), ["seq", P], ["seq", E(1)], ["seq", ["opt", i]], ["opt", ["seq", i]], ["tup", [i, ["string"]]], ["tup", [i, i]], ["seq", ["tup", [i, i]]], ["seq", ["tup", [["opt", i], E(1)]]],
            ["opt", Q(1)], ["seq", ["seq", i]], ["seq", Q(1)], ["tup", [P, P]], ["seq", N], ["opt", ["unit"]], ["seq", ["bool"]], ["seq", ["f64"]], ["seq", T2]][n]

ATOMS = ["1", "a", "~", "", "true", "1.5", "'1'", "[]", "{}", "[1]", "[1, 2]", "[1, a]", "[a, b]", "[~]", "[[]]", "[1", "{a: 1}", "{a: 1, b: a}", "{a: ~}", "{a: [1]}", "{A: ~}", "{B: 1}", "{a: 1, a: 2}", "{1: a}", "{a: {a: 1}}",
         "A", "'A'", "{A: 1, B: 1}", "- 1\n- a\n", "a: 1\nb: c\n", "- - 1\n- - 2\n", "- a: 1\n", "a:\n  - 1\n", "&x [1, *x]", "[&x 1, *x]", "{*x : 1}", "- &x 1\n- *x\n", "!!int 1", "!!str 1", "!!int x", "", "# c\n", "---\n---\n", "...\n", "--- 1\n--- 2\n",
         "1\n--- [\n", "[1]]", "{}}", "300", "-1", "0x10", "+1", "-0", "\u00e9", "|\n 1\n", "- 1\n-", "? a\n", "{a: 1", "a: [", "\"a", "&x", "!t", "*x", "{[]: 1}", "{? a}", "[a: 1]", "[? a : 1, b]"]
def simple_shapes():
    l = [[k] for k in LEAVES]
    out = list(l)
    for x in (["i32"], ["string"], ["unit"], ["any"], ["ignored"], ["opt", ["i32"]]):
        out += [["opt", x], ["new", x], ["seq", x], ["map", ["string"], x], ["map", x, ["any"]], ["tup", [x]], ["tup", [x, x]], ["tups", [x, ["any"]]], ["struct", [[B("a"), x]]], ["struct", [[B("a"), x], [B("b"), ["opt", ["string"]]]]],
                ["struct", [[B("b"), ["any"]], [B("a"), x]]], ["enum", [[B("A"), ["unit"]], [B("B"), ["new", x]]]], ["enum", [[B("a"), ["new", ["seq", x]]]]], ["enum", [[B("a"), ["new", x]], [B("b"), ["unit"]]]], ["enum", [[B("a"), ["tup", [x]]], [B("A"), ["struct", [[B("a"), x]]]]]],
                ["seq", ["seq", x]], ["seq", ["tup", [x]]], ["seq", ["struct", [[B("a"), x]]]], ["opt", ["seq", x]], ["opt", ["opt", x]], ["struct", [[B("a"), ["seq", x]]]], ["map", ["any"], ["seq", x]], ["tup", []], ["struct", []], ["opt", ["struct", [[B("a"), x]]]]]
    seen, res = set(), []
    for s in out:
        if str(s) not in seen: seen.add(str(s)); res.append(s)
    return res
def all_small(s, rng):
    """every small text with every small shape, alone and inside a sequence of it"""
    for a in ATOMS:
        for sh in simple_shapes(): yield {"i": B(a), "s": sh}
    for a in ATOMS:
        for c in ATOMS:
            if "\n" in a + c or "#" in a + c: continue
            for sh in rng.sample(simple_shapes(), 3): yield {"i": B(f"[{a}, {c}]"), "s": rng.choice([["seq", sh], ["tup", [sh, sh]], ["struct", [[B("a"), sh], [B("b"), sh]]], ["tup", [sh, ["any"]]]])}
            for sh in rng.sample(simple_shapes(), 3): yield {"i": B(f"a: {a}\nb: {c}\n"), "s": rng.choice([["map", ["string"], sh], ["struct", [[B("a"), sh], [B("b"), ["any"]]]], ["struct", [[B("b"), sh]]], ["struct", [[B("a"), ["opt", sh]], [B("c"), ["opt", sh]]]]])}
    for a in ATOMS:
        for n in range(22): yield {"i": B(a), "n": n}
def ints(s, rng):
    """integer texts at the bounds of every integer type"""
    for k in INTS:
        lo, hi = RANGE[k]
        for v in {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 1, -1, 127, 128, 255, 256, 32767, 32768, -32769, 65535, 65536, 2**31, -2**31 - 1, 2**32, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**127 - 1, 2**128}:
            a = abs(v)
            for t in {str(v), f"{v:+d}", ("-" if v < 0 else "") + "000" + str(a), hex(a), "0o%o" % a, "-" + hex(a), "+" + hex(a), "0x00%X" % a, f"{v}.0", f"{v}e0"}:
                for u in (t, f"'{t}'", f"!!int {t}", f"!!str {t}", f"!u {t}", f"|-\n {t}", f"!!int '{t}'", f"!!float {t}"): yield {"i": B(u), "s": [k]}
def conforming(s, rng):
    for _ in range(40):
        sh = shape(rng, rng.randint(0, 4))
        t = text(rng, node(rng, sh, rng.choice([0, 0, 0.03, 0.1])))
        if rng.random() < 0.12: t = I.mutate(rng, t)
        if rng.random() < 0.08: sh = shape(rng, rng.randint(0, 3))
        yield {"i": B(t), "s": sh}
def derived_types(s, rng):
    for _ in range(40):
        n = rng.randrange(22)
        t = text(rng, node(rng, derived(n), rng.choice([0, 0, 0.03])))
        if rng.random() < 0.1: t = I.mutate(rng, t)
        yield {"i": B(t), "n": n}
def any_text(s, rng):
    """texts of the general families read as anything"""
    return [{"i": B(s), "s": rng.choice([["any"], ["ignored"], ["map", ["any"], ["any"]], ["seq", ["any"]], ["opt", ["any"]], ["map", ["string"], ["any"]], ["string"], ["struct", [[B("a"), ["any"]]]], ["map", ["any"], ["ignored"]]])}]

# ---------------------------------------------------- values to serialize
WRITE = ["a", "b", "word", " ", " ", " ", "  ", "\n", "\t", "\r", "\r\n", '"', "'", "\\", "\\n", ":", ": ", "#", " #", "-", "- ", "--- ", "...", ". ", ",", "[", "]", "{", "}", "&", "*", "!", "|", ">", "%", "@", "`", "?", "\u00e9", "e\u0301", "\u00a0",
         "\u0085", "\u2028", "\u2029", "\ufeff", "\ufffe", "\uffff", "\U0001f600", "\U0001f468\u200d\U0001f469", "\x00", "\x01", "\x07", "\x08", "\x0b", "\x0c", "\x1b", "\x1f", "\x7f", "\x80", "\x9f", "\u200b", "\u3000", "\u1680", "0", "1", "~", "null", "true", "/", "\ue000", "\U0010ffff", "\u00ad"]
FMTS = [[1, 80, 10, "  "], [0, 80, 0, ""], [2, 80, 0, ""], [1, 0, 10, "  "], [1, 1, 0, "\t"], [1, 2, 10, "    "], [1, 5, 10, ""], [1, 10, 3, " "], [1, 20, 10, "  "], [1, -1, -1, "  "], [0, 3, 0, ""], [0, 0, 5, "\t\t"]]
def vals(v, rng, n=1):
    for f in rng.sample(FMTS, n): yield {"v": v, "f": f, "any": 0}
    yield {"v": v, "f": FMTS[0], "any": 1}
    if rng.random() < 0.1: yield {"v": ["some", v], "f": rng.choice(FMTS), "any": rng.randint(0, 1)}
def written_small(s, rng):
    for f in FMTS:
        for v in (["bool", 0], ["bool", 1], ["some", ["bool", 1]]) + (((["unit"], ["none"]) if f[0] == 1 else ())):
            for a in (0, 1): yield {"v": v, "f": f, "any": a}
    for k in INTS:
        if k.endswith("128"): continue
        lo, hi = RANGE[k]
        for v in {lo, hi, lo + 1, hi - 1, 0, 1, -1 if lo else 2, 10, 99, 100, hi // 2, lo // 2, hi // 10, 7}: yield {"v": [k, str(v)], "f": rng.choice(FMTS), "any": 1 if v < 2**63 and rng.random() < .5 else 0}
    for c in list(range(0, 0x250)) + list(range(0x2000, 0x2070)) + [0x300, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xf8ff, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffe, 0x1f600, 0x10fffe, 0x10ffff, 0x3000, 0x1680, 0x180e, 0xfff9]:
        ch = chr(c)
        for f in (FMTS[0], FMTS[1], FMTS[3]):
            yield {"v": ["char", B(ch)], "f": f, "any": 0}
            for t in (ch, "a" + ch, ch + "a", "a " + ch + " b", ch + ch, " " + ch, ch + " "): yield {"v": ["str", B(t)], "f": f, "any": 0}
    for w in I.words(["a", " ", "\n", "-", ".", '"', "\\", "\t", "\u00e9", "#"], 0, 4):
        yield {"v": ["str", B(w)], "f": FMTS[3], "any": 0}
        yield {"v": ["str", B("a b" + w + "c d")], "f": rng.choice(FMTS), "any": 0}
    for n in (0, 1, 2, 5, 10, 78, 79, 80, 81, 82, 160, 500):
        for p in ("a", " ", "a ", "ab  ", "- ", "--- ", "\u00e9 ", "\\ ", "\n", "a\n ", "x. ", "\t", "' "):
            for f in FMTS: yield {"v": ["str", B((p * n)[:n])], "f": f, "any": 0}
def written(s, rng):
    import struct
    for _ in range(12):
        al = rng.choice([WRITE, WRITE, WRITE[:6], [" ", "a", "-", ".", "---", "word", "b"], [" ", "a"], [" ", "a", "\\", '"', "\n", "\t"]])
        t = "".join(rng.choice(al) for _ in range(rng.choice([3, 8, 20, 60, 120])))
        yield from vals(["str", B(t)], rng, 2)
    for _ in range(20):
        k = rng.choice([x for x in INTS if not x.endswith("128")]); lo, hi = RANGE[k]
        v = rng.randint(lo, hi) >> rng.randint(0, 60)
        yield {"v": [k, str(v)], "f": rng.choice(FMTS), "any": 1 if abs(v) < 2**63 and rng.random() < .3 else 0}
    for _ in range(20):
        r = rng.random()
        if r < 0.3: b = rng.getrandbits(64)
        elif r < 0.5: b = struct.unpack("<Q", struct.pack("<d", rng.choice([1, -1]) * rng.randint(0, 10**rng.randint(1, 20)) / 10**rng.randint(0, 20)))[0]
        elif r < 0.6: b = struct.unpack("<Q", struct.pack("<d", float(rng.randint(-2**rng.randint(1, 70), 2**rng.randint(1, 70)))))[0]
        elif r < 0.75: b = rng.choice([0, 1 << 63, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7fefffffffffffff, 0x0010000000000000, 0x000fffffffffffff, 0x3ff0000000000000, 0x4340000000000000, 0x4340000000000001])
        else: b = struct.unpack("<Q", struct.pack("<d", rng.choice([1, -1]) * 10.0**rng.randint(-320, 308)))[0]
        yield {"v": ["f64", str(b)], "f": rng.choice(FMTS), "any": 0}
        b = rng.choice([rng.getrandbits(32), struct.unpack("<I", struct.pack("<f", rng.randint(-10**6, 10**6) / 10**rng.randint(0, 6)))[0], 0, 1 << 31, 1, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f7fffff, 0x00800000])
        yield {"v": ["f32", str(b)], "f": rng.choice(FMTS), "any": 0}
def written_long(s, rng):
    """strings of every length around limits, without and with places to break"""
    for n in [1, 2, 3, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 39, 40, 41, 63, 64, 65, 77, 78, 79, 80, 81, 82, 83, 100, 119, 120, 121, 127, 128, 129, 159, 160, 161, 240, 255, 256, 257, 400, 511, 512, 513, 1023, 1024, 1025, 1100, 2048, 4096, 4097]:
        for t in ("a" * n, "\u00e9" * (n // 2), "a" * n + " b", "a " * (n // 2 if n < 260 else 5) + "b", " " * n, "a" + " " * n + "b", "a\n" * (n // 2 if n < 260 else 5), "\n" * (n if n < 300 else 3) + "a", '"' * (n if n < 260 else 9), "'" * (n if n < 260 else 9), "\\" * (n if n < 260 else 9), "a" * n + "\n", "a" * n + ": b", "word " * (n // 5 if n < 600 else 5), "- " + "a" * n, "a" * n + " #b",
                  "ab\tc " * (n // 6 if n < 600 else 7), "\U0001f600 " * (n // 5 if n < 600 else 7), "a" * (n // 2) + " " + "b" * (n - n // 2), "a" * n + "\t", "\x01" * (n if n < 260 else 9)):
            for f in rng.sample(FMTS, 2): yield {"v": ["str", B(t)], "f": f, "any": rng.randint(0, 1)}
