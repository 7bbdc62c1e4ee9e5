"""Input texts that drive the real parser.  They only choose what is tried: every verdict is
the specification's.  Each family is a function (rng, scale) -> iterable of str; scale is 1 for
quick and larger for thorough runs.  Families enumerate small alphabets exhaustively, add
boundary sizes and then random members."""
import itertools, json, os
HERE = os.path.dirname(os.path.abspath(__file__))

def words(alpha, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(alpha, repeat=n): yield "".join(t)
def rnd(rng, alpha, n, lo, hi):
    for _ in range(n): yield "".join(rng.choice(alpha) for _ in range(rng.randint(lo, hi)))
def spread(bodies, ctxs, every):
    """each body in `every` of the contexts, rotating through all of them"""
    n = len(ctxs)
    for j, b in enumerate(bodies):
        for m in range(min(every, n)):
            p, s = ctxs[(j * 7 + m * 3 + j // n) % n]
            yield p + b + s
def mixw(rng, alpha, n, k):
    """words of length k over alpha: all of them if there are at most n, else n random ones"""
    if len(alpha) ** k <= n: yield from words(alpha, k, k)
    else: yield from rnd(rng, alpha, n, k, k)

SIZES = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 119, 120, 121, 124, 125, 126, 127, 128, 129,
         130, 133, 190, 252, 253, 254, 255, 256, 257, 258, 381, 382, 511, 512, 513, 600]
KEYSIZES = [1000, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 1030, 1100, 2050]
ASCII = [chr(c) for c in range(0, 128)]
PRINT = [chr(c) for c in range(32, 127)]
UNI = ["\x80", "\x85", "\u00a0", "\u00e9", "\u07ff", "\u0800", "\u2028", "\u2029", "\ufeff", "\ufffd", "\uffff",
       "\U00010000", "\U0001f600", "\U0010ffff"]

BLOCK_CTX = [("", ""), ("- ", "\n"), ("k: ", "\n"), ("? ", "\n"), ("- - ", "\n- z\n"), ("k:\n  ", "\nz: y\n"),
             ("--- ", "\n...\n"), ("a:\n - ", "\n"), ("- k: ", "\n  l: m\n"), ("&x ", "\n"), ("!t ", "\n")]
FLOW_CTX = [("[", "]"), ("[a, ", "]\n"), ("{", "}"), ("{k: ", "}"), ("{k: ", ", l: m}\n"), ("[k: ", ", z]"),
            ("{? ", " : v}"), ("- [", "]\n- z\n"), ("k: {", "}\n"), ("[[", "], z]"), ("[\n ", "\n]\n")]
KEY_CTX = [("", ": v\n"), ("- ", ": v\n"), ("{", ": v}"), ("[", ": v]"), ("a: b\n", ": v\n"), ("", " : v\n"),
           ("{", " : v}"), ("? ", "\n: v\n")]
ALL_CTX = BLOCK_CTX + FLOW_CTX + KEY_CTX

def suite():
    with open(os.path.join(HERE, "..", "corpus", "suite.jsonl")) as f:
        return [json.loads(l) for l in f]

def one(rng, sc): return [""]
def hundred(rng, sc): return [str(j) for j in range(700 * sc)]
def api_texts(rng, sc):
    """short streams around document boundaries, anchors and errors"""
    return ["", "a", "a\n", "---", "---\n", "--- a\n", "a\n---\nb\n", "---\n---\n", "# c\n", "...\n", "a\n...\n", "a\n...\nb",
            "- a\n- b\n", "k: v\n", "&a a", "- &a a\n- *a\n", "--- &a a\n--- *a\n", "- &a x\n- &a y\n- &b z\n- *a\n---\n- &a q\n", "a: [", "a: ]", "%YAML 1.2\n---\na\n", "*x", "--- a\n--- [\n",
            "[a: b, {c}]", "!t a", "%TAG !e! tag:\n--- !e!x a\n--- !e!x b\n", "- - a\n", "? a\n: b\n", "a\nb: c\n", "- a\nb\n", "\"a", "--- |\n a\n---\nb", "{a: &c d, *c : e}"]

# ------------------------------------------------------------------ scalars
def quoted(rng, sc):
    dq = ["a", " ", "\n", "\\n", "\\\n", "\\\\", '\\"', "\\x41", "\u00e9", "\t", "#", ": ", "'", "\\ ", "\n\n", "-"]
    sq = ["a", " ", "\n", "''", "\\", '"', "\u00e9", "\t", "#", ": ", "\n\n", "-", ","]
    for q, al in (('"', dq), ("'", sq)):
        yield from spread((q + w + q for w in words(al, 0, 2)), ALL_CTX, 30)
        yield from spread((q + w + q for w in words(al, 3, 3)), ALL_CTX, 3)
        yield from spread((q + w + q for w in mixw(rng, al, 12000 * sc, 4)), ALL_CTX, 1)
        yield from spread((q + w + q for w in rnd(rng, al, 12000 * sc, 5, 12)), ALL_CTX, 1)
    sep = ["\n", "\n\n", "\n\n\n", " \n", "\t\n", "\n ", "\n\t", "\n  \n", "\\\n", "\\\n ", "\\\n\n", " \\\n", "\r\n", "\r",
           "\n---\n", "\n--- ", "\n...\n", "\n ---\n", "\n---a", "\n....", "\n--", "\n\ta", "\n  ", "\n    ", "\r\n\r\n", "\n\r", "\r\r", "\r\n\n"]
    for q in "\"'":
        for a in sep:
            for ctx in ALL_CTX:
                yield ctx[0] + q + "a" + a + "b" + q + ctx[1]
                yield ctx[0] + q + a + "b" + a + q + ctx[1]
def escapes(rng, sc):
    for c in ASCII: yield f'"\\{c}"'; yield f'"a\\{c}b"'; yield f'[ "\\{c}0041" ]'
    for c in range(256): yield f'"\\x{c:02x}"'; yield f'- "\\x{c:02X}z"'
    us = [0, 1, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000,
          0xfeff, 0xfffd, 0xfffe, 0xffff]
    for c in us: yield f'"\\u{c:04x}"'; yield f'"\\u{c:04X}9"'; yield f'"\\U{c:08x}"'; yield f'"\\U{c:08X}"'; yield f'"\\u{c:04x}\\u{c:04x}"'
    for c in [0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x200000, 0xffffff, 0x1000000, 0x1000041, 0x7fffffff, 0x80000000,
              0xffffffff, 0x41000000, 0xd8000041]: yield f'"\\U{c:08x}"'; yield f'"\\U{c:08X}z"'
    for e in "xuU":
        for n in range(0, 10):
            for d in ("41414141ab", "g", "4g", "414g", "41414141g", '"', " 1", "-1", "+1", "0041\u00e9", "4\n1"):
                yield f'"\\{e}{(d * 3)[:n]}"'; yield f'"\\{e}{(d * 3)[:n]}'
    for _ in range(2000 * sc):
        s = ""
        for _ in range(rng.randint(1, 4)):
            k = rng.choice("xuU")
            n = {"x": 2, "u": 4, "U": 8}[k]
            v = rng.choice([rng.randrange(256), rng.randrange(0x10000), rng.randrange(0x110000), rng.randrange(0x120000)])
            s += f"\\{k}{v:0{n}x}"[:n + 2] + rng.choice(["", " ", "a", "\n", "\\n"])
        yield f'"{s}"'
    for u in UNI:
        for f in ('"%s"', "'%s'", "%s", "- %s", "a%sb", "[%s]", "%s: %s", "{%s: a}", "|\n %s\n", ">\n %s\n  %s\n", "# %s\nb", "&%s a", "[&%s a, *%s]", "!%s a",
                  '"\n%s\n"', '"\\%s"', "k: %s # c\n", '"a %s b"', "a\n%s\nb", " %s", "%s\n...\n", "--- %s"):
            yield f.replace("%s", u)
def plain(rng, sc):
    al = ["a", " ", "\n", "\n ", "\t", ":", "#", "-", "?", ",", "]", "\u00e9", ": ", " #", "\n\n", "---", "...", "&", "*", "!", "'", '"', "{", "%", "|", "1"]
    yield from spread(words(al, 1, 2), ALL_CTX, 30)
    yield from spread(("a" + w for w in words(al, 2, 2)), ALL_CTX, 10)
    yield from spread(("a" + w for w in mixw(rng, al, 18000, 3)), ALL_CTX, 1)
    yield from spread(rnd(rng, al, 20000 * sc, 3, 10), ALL_CTX, 1)
    for c in ASCII:
        for f in ("%s", "%sa", "a%s", "a%sb", "- %sa", "[%sa]", "[a%s]", "{%sa: b}", "k: a%s", "[a %sb]", "a %sb", "a\n%sb", "a\n %s", "{a%s: %sb}", "%s: %s", "a: %s", "- %s\n- a", "%s #", "k:%s"):
            yield f.replace("%s", c)
    for c in PRINT:
        for d in PRINT:
            yield f"{c}{d}"; yield f"[x{c}{d}y]"
            if not (c.isalnum() and d.isalnum()): yield f"x{c}{d}y: z"; yield f"[{c}{d}]"
def sizes_scalars(rng, sc):
    """flow scalars of every size around internal limits"""
    for n in SIZES:
        a = "a" * n
        mb = ("\u00e9" * n)
        k = n if n <= 66 or n in (128, 256, 257) else 5    # counts of line breaks
        for body in (a, mb, a + " b", a + "\n b", a + ": b", a + " #c", a + ":b", a + "#b", "x" + " " * n + "y", "x\n" + " " * n + "y",
                     "x" + "\n" * k + "y", '"' + a + '"', "'" + a + "'", '"' + a + "\\n" + a + '"', "'" + a + "''" + a + "'",
                     '"' + a + "\n" + " " * n + "b\"", '"' + mb + '\\x41"', a + ", b", a + "] ", a + "\n---\nb", a + "\n...\n", "ab " * (n // 3) + "c"):
            yield body
            yield "[" + body + "]"
            yield "k: " + body + "\nz: y\n"
            yield "- " + body + "\n"
def sizes_blocks(rng, sc):
    """block scalars: line lengths, indentation and blank-line counts"""
    for n in SIZES:
        a = "a" * n
        mb = ("\u00e9" * n)
        k = n if n <= 66 or n in (128, 256, 257) else 5
        for h in ("|", ">", "|-", ">+"):
            yield f"{h}\n{' ' * n}a\n{' ' * n}b\n"
            yield f"k: {h}\n{' ' * n}a\n{' ' * (n + 1)}b\n\n{' ' * n}c\nz: y\n"
            yield f"- {h}\n {a}\n {a}\n- z"
            yield f"{h}\n a\n" + "\n" * k + " b\n" + "\n" * k
            yield f"{h}\n" + "\n" * k + " b\n"
            yield f"{h}\n" + " " * n + "\n" + " " * n + "b\n"
            yield f"{h}\n a\n{' ' * n}\n"
            yield f"- {h} #{a}\n {a}"
            yield f"{h}1\n{' ' * n}a\n"
            yield f"{h}\n {mb}\n  {mb}\n {a}"
def sizes_layout(rng, sc):
    """indentation, comments, nesting depth and collection sizes"""
    for n in SIZES:
        a = "a" * n
        k = n if n <= 66 or n in (128, 256, 257) else 5
        yield " " * n + "a: b\n" + " " * n + "c: d\n"
        yield "a:\n" + " " * n + "b:\n" + " " * (2 * n) + "- c\n" + " " * n + "d: e\n"
        yield "-" + " " * n + "a: b\n" + " " * (n + 1) + "c: d\n- e\n"
        yield "- a:\n" + " " * n + "b\n"
        yield "a: b #" + a + "\nc: d"
        yield "#" + a + "\n" + "#\n" * k + "a"
        yield "a:\n" + "\n" * k + " b: c"
        if n <= 66 or n == 128:
            yield "- " * n + "a\n"; yield "[" * n + "]" * n; yield "{a: " * n + "b" + "}" * n
            yield "".join(" " * j + "a:\n" for j in range(n)) + " " * n + "b"
            yield "".join(" " * j + "-\n" for j in range(n)) + " " * n + "- b\nc"
            yield "".join(" " * j + "a:\n" for j in range(n)) + " " * (n // 2) + "b: c"
            yield "- [" + "a, " * n + "]\n- b"; yield "{" + "".join(f"k{j}: v, " for j in range(n)) + "}"
            yield "".join(f"k{j}: v\n" for j in range(n)); yield "? " * n + "a"
            yield "- - " * n + "a: b\n" + " " * (4 * n) + "c: d"
        if n <= 17:
            yield "[" * n + "a" + "]" * n; yield "[" * n + "a: b" + "]" * n; yield "[? " * n + "]" * n
        if n <= 66:
            yield "\n" * n + "a: 'b"; yield "\r\n" * n + "a: 'b"; yield "\r" * n + "a: ]"
def sizes_names(rng, sc):
    """anchor names, tags, directives and documents: lengths and counts"""
    for n in SIZES:
        a = "a" * n
        yield f"- &{a} x\n- *{a}\n- *{a}b\n"
        yield f"- &{a}b x\n- &{a} y\n- *{a}b\n"
        yield f"!{a} x"; yield f"!<{a}> x"; yield f"%TAG !{a}! {a}\n--- !{a}!{a} x"; yield f"%TAG !{a}! t\n--- !{a}b!c x"
        yield f"%{a} x\n--- y"; yield f"%YAML 1.2 #{a}\n--- y"
        if n <= 66 or n == 128:
            yield "".join(f"- &a{j} x\n" for j in range(n)) + f"- *a{n - 1}\n- *a0\n"
            yield "--- a\n" * n; yield "...\n" * n + "a"; yield "- x\n...\n" * n
            yield "".join(f"%TAG !t{j}! p{j}\n" for j in range(n)) + f"--- !t{n - 1}!x\n- !t0!y z"
def sizes_keys(rng, sc):
    """implicit keys around the 1024 limit"""
    for n in KEYSIZES:
        a = "a" * n
        for k in (a, '"' + "a" * (n - 2) + '"', "'" + "a" * (n - 2) + "'", "[" + "a" * (n - 2) + "]", "{" + "a" * (n - 2) + "}", "&" + "a" * (n - 3) + " a",
                  "!" + "a" * (n - 3) + " a", "[" + ("a" * 40 + ", ") * (n // 42) + "]", "\u00e9" * (n // 2), ("a" * 39 + " ") * (n // 40)):
            yield k + ": b\n"; yield "- " + k + ": b\n"; yield "x: y\n" + k + ": b\n"; yield "[" + k + ": b]"; yield "{" + k + ": b}"; yield "? " + k + "\n: b\n"
            yield k + " : b"; yield "{" + k + " :b}"; yield "- - " + k + ":\n    - c\n"
        yield "k: " + a + ": b"; yield "'a" + " " * n + "b': c"; yield "a" + " " * n + ": c";

# ------------------------------------------------------------- block scalars

def blocks(rng, sc):
    heads = [s + c for s in "|>" for c in ("", "-", "+", "1", "2", "3", "9", "1-", "-1", "+2", "2+", "2-", "-2", "4", "0", "10", "--", "+-", "1 ", "- #c", "#c", " #c", " \t#c", "x", " x", "\t", "-\t", "22", "1-1", "\t#c")]
    ctx = [("", ""), ("", "z: y\n"), ("- ", "- z\n"), ("- ", ""), ("k: ", "z: y\n"), ("k:\n  ", "z: y\n"), ("- - ", "- z\n"), ("- k: ", "  l: m\n"), ("--- ", "...\n"), ("--- ", "--- a\n"), ("? ", ": v\n"),
           ("a:\n - ", " - b\n"), (" k: ", " z: y\n"), ("a:\n  b: ", "  c: d\n"), ("&x ", ""), ("!t ", "---\n"), ("- - - ", "- z\n"), ("? - ", ""), ("--- &x\n", ""), ("[", "]"), ("a: b\n", "")]
    line = ["", " ", "a", " a", "  a", "   a", "    a", "      a", "\t", " \ta", "\ta", "# c", "  # c", "- a", "  k: v", "---", "...", "  ", "   ", "    ", " ---", "a ", "  a\t", "   \u00e9", "...x"]
    for h in heads:
        for c in ctx:
            yield c[0] + h + "\n  a\n   b\n\n  c\n\n" + c[1]; yield c[0] + h + "\n" + c[1]; yield c[0] + h; yield c[0] + h + "\n    a"; yield c[0] + h + "\n a\n" + c[1]
            yield c[0] + h + "\n  a\n  \n" + c[1]; yield c[0] + h + "\n    a\n  b\n" + c[1]
    good = heads[:12] + heads[16:28]
    for h in ("|", ">", "|-", ">+", "|2", ">1+"):
        for a in line:
            for b in line:
                yield h + "\n" + a + "\n" + b + "\n"; yield "- " + h + "\n" + a + "\n" + b
                yield "k: " + h + "\n" + a + "\n" + b + "\nz: y\n"
    for j in range(28000 * sc):
        h = rng.choice(good); c = rng.choice(ctx); ind = rng.choice(["", "", "", "  ", "    "])
        ls = [rng.choice(["", ind]) + rng.choice(line) if rng.random() < 0.8 else "" for _ in range(rng.randint(1, 7))]
        nl = rng.choice(["\n", "\n", "\n", "\n", "\r\n", "\r"])
        yield (c[0] + h + "\n" + "\n".join(ls) + rng.choice(["\n", "\n", "", "\n\n", "\n\n\n"]) + rng.choice([c[1], c[1], ""])).replace("\n", nl)
    for j in range(12000 * sc):     # mostly well formed folding
        h = rng.choice(["|", ">", ">", ">-", ">+", "|+", "|-", ">2", "|1+"]); pre, base, post = rng.choice([("", 1, ""), ("", 0, ""), ("- ", 2, "- z\n"), ("k: ", 2, "z: y\n"), ("- - ", 4, "- z\n"), ("a:\n  b: ", 4, "  c: d\n")])
        ind = base + rng.choice([0, 0, 1, 2]); ls = []
        for _ in range(rng.randint(1, 8)):
            r = rng.random()
            ls.append("" if r < .25 else " " * rng.randint(0, ind) if r < .35 else " " * ind + rng.choice(["a", "b c", "\td", " e", "  f", "- g", "# h", "k: v", "\u00e9 ", " "]))
        yield pre + h + "\n" + "\n".join(ls) + rng.choice(["\n", "\n", "", "\n\n"]) + post

# -------------------------------------------------------- block collections
LINE = ["- ", "- a", "a:", "a: b", "- a: b", "? a", ": b", "b", "- - c", "-", "?", ":", "? - a", "- ? a", "a: - b", "- -", "# c", "a: |", "&x", "!t", "&x a: b", "- &x", "? a: b", ": - c", ": c: d", '"k": v', "[a]: b", "- [a", "]", "{a: b}", "a: b: c", "a:  # c", "-  # c", "*x", "*x : b", "- - - d", "'q", "? |", ": |", "- |", "a: >-", "- !t", "a: &x", "a: !t", "a : b", "- :", ": :", "? ?", "- - a: b", "a: 'b'", "-\ta", "a:\tb", "?\ta", "-\t- a", "\ta", " \ta: b", "- # c", "-a", "--- a", "..."]
def indent(rng, sc):
    core = ["- ", "- a", "a:", "a: b", "? a", ": b", "b", "-", "- a: b", "?", ":", "- - c", "&x", "# c", "- ? a"]
    for k in (1, 2):
        for ls in itertools.product(core, repeat=k):
            for ins in itertools.product(range(0, 5), repeat=k):
                yield "\n".join(" " * i + l for i, l in zip(ins, ls)) + "\n"
    for _ in range(42000 * sc):
        k = rng.randint(3, 7); al = rng.choice([core, core, LINE]); w = rng.choice([[0, 1, 2, 3, 4], [0, 2, 4], [0, 0, 2], [0, 1], [2, 2, 4, 3]])
        s = "\n".join(" " * rng.choice(w) + rng.choice(al) for _ in range(k))
        yield s + rng.choice(["\n", "\n", ""])
    for _ in range(32000 * sc): yield tree(rng, rng.randint(2, 9))
    for l in LINE:
        for m in LINE: yield l + "\n" + m + "\n"; yield "x:\n  " + l + "\n  " + m + "\n"; yield "- " + l + "\n  " + m + "\nz"
def tree(rng, n):
    """a mostly well-formed block document"""
    out = []
    def leaf(): return rng.choice(["a", "b", "c d", '"q"', "'s'", "[a, b]", "{a: b}", "1", "", "&x e", "!t f", "*x" if rng.random() < .3 else "g", "[]", "{}", "# c", "&y", "!!str"])
    def node(ind, n, inl):
        # writes the node after the current line content; ind = minimal indentation of a new line
        r = rng.random()
        if n <= 0 or r < .2:
            if r < .06: 
                out.append(rng.choice(["|", ">", "|-", ">+"]) + "\n" + " " * ind + "text\n" + (" " * ind + " more\n" if r < .03 else "")); return
            out.append(leaf() + rng.choice(["\n", "\n", " # c\n", "\n\n"])); return
        w = rng.choice([0, 1, 1, 2, 2, 3]) if not inl else 0
        col = ind + w
        seq = rng.random() < .5
        cnt = rng.randint(1, 3)
        compact = inl and rng.random() < .7
        if not compact and inl is not None: out.append(rng.choice(["", "&z", "!m", "# c"]) + "\n")
        for j in range(cnt):
            if not (compact and j == 0): out.append(" " * col)
            if rng.random() < .04: col2 = max(0, col + rng.choice([-1, 1]))  # slip
            else: col2 = col
            if col2 != col and out[-1].strip() == "": out[-1] = " " * col2
            if seq:
                out.append("-" + " " * rng.choice([1, 1, 1, 2, 3])); sp = len(out[-1])
                node(col + sp, n - 1 - j, True)
            elif rng.random() < .2:
                out.append("? "); node(col + 2, n - 2, True)
                if rng.random() < .8: out.append(" " * col + ": "); node(col + 2, n - 2, True)
            else:
                out.append(rng.choice(["k", "l", '"m"', "'n'", "[o]", "k 2", "&k p", "!k q", ""]) + rng.choice([":", ":", ": ", " : "]))
                if out[-1][-1] == ":" : out.append(" ")
                node(col + rng.choice([1, 1, 2, 0 if rng.random() < .3 else 1]), n - 1 - j, False if rng.random() < .6 else False)
    node(0, n, None)
    return "".join(out)

# ---------------------------------------------------------- flow collections
FLOW = ["[", "]", "{", "}", ",", ":", ": ", "? ", "a", "'b'", '"c"', "\n ", " ", "&x ", "!t ", "- ", "#c\n", "*x", "-", "?", "\n"]
def flow(rng, sc):
    small = ["[", "]", "{", "}", ",", ":", ": ", "? ", "a", "'b'", " ", "\n "]
    for o, c in (("[", "]"), ("{", "}")):
        for w in words(small, 0, 3):
            yield o + w + c; yield "k: " + o + w + c + "\nz: y\n"; yield o + w
        for w in mixw(rng, small, 12000 * sc, 4): yield o + w + c
        for w in rnd(rng, FLOW, 10000 * sc, 4, 9): yield o + w + c
    for _ in range(36000 * sc): yield flowdoc(rng)
    for d in range(1, 5):
        for w in rnd(rng, FLOW, 2500 * sc, 1, 8): yield rng.choice(["- ", "k:\n  ", "", "? ", "--- ", "- - "]) + "[" * d + w + "]" * d + rng.choice(["", "\n", ": v\n", "\n- z", ", a"])
def flowdoc(rng):
    def ws(): return rng.choice(["", "", "", " ", "\n ", " # c\n ", "  ", "\n\n  "])
    def sc(): return rng.choice(["a", "b", "c d", '"q"', "'s'", "&x e", "!t f", "*x" if rng.random() < .2 else "g", "-1", "a:b", "http://x", "", "a#b", "!!str", "&x", "\u00e9", "? g", "-", ":x", "::", "'a\n b'", "a\n  b"])
    def node(d):
        r = rng.random()
        if d <= 0 or r < .35: return sc()
        if r < .65: return "[" + ws() + items(d, False) + ws() + "]"
        return "{" + ws() + items(d, True) + ws() + "}"
    def items(d, m):
        its = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if m or r < .35:
                k = node(d - 1); v = node(d - 1)
                col = rng.choice([": ", ": ", ": ", ":", " : ", ":\n ", "\n : "])
                its.append(rng.choice(["", "", "", "? "]) + rng.choice([k, k, k, ""]) + (col + rng.choice([v, v, ""]) if rng.random() < .85 else ""))
            else: its.append(node(d - 1))
        s = (ws() + "," + ws()).join(its)
        return s + ("," if its and rng.random() < .2 else "")
    s = node(rng.randint(1, 4))
    if rng.random() < .12 and s: j = rng.randrange(len(s)); s = s[:j] + rng.choice(["", "]", ",", ":", "[", "}"]) + s[j + 1:]
    p, q = rng.choice([("", ""), ("- ", "\n- z\n"), ("k: ", "\nz: y\n"), ("--- ", "\n...\n"), ("", ": v\n"), ("- ", ": v\n"), ("? ", "\n: v"), ("k:\n  ", "\n"), ("&y ", "\n")])
    return p + s + q

# ------------------------------------------------- anchors, tags, documents
def anchors(rng, sc):
    names = ["x", "y", "xy", "x1", "\u00e9", "x:", "a-b", "&", "*", "x!", "-", "x#", "'x'", "?", ":", "x\u2028"]
    for n in names:
        for m in names: yield f"- &{n} a\n- &{m} b\n- *{n}\n- *{m}\n"; yield f"&{n} k: &{m} v\n*{n} : *{m} \n"; yield f"[&{n} a, *{m} ]"
        for f in ("&%s", "&%s a: b", "- &%s\n- *%s", "- &%s [a]\n- *%s", "- &%s {a: *%s }\n- *%s\n", "a: &%s\n  b: c\nd: *%s", "? &%s a\n: *%s\n", "- &%s\n  - a\n- *%s\n", "&%s\n- *%s", "{&%s a: *%s , *%s : b}", "- &%s !t a\n- *%s", "- !t &%s a\n- *%s", "--- &%s a\n--- *%s", "- &%s |\n a\n- *%s\n",
                  "- &%s 'a'\n- &%s \"b\"\n- *%s\n", "&%s a\n...\n- *%s", "[*%s , &%s a]", "- &%s a\n- b: *%s\n  c: &%s d\n- *%s", "*%s", "*%s : a", "- *%s a", "- &%s *%s", "- &%s &%s a", "- !t *%s", "&%s : a", "[&%s , *%s ]", "{&%s : *%s }", "- &%s\n- *%s", "- &%s # c\n  a\n- *%s # c", "&%s - a", "k: &%s - a", "&%s [*%s ]", "&%s\nk: *%s", "k: &%s\n- a\nl: *%s"):
            yield f.replace("%s", n)
    for c in PRINT:
        yield f"&a{c}b x"; yield f"[&a{c}b x, *a{c}b ]"; yield f"- &{c} x\n- *{c}\n"; yield f"*a{c}"; yield f"- &a x\n- *a{c}\n"; yield f"{{&a{c}: x}}"; yield f"- &a x\n- *a{c} b"; yield f"&a{c}: x"; yield f"- &a x\n- {{*a{c}: b}}"
    al = ["- &x a\n", "- &y b\n", "- *x\n", "- *y\n", "- &x [*x, &x c, *x]\n", "- &x {k: *x}\n", "- &x\n", "- {&x k: &y *x}\n", "--- \n", "...\n", "---\n", "- &x *y\n", "- [&x , *x]\n", "- ? &x k\n  : *x\n", "- *x : &x z\n", "- &x\n  - *x\n  - &x q\n", "- !t &y r\n"]
    yield from words(al, 1, 3)
    yield from rnd(rng, al, 12000 * sc, 4, 12)
    tok = ["&x ", "&y ", "*x ", "*y ", "a", "b", ": ", "- ", "\n", "\n- ", "[", "]", ", ", "{", "}", "\n--- ", "\n...\n", "!t ", "? ", "\n  ", "&x", "*x"]
    yield from rnd(rng, tok, 30000 * sc, 2, 10)
    for n in (3, 10, 64, 200):
        yield "".join(f"- &a{j} {j}\n- *a{j}\n" for j in range(n)); yield "".join(f"- &a x\n- *a\n" for j in range(n)); yield "".join(f"--- &a{j} x\n" for j in range(n)) + "- &z y\n- *z"
def tags(rng, sc):
    dirs = ["%TAG ! l:\n", "%TAG !! t:,2:\n", "%TAG !e! e:\n", "%TAG !f! f%41\n", "%YAML 1.2\n", "%FOO x\n", "%TAG !e! !m-\n", "%TAG ! !\n", "# c\n", "%TAG !ee! x#y # c\n"]
    uses = ["!a ", "!!b ", "!e!c ", "!f!d ", "!<v> ", "! ", "!<!v> ", "!!str ", "!ee!z ", "!%41b ", "!e!%C3%A9 ", ""]
    for k in (0, 1, 2):
        for d in itertools.product(dirs, repeat=k):
            for u in uses: yield "".join(d) + "--- " + u + "x\n"
    for u in uses:
        for v in uses:
            for f in ("- %u x\n- %v y\n", "%u\n- %v\n- z", "%u {a: %v [b]}", "%u k: %v v\n", "&x %u a\n", "%u &x a\n", "%u %v a\n", "[%u , %v a]", "{%u : %v }", "%u|\n a\n", "- %u\n- %v", "? %u a\n: %v b", "%u\nk: %v\n", "k: %u\n- a\n- %v b", "%u 'a'\n", "- %u # c\n  - %v\n"):
                yield f.replace("%u", u.strip()).replace("%v", v.strip()); yield "%TAG !e! e:\n%TAG !f! f:\n%TAG !ee! g\n---\n" + f.replace("%u", u.strip()).replace("%v", v.strip())
    for c in ASCII:
        for f in ("!%s x", "!a%sb x", "!!%s x", "!<%s> x", "!<a%sb> x", "!e%s!b x", "%TAG !%s! t\n--- !%s!b x", "%TAG !e! %s\n--- !e!b x", "%TAG !e! a%sb\n--- !e!b x", "[!a%sb , c]", "{!a%s: b}", "%TAG !e!%s t\n--- !e!b x", "%TAG%s!e! t\n--- !e!b x", "%TAG !e! t%s\n--- !e!b x", "!e!a%s x", "%%sTAG !e! t\n--- x", "!!a%s", "!<a>%sx", "%YAML 1.2%s\n--- x", "%YAML%s1.2\n--- x", "%YAML 1%s2\n--- x", "%F%sO x\n--- x", "%FOO%sx\n--- x", "%TAG %s t\n--- x", "%TAG %s!e! t\n--- x"):
            yield f.replace("%s", c)
    for a in range(256):
        yield f"!%{a:02x} x"; yield f"!<%{a:02X}> x"; yield f"%TAG !e! %{a:02x}\n--- !e!z x"; yield f"!!a%{a:02x}b x"
    bs = ["00", "41", "7f", "80", "a9", "bf", "c0", "c1", "c2", "c3", "df", "e0", "e2", "ed", "ef", "f0", "f4", "f5", "f8", "ff", "9f", "a0", "8f", "90", "98"]
    for n in (2, 3, 4):
        for t in mixw(rng, ["%" + b for b in bs], 3000 * sc, n): yield f"!{t} x"; 
        for t in mixw(rng, ["%" + b for b in bs], 1000 * sc, n): yield f"%TAG !e! p{t}\n--- !e!b x"
    for t in ("%C3%A9", "%E2%82%AC", "%F0%9F%98%80", "%c3%a9%E2%82%ac", "%", "%4", "%g1", "%1g", "%%41", "%C3", "%C3%", "%C3%4", "%C3A9", "%E2%82", "%F0%9F%98", "%ED%A0%80", "%F4%90%80%80", "%C3\u00a9"):
        for f in ("!%s x", "!!%s x", "!<%s> x", "%TAG !e! %s\n--- !e!b x", "!a%sb x", "%TAG !e! e\n--- !e!%s x", "!<tag:%s:x> y", "[!%s , a]"): yield f.replace("%s", t)
    tok = dirs + ["---\n", "--- ", "...\n", "x\n", "- ", "k: ", "&a "] + uses
    yield from rnd(rng, tok, 32000 * sc, 2, 9)
    ver = ["0", "1", "2", "9", "10", "99", "100", "127", "128", "254", "255", "256", "257", "300", "999", "1000", "4294967295", "4294967296", "99999999999999999999", "01", "001", "000000256", "-1", "+1", "", "1a", "a", "1 ", " 1"]
    for a in ver:
        for b in ver: yield f"%YAML {a}.{b}\n--- x"
    for s in ("%YAML 1", "%YAML", "%YAML 1.", "%YAML .1", "%YAML 1.2.3\n---", "%YAML 1.2 x\n---", "%YAML 1.2#c\n---", "%YAML 1.2 #c\n---", "%YAML  1.2\n---", "%YAML\t1.2\n---", "% YAML 1.2\n---", " %YAML 1.2\n---", "%YAML1.2\n---", "%yaml 1.2\n---", "%TAG\n---", "%TAG !\n---", "%TAG ! \n---", "%TAG a b\n---", "%TAG !e t\n---", "%TAG e! t\n---", "%TAG !e! t x\n---", "%TAG  !e!  t  \n--- !e!x", "%", "%\n---", "%a", "%a\n", "%a b\n...\n", "%a\n--- x", "a\n%b\n", "--- a\n%b\n", "...\n%b\n--- c", "%a\n%b\n--- c", "%a # c\n--- d", "%YAML 1.2\n%YAML 1.2\n---", "%YAML 1.2\n---\n...\n%YAML 1.1\n---", "%YAML 1.2\n", "%YAML 1.2\na", "%YAML 1.2\n...\n"): yield s
def docs(rng, sc):
    lines = ["---", "--- a", "...", "... #c", "# c", "", "%YAML 1.2", "%TAG ! a", "a", "- b", "c: d", " ---", "---x", "a: ---", "--- |", "--- # c", "%x", "---\t", "...x", "--- &x b", " ...", "--- 'q", "q'", "--- [", "]", "--- - a", "--- a: b", "... ]", "--- >", " t", "? k", "--- {", "}", "--- \"r", "r\"", "--- *x", "---a", "....", "----", "-- -", ". . .", "--- ---", "... ...", "--- ...", "\ufeffa", "\ufeff---", "... a", "--- !t", "%TAG !e! b", "--- !e!c d", "!e!c d"]
    core = lines[:14]
    for k in (1, 2, 3):
        for ls in itertools.product(core, repeat=k): yield "\n".join(ls) + "\n"
    for ls in itertools.product(lines, repeat=2): yield "\n".join(ls); yield "a\n" + "\n".join(ls) + "\nz\n"; yield "\n".join(ls) + "\n--- z\n"
    for nl in ("\r\n", "\r"):
        for ls in itertools.product(core, repeat=2): yield nl.join(ls) + nl
    for _ in range(42000 * sc):
        k = rng.randint(3, 8); nl = rng.choice(["\n"] * 8 + ["\r\n", "\r"])
        yield nl.join(rng.choice(lines if rng.random() < .5 else core) for _ in range(k)) + rng.choice([nl, nl, ""])
    ms = ["---", "...", "--- ", "... ", "---\t", "---x", "...x", " ---", "--", "....", "---\n", "----", "---#", "--- #", "...#"]
    for m in ms:
        for pre in ("'a\n", '"a\n', "|\n", "|\n a\n", ">\n a\n", "a\n", "[a,\n", "{a:\n", "[\n", "k: 'a\n", "k: |\n a\n", "- a\n", "- |\n a\n", "k:\n a\n", "&x\n", "!t\n", "? a\n", "'a\n\n", "|1\n", "- 'a\n  b\n", "# c\n", "%x\n", "k: a\n", "k: \"a\\\n", "- - a\n", "[a, 'b\n", "--- |\n", "--- >\n", "a: |+\n\n", "--- |-\n a\n", "k:\n - |\n  a\n"):
            for post in ("\n", "\nb'", '\nb"', "\n]", "\n}", "", "\nb", "\n- b\n", "\nc: d\n"): yield pre + m + post

# -------------------------------------------------------------- disturbances
FAULTS = ["\t", " ", "\n", ":", "-", "?", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", '"', "%", "@", "`", "\\", "---", "...", ": ", "- ", "? ", " #", "&x ", "!t ", "\r", "\n\n", "\n  ", "\n\t", "\0", "\u00e9", "\n---\n", "\n...\n", "a", "0", "= ", "~", "$", "\x01", "\x7f", "\ufeff", "\u2028", "\x85"]
def mutate(rng, s, k=1):
    for _ in range(k):
        j = rng.randint(0, len(s)); r = rng.random()
        if r < .45: s = s[:j] + rng.choice(FAULTS) + s[j:]
        elif r < .65: s = s[:j] + s[j + rng.choice([1, 1, 1, 2, 4]):]
        elif r < .85: s = s[:j] + rng.choice(FAULTS) + s[j + 1:]
        elif r < .93:
            i = rng.randint(0, len(s)); a, b = sorted((i, j)); s = s[:b] + s[a:b] + s[b:]
        else: s = s[:j]
    return s
def mutants(rng, sc):
    base = [s for s in suite() if len(s) < 160]
    for s in base:
        for f in FAULTS[:24]:
            j = rng.randint(0, len(s)); yield s[:j] + f + s[j:]
    for _ in range(60000 * sc): yield mutate(rng, rng.choice(base), rng.choice([1, 1, 1, 2, 3]))
    for _ in range(20000 * sc): yield mutate(rng, tree(rng, rng.randint(2, 7)), rng.choice([1, 1, 2]))
    for _ in range(15000 * sc): yield mutate(rng, flowdoc(rng), rng.choice([1, 1, 2]))
def every_edit(rng, sc):
    """all single insertions and deletions at all places of small documents"""
    ds = ["a: b\nc: d\n", "- a\n- b\n", "- a: b\n  c: d\n", "a:\n  - b\n  - c\nd: e\n", "[a, b]", "{a: b, c: d}", "- [a, {b: c}]\n- d\n", "k: 'a b'\n", 'k: "a\\n b"\n', "- |\n  a\n  b\n- c\n", "k: >-\n  a\n  b\nl: m\n", "? a\n: b\n", "&x a: *x\n", "!t a: !!str b\n", "--- a\n...\n--- b\n", "%YAML 1.2\n--- a\n", "%TAG !e! e:\n--- !e!x a\n", "a:\n- b\n- c\nd:\n- e\n", "- - a\n  - b\n- c\n", "a: b # c\n# d\ne: f\n", "[? a : b, c: d, \"e\":f]\n", "a b\n c d\n\n e\n", "- 'a\n  b'\n- \"c\n  d\"\n", "k: [a,\n  b]\nl: m\n"]
    for d in ds:
        yield d
        for j in range(len(d) + 1):
            if j < len(d): yield d[:j] + d[j + 1:]; yield d[:j]
            for f in FAULTS: yield d[:j] + f + d[j:]
        if sc > 1:
            for j in range(len(d)):
                for f in FAULTS: yield d[:j] + f + d[j + 1:]
LEX = ["a", "b: ", "- ", "? ", ": ", ":", "[", "]", "{", "}", ",", "\n", "\n  ", "\n ", "'", "\"", "|", "|-\n", "|+\n", ">\n", "|2\n", "#", "# c\n", " ", "\t", "&x ", "*x", "!t ", "!!s ", "!<v> ", "---", "--- ", "\n---\n", "...\n", "%TAG ! p\n", "%YAML 1.2\n", "\\", "\\n", "\\\n", "\u00e9", "\r\n", "\r", "~", "-", "?", "1", "x y", "@", "`", "%", ">-\n  ", "\\x41", "\\u00e9", "!e!a ", "%TAG !e! tag:e,\n", "\n- ", "\n    ", "\"a\" ", "'b'", "\n\n", "\0", "\u00a0", "\x7f"]
def soup(rng, sc):
    yield from words(LEX, 1, 2)
    yield from rnd(rng, LEX, 50000 * sc, 3, 9)
    yield from rnd(rng, LEX, 6000 * sc, 10, 30)
    yield from rnd(rng, ASCII + UNI, 8000 * sc, 1, 6)
def short(rng, sc):
    """all texts over the indicator characters up to a small length"""
    al = "a-:?,[]{}#&*!|>'\"% \n\t."
    yield from words(al, 0, 3 if sc == 1 else 4)
    yield from rnd(rng, al, 30000 * sc, 4, 8)
def insertions(rng, sc):
    """comments, blank lines and spacing put into documents"""
    ins = [" ", "  ", "\t", " #c", " # c: [", "\n# c\n", "\n", "\n\n", " #\n", "  # - x\n", "\n   # '\n", "#", "# c", " \t# c", "\n\t\n", "\n  \n", "\t# c\n", "\n#c", " #c\n#d\n", "\n \t\n", " #\u00e9"]
    base = [s for s in suite() if len(s) < 120]
    for s in base:
        for j in range(len(s) + 1):
            if s[j:j + 1] in ("\n", "", " ", ",", "]", "}", ":") or rng.random() < .1:
                for i in (ins if sc > 1 else rng.sample(ins, 4)): yield s[:j] + i + s[j:]
    for _ in range(25000 * sc):
        s = rng.choice([tree(rng, rng.randint(2, 7)), flowdoc(rng), rng.choice(base)])
        for _ in range(rng.choice([1, 1, 2, 4])):
            j = rng.randint(0, len(s)); s = s[:j] + rng.choice(ins) + s[j:]
        yield s
def crlf(rng, sc):
    """the same texts with other line breaks"""
    g = [suite(), every_edit(rng, 1), (tree(rng, 6) for _ in range(5000 * sc)), (flowdoc(rng) for _ in range(3000 * sc))]
    for s in itertools.chain(*g):
        if "\n" in s and "\r" not in s:
            yield s.replace("\n", "\r\n"); yield s.replace("\n", "\r")
            if rng.random() < .3: yield "".join(rng.choice(["\n", "\r\n", "\r"]) if c == "\n" else c for c in s)

# --------------------------------------------------------------- core schema
CORE_TAGS = ["!!null ", "!!bool ", "!!int ", "!!float ", "!!str ", "!!seq ", "!!other ", "!local ", "!<tag:yaml.org,2002:int> ", "! "]
CORE_CTX = [("- ", "\n"), ("", "\n"), ("k: ", "\n"), ("", ": v\n"), ("[", "]"), ("{", "}"), ("? ", "\n: v\n"), ("{k: ", ", l: m}"), ("- &a ", "\n- *a\n"), ("--- ", "\n...\n")]
def cases(w):
    return {"".join(t) for t in itertools.product(*[(c.lower(), c.upper()) if c.isalpha() else (c,) for c in w])}
def near(n):
    return [n + d for d in (-17, -16, -10, -9, -8, -2, -1, 0, 1, 2, 7, 8, 9, 10, 15, 16)]
def coretexts(rng, sc):
    ws = set()
    for w in ("null", "true", "false", ".inf", ".nan", "-.inf", "+.inf", "~", "yes", "no", "on", "off", "inf", "nan", "-.nan", "+.nan", "+null", "infinity", "y", "n", "nan1", "inf1", "1inf", "1nan"):
        ws |= cases(w)
    for w in list(ws): ws |= {w + "1", "1" + w, w[:-1], w[1:], w + "e", w + ".", "." + w, "-" + w, "+" + w, w + " x", w + "_"}
    for p in (31, 32, 53, 62, 63, 64, 65, 127, 128):
        for v in near(1 << p):
            for u in (v, -v):
                ws |= {str(u), "+" + str(abs(u)), hex(v), "0o%o" % v, hex(v).upper(), "0x%X" % v, "-" + hex(v), "00" + str(abs(u)), "-00" + str(abs(u)), str(u) + ".0", str(u) + ".", str(u) + "e0", "0x00%x" % v, "0o00%o" % v}
    for n in range(0, 26): ws |= {"9" * n, "1" + "0" * n, "-" + "9" * n, "0x" + "F" * n, "0x" + "f" * n, "0o" + "7" * n, "0" * n, "0x" + "0" * n, "0." + "0" * n + "1", "1" + "0" * n + ".5", "1." + "0" * n, "." + "9" * n, "1." + "2" * n + "3"}
    for e in list(range(-30, 31)) + [-400, -340, -331, -325, -324, -323, -310, -309, -308, -307, -300, -100, 100, 299, 300, 306, 307, 308, 309, 310, 400, 99999, 100000, -99999, 999999999, -999999999]:
        for m in ("1", "9", "1.5", ".5", "5.", "12345678901234567890", "0.000123", "0", "-2", "+3.25", "1.7976931348623157", "4.9"): ws |= {f"{m}e{e}", f"{m}E{e:+d}"}
    al = "019-+.eExo_aAfF~"
    ws |= set(words(al, 0, 3))
    ws |= set(rnd(rng, al, 14000 * sc, 4, 4)); ws |= set(rnd(rng, "0179-+.eEox", 9000 * sc, 4, 9)); ws |= set(rnd(rng, "0123456789.", 5000 * sc, 3, 24)); ws |= set(rnd(rng, "0123456789abcdefABCDEF", 2500 * sc, 1, 17))
    ws |= {"0x" + w for w in rnd(rng, "0123456789abcdefABCDEFgG_+-.", 2500 * sc, 1, 17)} | {"0o" + w for w in rnd(rng, "01234567893+-_x", 2500 * sc, 1, 23)}
    ws |= {"0b101", "0X10", "0O10", "1_000", "1,000", "1:30", "0x", "0o", "+0x1", "-0o7", "\u0661", "\uff11", "1\u00a0", "=", "<<", "12e03", "-2E+05", "685.230_15e+03", "1e", "1e+", "e1", ".e1", "..", "...x", "+", "-x", "+.", "-.", ".", "+.5", "-.5e+3", ". 5", "0.0", "-0", "-0.0", "+0", "00", "0e0"}
    return sorted(ws)
def core(rng, sc):
    """scalar texts near the patterns of the core schema, in all styles, contexts and under tags"""
    ws = coretexts(rng, sc)
    yield from spread(ws, CORE_CTX, 2)
    some = [w for w in ws if len(w) <= 3 or rng.random() < 0.35]
    for j, w in enumerate(some):
        for m in range(2):
            t = CORE_TAGS[(j * 3 + m * 5 + j // 10) % len(CORE_TAGS)]
            c = CORE_CTX[(j + m) % len(CORE_CTX)]
            yield c[0] + t + w + c[1]
        yield f"- '{w}'\n- \"{w}\"\n- |-\n {w}\n- >-\n {w}\n"
        if j % 3 == 0: yield f"- !!int '{w}'\n- !!str \"{w}\"\n- !x '{w}'\n- !!null |-\n {w}\n"
    for w in ("null", "Null", "NULL", "~", "true", "True", "TRUE", "false", "False", "FALSE", ".inf", "-.Inf", ".NaN", "1", "-1", "+1", "0x1F", "0o17", "1.5", "1e3", "", "abc", "yes"):
        for t in CORE_TAGS:
            for c in CORE_CTX: yield c[0] + t + w + c[1]
            yield f"[{t}{w}, {t}'{w}', {t}\"{w}\"]"

# --------------------------------------------------------------------- trees
def trees(rng, sc):
    """documents whose trees have awkward keys, tags, aliases, duplicates and empty nodes"""
    at = ["a", "1", "", "~", "'x'", "\"\"", "!t v", "!!int x", "!!str 1", "&a b", "*a", "true", "!t", "&b", "!!null", "1.5", "[]", "{}", "!t []", "!!map {}", "&c [x]", "*b", "*c", "!!int '7'", "! 5"]
    def fl(d):
        k = rng.random()
        if d <= 0 or k < 0.45: return rng.choice(at)
        p = rng.choice(["", "", "", "!t ", "&a ", "&b ", "!!seq ", "!!map ", "&c !u "])
        if k < 0.7: return p + "[" + ", ".join(x if x else "~" for x in (fl(d - 1) for _ in range(rng.randint(0, 3)))) + "]"
        return p + "{" + ", ".join(fe(d - 1) for _ in range(rng.randint(0, 3))) + "}"
    def fe(d):
        k = fl(d); v = fl(d)
        r = rng.random()
        return f"? {k} : {v}" if r < 0.3 else f"{k} : {v}" if r < 0.9 else (k or "z")
    def bl(d, ind):
        k = rng.random()
        if d <= 0 or k < 0.35:
            return " " + (fl(1)) + "\n"
        p = rng.choice(["", "", "", " !t", " &a", " &b", " &c !u", " !!seq", " !!map"]) + "\n"
        pad = " " * ind
        if k < 0.6: return p + "".join(pad + "-" + bl(d - 1, ind + 2) for _ in range(rng.randint(1, 3)))
        out = p
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.35: out += pad + "?" + bl(d - 1, ind + 2) + pad + ":" + bl(d - 1, ind + 2)
            else: out += pad + rng.choice(["a", "b", "1", "'x'", "!t k", "&a n", "*a ", "!!int x", "[a]", "{a: b}", "~", "!!str 1", "", "!t ", "*b ", "a"]) + ":" + bl(d - 1, ind + 2)
        return out
    for _ in range(14000 * sc): yield "- &a 1\n- &b [2]\n- &c {c: d}\n-" + bl(3, 2)
    for _ in range(9000 * sc): yield "[&a x, &b {}, &c [3], " + fl(3) + "]"
    for _ in range(4000 * sc): yield "---" + bl(2, 1) + "---" + bl(2, 1) + rng.choice(["", "---\n", "...\n", "--- x\n... \n", "--- *a\n", "%YAML 1.2\n---\n"])
    for a in at:
        for b in at:
            yield f"- &a p\n- &b q\n- &c r\n- {{{a} : {b}, z: {a}}}\n- ? {a}\n  : {b}\n- [{a} : {b}]\n"
            yield f"- &a p\n- &b q\n- &c r\n- {{? {a} : {b}, {b} : {a}, {a} : {a}}}\n"
            yield f"--- &a p\n--- [&a 1, &b 2, &c 3, {a or '~'}, {b or '~'}]\n--- {a}\n"

def take(rng, it, n):
    """n random elements of an iterable, in order"""
    l = list(it)
    if len(l) <= n: return l
    return [l[j] for j in sorted(rng.sample(range(len(l)), n))]

# ------------------------------------------------- directives, and everything that may not stand where it stands
def directives(rng, sc):
    """all short sequences of directive lines, before and between documents"""
    dirs = ["%YAML 1.2\n", "%YAML 1.1\n", "%TAG ! l\n", "%TAG !! c:\n", "%TAG !e! e:\n", "%TAG !e! f:\n", "%FOO x y\n", "# c\n", "\n", "%TAG !f! !g\n"]
    tails = ["---\n- !e!a x\n- !!str y\n- !z w\n", "--- !e!a x\n", "--- x\n", "---\n", "x\n", "", "...\n", "--- !!b\n...\n", "--- a\n--- !e!b c\n", "--- a\n...\n%TAG !e! g\n--- !e!b c\n", "--- a\n%FOO\n---\n", "--- !f!x\n...\n--- !f!y\n", "--- a\n...\n%YAML 1.2\n---\nb\n"]
    heads = ["", "", "", "...\n", "x\n...\n", "--- y\n...\n", "x\n", "--- |\n a\n", "--- [a]\n...\n", "# c\n", "%TAG !e! z\n--- !e!q\n...\n", "%YAML 1.2\n--- q\n...\n", "--- 'q'\n... # d\n\n"]
    n = 0
    for k in (0, 1, 2, 3):
        for ds in itertools.product(dirs, repeat=k):
            d = "".join(ds)
            for j in range(13 if k < 2 else 3 if k == 2 else 1 + sc):
                n += 1
                yield heads[(n * 5 + j) % 13] + d + tails[(n * 3 + j) % 13]
            if k == 3: yield d + tails[n % 4]
    for _ in range(3000 * sc): yield rng.choice(heads) + "".join(rng.choice(dirs) for _ in range(rng.randint(3, 7))) + rng.choice(tails)

BAD = ["a:\n\tb", "a:\n\t- b", "-\ta: b", "- a\n\t- b", "a:\n \tb: c", "-\t- a", "?\ta: b", "a: b\n\tc: d", "- a\n-\tb: c", "a:\n  b: c\n\td: e", "k:\n\t\nl: m", "- |\n\ta", "- >\n \ta", "a: |\n\tb", ":\t- a", "- \t- a", "a: \tb", "a:\tb", "a\t: b", "\ta: b", "\t- a", "\ta", "a\n\tb", "- a\n\tb", "a:\n\t[b]", "[\n\ta]", "- [\n\ta]", "? a\n:\t- b",
  "a:\n    b: c\n  d: e", "- a\n - b", " - a\n- b", "a:\n  - b\n - c", "a:\n - b\n  - c", "- - a\n - b", "- a: b\n c: d", "- a: b\n   c: d", "? a\n : b", "k:\n  a\n b: c", " a: b\nc: d", "a:\n  b:\n c: d", "a:\n- b\n c: d", "a:\n- b\n  - c", "a: b\n  - c", "- a\n  - b", "-\n a\n- b", "-\na", "-\n - a\n- b\nc",
  "a: b: c", "a: - b", "- a\nb: c", "a: b\n- c", "a: 'b': c", "a: 'b' c", "'a' b", "'a'\n: b", "a: &x\nb", "&x &y a", "!t !u a", "&x *y", "!t *y", "*x a", "&x - a", "!t - a", "&x ? a", "a: &x - b", "- a: b: c", "? a: b: c", "a\nb: c", "a: b\nc", "a:\n b\n c: d", "a: b\n c: d", ": a: b", "a: b\n: c\n d", "- a\n  b: c", "- 'a'\n  b: c", "a: ? b", "? - a\n- b", "? a\n  : b", ": a\n: b", "? a\n? b\n: c\n: d", "a: : b", "a ::b", "a: b:", "&x a: &y b: c", "a: !t - b", "a: *x : b", "- - : - a", "-- a", "- -a", "?a : b", ":a", "a:b: c", "&x\n- a\n-b", "a: |\n b\n  c\nd", "a: b\n\n c\n\nd",
  "[a", "[a, b", "{a: b", "a]", "a}", "]", "}", "[a]]", "[a}", "{a]", "[a b: c\n d]", "[,]", "[a,,b]", "{,}", "{a,,b}", "[a][b]", "[a] b", "{a: b} c", "[a]b", "[a\n]: c", "[- a]", "[\n- a\n]", "{- a}", "[a: b: c]", "{a: b: c}", "[? a ? b]", "[a\nb: c]", "['a'\n: b]", "[a #b]", "[a, #b]", "[a,#b\n]", "[|\n a]", "{a: >\n b}", "[--- a]", "[\n---\n]", "[\n...\n]", "k: [a,\nb]", "[\na\n]", "k: {\na: b}", "[%a]", "[@a]", "[`a]", "{a b}", "[&c *d]", "[&x &y a]", "[!a !b c]", "[:]", "[::]", "{:}", "{: :}", "[a 'b']", "['a' b]", "['a' 'b']", "[\"a\"b]", "[a: , b: ,, ]", "{[a}: b]", "[? a: b: c]", "[{a: b, [c]]", "[a, b\n\n: c]", "{a\n: b}", "{'a'\n: b}", "{a: b\nc: d}", "[*x]", "[!e!a b]", "[-]", "[-, a]", "[?, a]", "[- ]", "[a, - b]", "[a,\n - b]", "{? - a}", "[&a, &b, !c]", "[a: &x *y]", "[a\n--- b]", "{a: 'b\n---\n'}", "[|]", "[>-]", "[a: |\n]", "[[a], [b]: c: d]",
  "'a", "\"a", "'a\n", "\"a\nb", "'a''", "\"a\\\"", "\"\\q\"", "\"\\x4\"", "\"\\x4g\"", "\"\\u123\"", "\"\\U0011ffff\"", "\"\\ud800\"", "\"\\ud83d\\ude00\"", "\"\\", "k: 'a\nb'", "k: \"a\nb\"", "- 'a\nb'", "'a'b", "\"a\"'b'", "'a' 'b'", "\"a\":b", "'a\nb': c", "\"a\n b\": c", "\"\\ \\\t\\/\\_\\N\\L\\P\\e\"", "\"\\'\"", "'\\'", "'\\''", "\"\\1\"", "\"\\u00zz\"", "\"\\X41\"", "\"a\n\t\\q\"", "\"\\-\"", "'a'#b", "\"a\"#b", "'a' #b\nc", "\"a\"\nb", "'a'\n'b'",
  "|x", "|0", "|10", "|--", "|+-", "|2+2", "| a", "|#a", ">1x", "|1-1", "| \n  a\n b", "|\n\n   \n a", ">-\n   \n a", "|2\n a", "k: |2\n b", "|-9\n         a", ">+1\n a", "|a\n b", "||\n a", ">|\n a", "|\n   a\n  b\n c", "k: |\n  a\n b", "|0-", "|+0", "|-+", "|1 #c\n a", "|1#c\n a", "|\t\n a", "|- \t# c\n a", "- |\na", "- >\na\n- b", "|'a'", "|\\", "|&x",
  "--- a\n... b", "a\n... b", "%YAML 1.2", "%YAML 1.2\na", "%YAML 1.2\n%YAML 1.2\n--- a", "a\n%YAML 1.2\n---\n", "--- %a", "%", "--- a: b", "--- a: b\n c", "---\n---\n%T", "---- a: b: c", "--- - a", "--- &x a: b", "--- ? a", "... a", "...#a", "a\n...#b", "--- |\n%a\n", "--- 'a\n--- b'", "---a\n--- b", "%TAG !e! a\n%TAG !e! b\n---\n", "%TAG ! a\n...\n", "%YAML 2.0\n---\n", "%YAML 1.2 1.2\n---\n", "%TAG !e a\n---", "--- a\n%TAG !e! b\n--- !e!c", "%FOO", "---\n%FOO\n---", "a\n---\n%FOO\n", "a\n...\n%FOO", "--- !e!a\n", "--- *x\n", "--- &x a\n--- *x\n",
  "*x", "- &x a\n- *y", "- *x\n- &x a", "*", "&", "& a", "!e!x a", "!<a", "!<>", "!a!", "!%zz", "!a{b", "!a,b", "!!", "&x\n&y a", "!t\n!u a", "&x,y a", "@a", "`a", "%a", "a: @b", "- `b", "- %b", "- @", "a: %b", "a: ,b", "- ,", "- ]", "- }", "a: ]", "a: }", "&x *x", "&x\n*x", "- &x\n- *x\n- *xy", "*x : a", "*x: a", "&x: a", "!t: a", "&x a: *x", "&x\na: b", "&x !t\n- a", "&x\n- a", "!t\na", "!<a> b", "!<a>b", "!<a b> c", "!a%4", "!\ta", "&a\tb", "&a !b &c d", "!a &b !c d", "- &x\n!t\n- a", "k: &x\n!t a", "k:\n&x a", "k:\n!t\n- a", "- !t\na", "- &x\n a\nb"]
def ind(n): return lambda s: s.replace("\n", "\n" + " " * n)
BAD_CTX = [lambda s: s, lambda s: "--- " + s, lambda s: "---\n" + s, lambda s: "- " + ind(2)(s), lambda s: "- z\n- " + ind(2)(s) + "\n- y", lambda s: "k:\n  " + ind(2)(s), lambda s: "k: " + ind(2)(s) + "\nz: y\n",
  lambda s: "? " + ind(2)(s), lambda s: "? " + ind(2)(s) + "\n: z\n", lambda s: "? z\n: " + ind(2)(s) + "\ny: x", lambda s: "z: y\nk:\n   " + ind(3)(s), lambda s: "- - " + ind(4)(s) + "\n  - z\n- y", lambda s: "- k: " + ind(4)(s) + "\n  z: y\n", lambda s: "- k:\n    " + ind(4)(s),
  lambda s: s + "\n- z", lambda s: s + "\nz: y", lambda s: "[" + s + "]", lambda s: "{k: " + s + "}", lambda s: "[z, " + s + ", y]", lambda s: "{" + s + ": v}", lambda s: "[" + s + ": v]", lambda s: "{? " + s + "}", lambda s: "- [z,\n  " + ind(2)(s) + "\n  ]\n- y",
  lambda s: "&p " + s, lambda s: "!q " + s, lambda s: "&p\n" + s, lambda s: "z\n---\n" + s, lambda s: "z\n...\n" + s, lambda s: s + "\n---\nz", lambda s: s + "\n...\n", lambda s: s + "\n...\nz\n", lambda s: "- # c\n  " + ind(2)(s), lambda s: "-\n\n  " + ind(2)(s),
  lambda s: s.replace("\n", "\r\n"), lambda s: s + "\n# c\n", lambda s: "# c\n\n" + s + " # d\n", lambda s: "&x z: 1\ny: " + ind(1)(s), lambda s: "k:\n- " + ind(2)(s) + "\nz: y", lambda s: s + ": v\n", lambda s: s + " : v\n"]
def bad(rng, sc):
    """what may not stand where it stands (and its like that may), at every kind of place"""
    for s in BAD:
        for c in BAD_CTX: yield c(s)
    for _ in range(6000 * sc):
        s = rng.choice(BAD)
        for _ in range(rng.choice([2, 2, 3])): s = rng.choice(BAD_CTX)(s)
        yield s
    for _ in range(3000 * sc): yield rng.choice(BAD_CTX)(rng.choice(BAD) + rng.choice(["\n", "\n", "\n\n", "\n---\n", "\n...\n", " "]) + rng.choice(BAD))

# ------------------------------------------------- the same texts deeper, later and repeated
OPENERS = [("[", "]"), ("[", "]"), ("[b, ", "]"), ("{a: ", "}"), ("{? ", "}"), ("[c: ", ", d]"), ("{[x]: ", ", y: z}"), ("[{", ": v}]"), ("[\n ", "\n ]"), ("[!t &q ", " ,]")]
LINES = ["a:", "-", "- a:", "- -", "?", "? a\n%s:", "!t", "&q", "b: c\n%sa:", "- d\n%s-", "- - f\n%s-"]
DEPTHS = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 33]
def indented(s, n): return "\n".join(" " * n + l if l else l for l in s.split("\n"))
def deeper(rng, s):
    n = rng.choice(DEPTHS)
    r = rng.random()
    if r < 0.3:
        # inside flow collections
        parts = [rng.choice(OPENERS) for _ in range(n)]
        return rng.choice(["", "", "- ", "k: ", "--- "]) + "".join(o for o, _ in parts) + s.rstrip("\n") + "".join(c for _, c in reversed(parts)) + rng.choice(["", "\n", "\n- z\n", "\nz: y\n"])
    if r < 0.5:
        # compact block sequences, with entries after it on the way out
        out = "- " * n + indented(s, 2 * n).lstrip(" ")
        if not out.endswith("\n"): out += "\n"
        for j in sorted(rng.sample(range(n), rng.randint(0, min(3, n))), reverse=True): out += "  " * j + rng.choice(["- z\n", "- y: x\n", "- *x\n", "- &x z\n", "-\n"])
        return out
    # one level per line, of several widths
    pre, at, ats = "", 0, []
    for _ in range(n):
        l = rng.choice(LINES)
        pre += " " * at + (l % (" " * at) if "%s" in l else l) + "\n"
        ats.append((at, l)); at += rng.choice([1, 1, 2, 2, 2, 4])
    out = pre + indented(s, at)
    if not out.endswith("\n"): out += "\n"
    for j in sorted(rng.sample(range(n), rng.randint(0, min(3, n))), reverse=True):
        at, l = ats[j]
        out += " " * at + ("- z" if l.startswith("-") else ": z" if l.startswith("?") else rng.choice(["y: x", "y: *x", "? y"])) + "\n"
    return out
def later(rng, s):
    n = rng.choice([1, 2, 3, 5, 8, 16, 31, 64, 70])
    p = rng.choice(["# c\n", "\n", "--- x\n", "--- &x y\n", "---\n- a\n- b: c\n", "%YAML 1.2\n---\n...\n", "--- [a, {b: c}]\n", "%TAG !e! tag:e,\n--- !e!x y\n...\n", "--- |\n a\n", "--- 'a'\n...\n"])
    if p.startswith(("-", "%")) and not s.startswith(("---", "%")): p2 = rng.choice(["---\n", "--- \n", "...\n"])
    else: p2 = ""
    if s.startswith("%") and p.startswith("-"): p2 = "...\n"
    return p * n + p2 + s
def again(rng, s):
    n = rng.choice([2, 2, 3, 4, 9, 17])
    r = rng.random()
    if not s.endswith("\n"): s += "\n"
    if r < 0.3: return s * n
    if r < 0.6: return "".join("---\n" + s for _ in range(n))
    if r < 0.8: return "".join("-\n" + indented(s, 1) for _ in range(n))
    return "".join(f"k{j}:\n" + indented(s, 2) for j in range(n))
def amplify(rng, texts, n):
    """n of the texts put deep inside, behind or several times into a document"""
    for s in (texts if len(texts) <= n else rng.sample(texts, n)):
        if len(s) > 400: continue
        r = rng.random()
        if r < 0.55: s = deeper(rng, s)
        elif r < 0.75: s = later(rng, s)
        elif r < 0.9: s = again(rng, s)
        else: s = deeper(rng, again(rng, s)) if rng.random() < 0.5 else later(rng, deeper(rng, s))
        if len(s) <= 1500: yield s

# ------------------------------------------------------------------ deep nesting
NEST = [("[", "]"), ("[a, ", "]"), ("{a: ", "}"), ("{? ", "}"), ("[? ", "]"), ("[[", "]]"), ("{[", "]: b}"), ("[\n", "\n]"), ("{'k': ", ", z: y}"), ("[&a !t ", ",]"), ("- ", ""), ("? ", ""), ("- - ", ""), ("-\t", ""), ("- !t &a ", "")]
def nest(rng, sc):
    """collections inside collections, closed and not: one kind many times, or several kinds mixed"""
    for o, c in NEST:
        for n in (1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400):
            for mid in ("", "a", "a: b"):
                yield o * n + mid + c * n
            yield o * n
            yield o * n + "a" + c * (n - 1)
            yield o * n + "a" + c * (n + 1)
    for o, c in NEST:
        yield o * 800 + "a" + c * 800
        yield o * 800
    for n in (2, 3, 8, 16, 17, 40, 64, 65, 130, 258):
        for item in ("a:", "-", "- a:", "? ", "&x\n", "!t\n"):
            yield "\n".join(" " * (2 * j) + item for j in range(n)) + "\n"
            yield "\n".join(" " * (2 * j) + item for j in range(n)) + " z\n" + "".join(" " * (2 * j) + item + " y\n" for j in reversed(range(n)))
    for _ in range(2500 * sc):
        n = rng.choice([4, 10, 30, 100, 260])
        parts = [rng.choice(NEST[:10]) for _ in range(rng.randint(1, n))]
        pre = "".join(rng.choice(["- ", "? ", "- ", ""]) for _ in range(rng.randint(0, 40)))
        ends = [c for _, c in reversed(parts)]
        if rng.random() < 0.3 and ends: del ends[rng.randrange(len(ends))]
        if rng.random() < 0.2: ends.insert(rng.randint(0, len(ends)), rng.choice("]}"))
        yield pre + "".join(o for o, _ in parts) + rng.choice(["a", "", "a: b", "*a", '"x"']) + "".join(ends)

# ------------------------------------------------------------- many entries
COUNTS = [3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300]
def wide(rng, sc):
    """collections of many entries, of one kind or several"""
    leaves = lambda j: rng.choice([str(j), f"v{j}", f"'{j}'", f'"x{j}"', "~", "", "true", f"{j}.5", f"!t {j}", f"!!str {j}", f"&a{j} {j}", f"[{j}]", f"{{k: {j}}}", "[]", f"[{j}, [a, b]]", f"é{j}"])
    for n in COUNTS:
        plain = [str(j) for j in range(n)]
        flow = n <= 66                                       # an open flow collection is kept as a possible key for a while
        for _ in range(2):
            mixed = [leaves(j) for j in range(n)]
            ks = rng.choice(["k", "", "key ", "é"])
            keys = [ks + str(j % rng.choice([n, n, n, 7])) for j in range(n)]
            for items in (plain, mixed):
                yield "".join(f"- {x}\n" for x in items)
                if flow: yield "[" + ", ".join(x or "~" for x in items) + "]"
                yield "".join(f"{k}: {x}\n" for k, x in zip(keys, items))
                if flow: yield "{" + ", ".join(f"{k}: {x}" for k, x in zip(keys, items)) + "}"
            yield "".join(f"? {k}\n: - {x}\n  - y\n" for k, x in zip(keys, plain))
            if flow: yield "a: [" + ",\n ".join(plain) + "]\nb:\n" + "".join(f"- {k}: {x}\n" for k, x in zip(keys, plain))
            yield "".join(f"--- {x}\n" for x in mixed)
            yield "- x\n- " + "\n  ".join(f"{k}: {x}" for k, x in zip(keys, mixed)) + "\n- y\n"
            if flow: yield "[" + ", ".join(f"{k}: {x}" for k, x in zip(keys, plain)) + "]"
            if flow: yield "[[" + "], [".join(plain) + "]]"
            yield "&x a: 1\n" + "".join(f"{k}: *x\n" for k in keys)
            yield "|\n" + "".join(f" {x}\n" for x in plain); yield "'" + "\n ".join(plain) + "'"
    for n in (511, 512, 513, 1023, 1024, 1025):
        yield "".join(f"k{j}: {j}\n" for j in range(n)); yield "".join(f"- {j}\n" for j in range(n))

# ---------------------------------------------------------------- long lines
LONG = [1500, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537]
def large_scalars(rng, sc):
    for n in LONG:
        a, mb = "a" * n, "\u00e9" * (n // 2)
        for b in (a, '"' + a + '"', "'" + a + "'", '"' + mb + '"', mb, a + " b", a + "\n b", a + " # c", '"' + a + '\\n b"', "'" + a + "''b'"):
            yield b; yield "- " + b + "\n- c: d\n"; yield "k: " + b + "\nz: y\n"; yield "[x, " + b + ", y]"
def large_blocks(rng, sc):
    for n in LONG:
        a, mb = "a" * n, "\u00e9" * (n // 2)
        for h in ("|", ">-"):
            yield f"{h}\n {a}\n b\n"; yield f"- {h}\n {mb}\n  b\n {a}\n- c"; yield f"k: {h}\n  a\n   {a}\n  b\nz: y\n"; yield f"{h}\n {a}"
            if n < 10000: yield f"{h}\n{' ' * n}a\n{' ' * n}b\n"; yield f"{h}\n{' ' * (n + 1)}\n{' ' * n}b\n"; yield f"{h}\n a\n{' ' * n}\n b\n"; yield f"- {h} #{a}\n b\n- c"
def large_layout(rng, sc):
    for n in LONG:
        a = "a" * n
        yield f"a: b #{a}\nc: d\n- e"; yield f"#{a}\n- b\n- c"; yield f"- a:{' ' * n}b\n  c: d"; yield f"- a {' ' * n}#b\n- c"
        yield f"- &{a} x\n- *{a}\n- &{a}b y\n- *{a}\n- *{a}b\n"; yield f"- !{a} x\n- !<{a}> y"; yield f"%TAG !e! {a}\n--- !e!{a} b"; yield f"%{a} b\n--- c"
        yield f"{a}: b"; yield f"? {a}\n: b"; yield f"--- {a}\n--- b\n... #{a}\n---\nc"
        yield f"[a, #{a}\n b{' ' * n}, c]"; yield f"'a{' ' * n}b'"; yield f"- a{' ' * n}\n  b"; yield f'"a{" " * n}\n  b"'
        if n < 10000: yield " " * n + "- a\n" + " " * n + "- b: c\n" + " " * (n + 2) + "d: e\n"; yield "a:\n" + " " * n + "b:\n" + " " * n + "- c\n" + " " * n + "d: e\n"
