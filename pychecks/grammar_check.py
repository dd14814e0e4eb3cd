"""C27 (matching) and C28 (simplification) on the real grammar classes, every small grammar and sentence."""
import itertools, os, sys
os.environ["TQDM_DISABLE"] = "1"
import pvh
from pvh import Suite, check, fail, st
from polytracker.grammars import DisconnectedGrammarError, Grammar, Production, Rule, Terminal

# A grammar in a case: {"S": ["aA", ""], ...}: upper case letters are nonterminals, lower case letters terminals, "_" is
# an empty terminal, "é" a terminal of two bytes. "" is an empty rule.
NT = lambda c: "<" + c + ">"


def tokens(r):
    out = []
    for c in r:
        out.append(NT(c) if c.isupper() else b"" if c == "_" else c.encode())
    return out


def build(g, start="S"):
    G = Grammar()
    for p, rs in g.items():
        Production(G, NT(p), *[rule(G, r) for r in rs])
    G.start = G[NT(start)]
    return G


def rule(G, r):
    return Rule(G, *[x if isinstance(x, str) else Terminal(x) for x in tokens(r)])


def plain(g):
    return {NT(p): [tokens(r) for r in rs] for p, rs in g.items()}


def extract(G):
    return {n: [[x if isinstance(x, str) else x.terminal for x in r.sequence] for r in p.rules] for n, p in G.productions.items()}


def with_empty(rules):
    """A production from which no terminal can be reached stands for the empty sequence."""
    prod, more = set(), True
    while more:
        more = False
        for p, rs in rules.items():
            if p not in prod and any(not isinstance(x, str) or x in prod for r in rs for x in r):
                prod.add(p)
                more = True
    return {p: (rs if p in prod else [[]] + list(rs)) for p, rs in rules.items()}


def spans(rules, sent):
    """All (production, i, j) such that the production derives sent[i:j]."""
    n, T, more = len(sent), set(), True
    while more:
        more = False
        for p, rs in rules.items():
            for r in rs:
                for i in range(n + 1):
                    ends = {i}
                    for x in r:
                        if isinstance(x, str):
                            ends = {f for e in ends for f in range(e, n + 1) if (x, e, f) in T}
                        else:
                            ends = {e + len(x) for e in ends if sent[e:e + len(x)] == x}
                        if not ends:
                            break
                    for e in ends:
                        if (p, i, e) not in T:
                            T.add((p, i, e))
                            more = True
    return T


def language(rules, start, n, alphabet=(b"a", b"b")):
    """The derivable sentences of up to n letters, as fixpoint of sets of short sentences."""
    rules = with_empty(rules)
    L = {p: set() for p in rules}
    more = True
    while more:
        more = False
        for p, rs in rules.items():
            for r in rs:
                cur = {b""}
                for x in r:
                    nx = L[x] if isinstance(x, str) else (x,)
                    cur = {c + y for c in cur for y in nx if len(c) + len(y) <= n}
                if not cur <= L[p]:
                    L[p] |= cur
                    more = True
    return L[start]


def matched(G, sent):
    """Whether match() accepts; an unexpected byte is reported as ValueError."""
    m = G.match(sent)
    try:
        return m, bool(m)
    except ValueError:
        return m, False


def tree_bytes(G, rules, t, prod):
    """Checks that t is a derivation by the grammar's rules; returns the bytes it derives."""
    out = []
    stack = [("prod", t, prod)]
    seen = 0
    while stack:
        kind, n, want = stack.pop()
        seen += 1
        check(seen < 100000, "the tree does not end")
        v = n.value
        if isinstance(want, bytes):
            check(isinstance(v, Terminal) and v.terminal == want and not n.children, f"the rule calls for {want!r}, the tree has {v!s}")
            out.append(want)
            continue
        check(v is G[want], f"the rule calls for {want}, the tree has {v!s}")
        if not n.children:
            check([] in rules[want], f"{want} is a leaf of the tree but does not stand for the empty sequence")
            continue
        kids = list(n.children)
        check(len(kids) == 1 and isinstance(kids[0].value, Rule), f"{want} is not expanded by one rule")
        r = kids[0].value
        check(any(r is x or r == x for x in G[want].rules), f"{want} is expanded by {r!s}, which is not one of its rules")
        seq = [x if isinstance(x, str) else x.terminal for x in r.sequence]
        kids = list(kids[0].children)
        if not seq and len(kids) == 1 and isinstance(kids[0].value, Terminal) and kids[0].value.terminal == b"":
            continue
        check(len(kids) == len(seq), f"rule {r!s} of {want} has {len(seq)} symbols, its tree {len(kids)} parts")
        for k, x in reversed(list(zip(kids, seq))):
            stack.append(("x", k, x))
    return b"".join(out)


def shape(t):
    """A tree as nested tuples: terminals, (production, children), ("", rule, children)."""
    v = t.value
    if isinstance(v, Terminal):
        return v.terminal
    kids = tuple(shape(k) for k in t.children)
    return ("", tuple(x if isinstance(x, str) else x.terminal for x in v.sequence), kids) if isinstance(v, Rule) else (v.name, kids)


def derivations(G, start, sent):
    """Every derivation tree of sent in which no production derives itself over the same bytes."""
    rules = extract(G)
    emp = with_empty(rules)
    T = spans(emp, sent)

    def prod(p, i, j, path):
        if (p, i, j) in path:
            return
        path = path | {(p, i, j)}
        if len(emp[p]) > len(rules[p]):
            if i == j:
                yield (p, ())
            return
        for r in rules[p]:
            for kids in seq(tuple(r), i, j, path, i, j):
                yield (p, (("", tuple(r), kids if r else (b"",)),))

    def seq(r, i, j, path, I, J):
        if not r:
            if i == j:
                yield ()
            return
        x = r[0]
        if isinstance(x, bytes):
            if sent[i:i + len(x)] == x and i + len(x) <= j:
                for rest in seq(r[1:], i + len(x), j, path, I, J):
                    yield (x,) + rest
            return
        for e in range(i, j + 1):
            if (x, i, e) in T:
                for a in prod(x, i, e, path if (i, e) == (I, J) else frozenset()):
                    for rest in seq(r[1:], e, j, path, I, J):
                        yield (a,) + rest

    return prod(start, 0, len(sent), frozenset())


def every_tree(G, m, start, sent, text, most=400):
    want = set(itertools.islice(derivations(G, start, sent), most + 1))
    if len(want) > most:
        return
    have, n = set(), 0
    for t in iter(m):
        have.add(shape(t))
        n += 1
        if n >= 20 * most:
            return
    check(want <= have, lambda: f"{sent!r} has {len(want)} parse trees, matching lists {len(have)} and misses {next(iter(want - have))!r}: {text}")


def judge(G, rules, start, sent, text, trees=4, all_up_to=99):
    emp = with_empty(rules)
    raw = sent.encode() if isinstance(sent, str) else sent
    want = bool(rules[start]) and (start, 0, len(raw)) in spans(emp, raw)
    m, got = matched(G, sent)
    check(got == want, lambda: f"{sent!r} {'can' if want else 'cannot'} be derived from {start} but matching says {got}: {text}")
    st.transitions += 1
    if not got:
        return
    st.states += 1
    first = m.parse_tree
    check(first is not None, f"{sent!r} matches but has no parse tree")
    for t in itertools.chain([first], itertools.islice(iter(m), trees)):
        b = tree_bytes(G, emp, t, start)
        check(b == raw, lambda: f"the parse tree of {raw!r} derives {b!r}: {t!s}")
    if G[start].can_produce_terminal and len(raw) <= all_up_to:
        every_tree(G, m, start, raw, text)
    check(bool(m), "a match is no longer one after its trees were read")


def sentences(n, al="ab"):
    return [bytes(x) for k in range(n + 1) for x in itertools.product(al.encode(), repeat=k)]


def canon(g, perms):
    """Keep one grammar per renaming of terminals and nonterminals other than S."""
    me = key(g)
    for q in perms:
        tr = str.maketrans(q)
        h = {p.translate(tr): ["".join(r).translate(tr) for r in rs] for p, rs in g.items()}
        if key(h) < me:
            return False
    return True


def key(g):
    return sorted((p, sorted(rs)) for p, rs in g.items())


SWAP = [{"a": "b", "b": "a"}]
SWAP3 = [{"a": "b", "b": "a"}, {"A": "B", "B": "A"}, {"a": "b", "b": "a", "A": "B", "B": "A"}]


def seqs(syms, n):
    return ["".join(x) for k in range(n + 1) for x in itertools.product(syms, repeat=k)]


def subsets(xs, k):
    return [list(c) for n in range(k + 1) for c in itertools.combinations(xs, n)]


def two_grammars(thorough):
    s = seqs("SAab", 2)
    for S in subsets(s, 2):
        for A in subsets(s, 2):
            g = {"S": S, "A": A}
            if S and canon(g, SWAP):
                yield g
    if thorough:
        s3 = [x for x in seqs("SAa", 3)]
        for S in subsets(s3, 2):
            for A in subsets(s, 1):
                yield {"S": S, "A": A}


def three_grammars(thorough):
    S2 = ["".join(x) for x in itertools.product("ABab", repeat=2)] + ["A", "B", "AAB", "ABA", "SAB", "ASB", "Sa", "aSb"]
    sub = [[], [""], ["a"], ["b"], ["a", ""], ["a", "ab"], ["B"], ["A"], ["aA"], ["Aa", "a"], ["aB", ""], ["BB", "a"], ["B", "BB"], ["S"], ["S", "b"]]
    for S in subsets(S2, 2):
        for A in sub:
            for B in sub:
                g = {"S": S, "A": A, "B": B}
                if S and canon(g, SWAP3):
                    yield g


def m_run(n, all_up_to=99):
    def run(g):
        G, P, text = build(g), plain(g), show(g)
        k = st.states
        for s in sentences(n):
            judge(G, P, "<S>", s, text, 4, all_up_to)
        st.nontrivial += st.states > k
    return run


def show(g):
    return "; ".join(p + " -> " + " | ".join(r or "(empty)" for r in rs) if rs else p + " has no rules" for p, rs in g.items())


# sentences given as text, terminals of several bytes, empty terminals, other start productions
def odd_gen(thorough):
    for t in ("é", "_", "aé"):
        s = ["", t, "S", "A", "S" + t, t + "S", "A" + t, t + "A", "aA", "SA", "_a", "a_A"]
        for S in subsets(s, 2):
            for A in subsets(["", t, "a" + t, "A" + t, "S", "aS"], 2):
                for start in ("S", "A"):
                    yield [{"S": S, "A": A}, start]


ODD = ["", "a", "é", "aé", "éa", "éé", "aéa", "ééa", "aa"]


def odd_run(c):
    g, start = c
    G, P = build(g), plain(g)
    for s in ODD:
        if P[NT(start)]:
            judge(G, P, NT(start), s if G.start is None else s, show(g)) if start == "S" else judge_start(G, P, start, s, show(g))
    st.nontrivial += 1


def judge_start(G, P, start, s, text):
    raw = s.encode()
    want = (NT(start), 0, len(raw)) in spans(with_empty(P), raw)
    m = G.match(s, start=G[NT(start)])
    try:
        got = bool(m)
    except ValueError:
        got = False
    check(got == want, lambda: f"{s!r} {'can' if want else 'cannot'} be derived from {start} but matching says {got}: {text}")
    if got:
        b = tree_bytes(G, with_empty(P), m.parse_tree, NT(start))
        check(b == raw, lambda: f"the parse tree of {raw!r} derives {b!r}")


# long rules, runs of terminals, terminals with common beginnings
def wide_gen(thorough):
    subs = [["a"], ["b", ""], ["ab", "a"], ["aA", "b"], ["AA", "a"], ["aab", "aa"]]
    for n in (3, 4, 5) if thorough else (3, 4):
        for x in itertools.product("Aab", repeat=n):
            for A in subs:
                yield {"S": ["".join(x)], "A": A}
    ts = ["aab", "aaba", "abb", "aabb", "abab", "aaa", "baab", "babb"]
    for t1, t2 in itertools.combinations(ts, 2):
        for x in (t1, t2, "A" + t1, t1 + "A"):
            for y in (t2, t2 + "A", "A" + t2):
                for A in (["a"], ["b", ""], [t1], [t2, "a"]):
                    yield {"S": [x, y], "A": A}


# productions that reach their terminals through others, in every pattern of use
def chain_gen(thorough):
    for S in (["A"], ["B"], ["D"], ["AB"], ["aD"]):
        for A in subsets(["B", "C", "D"], 2):
            for B in subsets(["A", "C", "D"], 2):
                for D in subsets(["A", "B", "CC"], 2):
                    for C in (["a"], ["a", "C"], ["Cb", ""]):
                        yield {"S": S, "A": A, "B": B, "C": C, "D": D}


# longer sentences of classic shapes
LONG = [{"S": ["aS", "a"]}, {"S": ["Sa", "a"]}, {"S": ["SS", "a"]}, {"S": ["SS", "a", ""]}, {"S": ["aSb", ""]}, {"S": ["aSb", "ab", "SS"]},
        {"S": ["A", "S"], "A": ["aA", "b"]}, {"S": ["AB"], "A": ["Aa", ""], "B": ["bB", ""]}, {"S": ["AA"], "A": ["aAb", "", "A"]},
        {"S": ["Ab"], "A": ["Aa", "aA", ""]}, {"S": ["A"], "A": ["B"], "B": ["A", "a", "Bb"]}, {"S": ["aSa", "bSb", "", "a"]}, {"S": ["SbS", "A"], "A": ["a", "Aa"]},
        {"S": ["ABS", ""], "A": ["a", ""], "B": ["b", ""]}, {"S": ["Aa", "Bb"], "A": ["aa"], "B": ["aa"]}, {"S": ["aAb", "aBa"], "A": ["a", "AA"], "B": ["a", "BB"]},
        {"S": ["abS", "aS", "bS", ""]}, {"S": ["aA"], "A": ["bS", "S", ""]}]


def long_gen(thorough):
    for g in LONG:
        for x in itertools.product("ab", repeat=9 if thorough else 7):
            yield [g, "".join(x)]


def long_run(c):
    G, P = build(c[0]), plain(c[0])
    judge(G, P, "<S>", c[1].encode(), show(c[0]), 12)
    st.nontrivial += 1


# matching between modifications
def hist_gen(thorough):
    rules = [("S", "a"), ("S", "A"), ("A", "b"), ("A", "B"), ("B", "a"), ("B", ""), ("A", "aS"), ("S", "AB")]
    for k in range(1, 5 if thorough else 4):
        for adds in itertools.permutations(rules, k):
            yield [list(map(list, adds))]


def hist_run(c):
    g = {"S": [], "A": [], "B": []}
    G = build(g)
    for p, r in c[0]:
        for s in sentences(2):
            judge(G, plain(g), "<S>", s, show(g))
        new = G[NT(p)].add(rule(G, r))
        check(new == (r not in g[p]), "add misreports")
        check(not G[NT(p)].add(rule(G, r)), "a rule is added twice")
        g[p].append(r)
        for s in sentences(2):
            judge(G, plain(g), "<S>", s, show(g))
    st.nontrivial += 1


# ---- C28
def well_formed(G, text, start):
    check(G.start is start and start.name in G and G[start.name] is start, f"the start symbol is gone: {text}")
    used = {}
    for n, p in G.productions.items():
        check(p.name == n, f"production {p.name} is registered as {n}")
        for r in p.rules:
            for x in r.sequence:
                if isinstance(x, str):
                    check(x in G, f"{n} uses {x}, which is not defined: {text}")
                    used.setdefault(x, set()).add(n)
        check(len(p.rules) == len({tuple(r.sequence) for r in p.rules}), f"{n} has a rule twice")
        for r in p.rules:
            check(r in p, f"{n} does not contain its rule {r!s}: {text}")
    for n in set(G.productions) | set(G.used_by):
        have = set(G.used_by[n]) if n in G.used_by else set()
        check(have == used.get(n, set()), f"{n} is used by {sorted(used.get(n, set()))}, recorded as used by {sorted(have)}: {text}")
    reach, todo = set(), [start.name]
    while todo:
        n = todo.pop()
        if n not in reach:
            reach.add(n)
            todo += [x for r in G[n].rules for x in r.sequence if isinstance(x, str)]
    try:
        G.verify(False)
        G.verify(True)
    except DisconnectedGrammarError as e:
        check(len(reach) < len(G.productions), f"verify: {e}: {text}")
    except Exception as e:
        fail(f"verify: {type(e).__name__} {e}: {text}")


LEN = 4


def agree(G, lang, text):
    """Matching agrees with the rules after they were rewritten."""
    if not G.start.rules:
        return
    for s in sentences(2):
        check(matched(G, s)[1] == (s in lang), lambda: f"after rewriting, matching {s!r} disagrees with the rules: {text} became {G!s}")


def s_run(c):
    g, removable = c[0], c[1]
    P = plain(g)
    G = build(g)
    text = show(g)
    if not removable:
        G.start.removable = False
    want = language(P, "<S>", LEN)
    start = G.start
    well_formed(G, text, start)
    for rnd in range(2):
        try:
            G.simplify()
        except Exception as e:
            fail(f"simplify: {type(e).__name__} {e}: {text}")
        now = extract(G)
        check("<S>" in now and G.start is start, f"the start symbol is gone: {text}")
        got = language(now, "<S>", LEN) if all(x in now for rs in now.values() for r in rs for x in r if isinstance(x, str)) else None
        well_formed(G, text, start)
        agree(G, got, text)
        check(got == want, lambda: f"after simplification {sorted(got - want)!r} became derivable and {sorted(want - got)!r} not: {text} became {G!s}")
    st.states += 2
    st.transitions += len(P)
    st.nontrivial += bool(want)


def four_grammars(thorough):
    """Rules with several different nonterminals, productions used from several places."""
    SS = [["A"], ["AA"], ["aA"], ["AB"], ["Ab", "B"], ["A", "C"], ["BAC"], ["A", "AA"], ["CA", ""]]
    AA = ["BC", "CB", "BCB", "aBC", "B", "C", "BaC", ""]
    sub = [["a"], ["b"], [""], [], ["C"], ["aC"], ["a", "b"], ["B", "a"], ["A", "b"]]
    for S in SS:
        for A in subsets(AA, 2):
            for B in sub:
                for C in sub:
                    yield {"S": S, "A": A, "B": B, "C": C}


def s_gen(thorough):
    for i, g in enumerate(four_grammars(thorough)):
        if thorough:
            yield [g, True]
            yield [g, False]
        else:
            yield [g, bool(i % 2)]
    for i, g in enumerate(itertools.chain(wide_gen(thorough), chain_gen(thorough))):
        yield [g, bool(i % 2)]
    for g in two_grammars(False):
        for r in (True, False):
            yield [g, r]
    for i, g in enumerate(three_grammars(thorough)):
        if thorough or True:
            yield [g, bool(i % 2)]
    if thorough:
        for i, g in enumerate(two_grammars(True)):
            yield [g, bool(i % 2)]


# inlining one production everywhere, removing one that stands for nothing
def inline_gen(thorough):
    for g in three_grammars(thorough):
        yield [g]


def inline_run(c):
    g = c[0]
    P, text = plain(g), show(g)
    want = language(P, "<S>", LEN)
    for name in ("<A>", "<B>"):
        G = build(g)
        p = G[name]
        if len(p.rules) == 1 and name not in p.first_rule().sequence:
            for u in list(p.used_by):
                u.replace_sub_production(name, p.first_rule())
            well_formed(G, text, G.start)
            check(language(extract(G), "<S>", LEN) == want, lambda: f"inlining {name} changed the language: {text} became {G!s}")
            G.remove(p)
            well_formed(G, text, G.start)
            check(language(extract(G), "<S>", LEN) == want, lambda: f"removing the unused {name} changed the language: {text} became {G!s}")
            agree(G, want, text)
            st.nontrivial += 1
        G = build(g)
        p = G[name]
        if not p.can_produce_terminal:
            check(G.remove(p), "remove misreports")
            check(not G.remove(name) and not G.remove(p), "remove misreports")
            well_formed(G, text, G.start)
            check(language(extract(G), "<S>", LEN) == want, lambda: f"removing the empty {name} changed the language: {text} became {G!s}")
            st.nontrivial += 1
    st.states += 1


# ---- large grammars and long sentences, of shapes whose language is known: rules, sentences in it, sentences not in it
def letter(i):
    return bytes([97 + i % 26])


def two(i):
    return bytes([33 + i // 90, 33 + i % 90])


def fam_right(k):
    return {"S": [[b"a", "S"], [b"a"]]}, [b"a" * k], [b"a" * k + b"b", b"a" * (k - 1) + b"b"]


def fam_left(k):
    return {"S": [["S", b"a"], [b"a"]]}, [b"a" * k], [b"a" * k + b"b", b"b" + b"a" * k]


def fam_center(k):
    return {"S": [[b"a", "S", b"b"], []]}, [b"a" * k + b"b" * k], [b"a" * k + b"b" * (k - 1), b"a" * (k - 1) + b"b" * k]


def fam_rule(k):
    w = b"".join(map(letter, range(k)))
    return {"S": [[letter(i) for i in range(k)]]}, [w], [w[:-1], w + b"a", w[:k // 2] + b"Z" + w[k // 2 + 1:]]


def fam_term(k):
    w = b"".join(letter(i * 7) for i in range(k))
    return {"S": [[w, "A"]], "A": [[b"x"], [w]]}, [w + b"x", w + w], [w, w + w[:-1], w[:-1] + b"x", w + b"xx", w[:-1] + b"Zx"]


def fam_many(k):
    return {"S": [[two(i)] for i in range(k)]}, [two(0), two(k // 2), two(k - 1)], [two(k), two(0) + two(1), two(k - 1)[:1]]


def fam_many2(k):
    return {"S": [["A", "A"]], "A": [[two(i)] for i in range(k)]}, [two(k - 1) + two(0), two(0) + two(k - 1)], [two(k) + two(0), two(0) + two(k), two(0)]


def fam_unit(k):
    g = {"S": [["P1"]]}
    for i in range(1, k):
        g[f"P{i}"] = [[f"P{i + 1}"]]
    g[f"P{k}"] = [[b"a"], [b"b", f"P{k}"]]
    return g, [b"a", b"ba", b"bba"], [b"", b"b", b"aa", b"ab"]


def fam_seq(k):
    g = {"S": [[f"P{i}" for i in range(k)]]}
    for i in range(k):
        g[f"P{i}"] = [[two(i)], []] if i % 2 else [[two(i)]]
    full = [two(i) for i in range(k)]
    return g, [b"".join(full), b"".join(full[::2]), b"".join(x for i, x in enumerate(full) if i != 1)], [b"".join(full[1:]), b"".join(full[:k // 2 * 2 - 2]), b"".join(full) + two(0), b"".join(full[:2][::-1])]


def fam_tree(k):
    """Every production uses the next ones: many uses of each."""
    g = {"S": [["P0", "P1"]]}
    for i in range(k):
        g[f"P{i}"] = [[two(i), f"P{(i + 1) % k}"], [two(i)], [b"z", f"P{(i * 3 + 1) % k}"]]
    return g, [two(0) + two(1), two(0) + b"z" + two(4 % k), two(0) + two(1) + two(1) + two(2 % k)], [two(0), two(1) + two(1), two(0) + two(1) + b"z"]


FAM = {"right": fam_right, "left": fam_left, "center": fam_center, "rule": fam_rule, "term": fam_term, "many": fam_many, "many2": fam_many2, "unit": fam_unit, "seq": fam_seq, "tree": fam_tree}
FAM_MAX = {"right": 130, "left": 600, "center": 300, "rule": 300, "term": 5000, "many": 600, "many2": 300, "unit": 300, "seq": 130, "tree": 130}


def fam_gen(thorough):
    for f in FAM:
        for k in list(range(3, 12)) + [16, 17, 20, 32, 33, 50, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 300, 600, 1024, 5000]:
            if k <= FAM_MAX[f]:
                yield [f, k]


def fam_build(g):
    G = Grammar()
    for p, rs in g.items():
        Production(G, p, *[Rule(G, *[x if isinstance(x, str) else Terminal(x) for x in r]) for r in rs])
    G.start = G["S"]
    return G


def fam_judge(G, yes, no, what):
    for s in yes:
        m, got = matched(G, s)
        check(got, lambda: f"{what}: {s[:60]!r} ({len(s)} bytes) can be derived but does not match")
        b = tree_bytes(G, with_empty(extract(G)), m.parse_tree, "S")
        check(b == s, lambda: f"{what}: the parse tree of {s[:60]!r} derives {b[:60]!r}")
    for s in no:
        check(not matched(G, s)[1], lambda: f"{what}: {s[:60]!r} ({len(s)} bytes) cannot be derived but matches")
    st.states += len(yes) + len(no)


def fam_run(c):
    g, yes, no = FAM[c[0]](c[1])
    fam_judge(fam_build(g), yes, no, "matching")
    st.nontrivial += 1


def fams_gen(thorough):
    for f, k in fam_gen(thorough):
        if k <= 130:
            yield [f, k]


def fams_run(c):
    g, yes, no = FAM[c[0]](c[1])
    G = fam_build(g)
    start = G.start
    for rnd in range(2):
        G.simplify()
        well_formed(G, f"{c}", start)
        fam_judge(G, yes, no, "after simplification")
    st.nontrivial += 1


THOROUGH = "--thorough" in sys.argv
SUITES = [
    Suite("c27_scale", "ten families of grammars with up to 600 rules, 300 productions, rules of 300 symbols, terminals of 5000 bytes, sentences up to 600 symbols", fam_gen, fam_run),
    Suite("c28_scale", "ten families of grammars with up to 130 rules or productions, simplified twice", fams_gen, fams_run),
    Suite("c27_two", "every grammar of two productions with up to two rules of up to two symbols, every sentence up to length 3 (all parse trees up to length 2 (3))", two_grammars, m_run(3, 3 if THOROUGH else 2), show),
    Suite("c27_three", "every grammar of three productions from a list of rules (including productions with equal rules), every sentence up to length 3 (all parse trees up to length 2 (3))", three_grammars, m_run(3, 3 if THOROUGH else 2), show),
    Suite("c27_odd", "grammars with multi-byte and empty terminals, sentences given as text, other start productions", odd_gen, odd_run, lambda c: c[1] + " in " + show(c[0])),
    Suite("c27_wide", "rules of 3 to 4 (5) symbols with runs of terminals; terminals of 3 and 4 bytes with common beginnings; every sentence up to length 5", wide_gen, m_run(5), show),
    Suite("c27_chain", "five productions that use each other in every pattern of up to two single-symbol rules; every sentence up to length 2", chain_gen, m_run(2), show),
    Suite("c27_long", "18 classic ambiguous, recursive, nullable and cyclic grammars, every sentence of length 7 (9)", long_gen, long_run, lambda c: c[1] + " in " + show(c[0])),
    Suite("c27_hist", "every order of adding up to 3 (4) rules, matching all sentences in between", hist_gen, hist_run),
    Suite("c28_simplify", "every grammar of C27, and grammars of four productions, simplified twice, with and without a protected start", s_gen, s_run, lambda c: show(c[0])),
    Suite("c28_inline", "every single-rule production inlined, every empty production removed", inline_gen, inline_run, lambda c: show(c[0])),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
