"""Language inclusion of Python regular expressions on single lines.

`included(a, b)` decides whether every line which use `a` accepts is accepted by use `b`; a use
is (which, pattern) with which in match, search, fullmatch.  The automata run over the classes
of characters which the atoms of both patterns distinguish; look-behind and look-ahead of one
character and word boundaries are conditions on the neighbouring classes.  Anything else raises
Unsupported.  The line has no newline."""
import re
import re._constants as C
import re._parser as P

from .values import Unsupported

SAMPLE = [chr(i) for i in range(128) if i != 10] + list("é²٣中€\u2028\x85\xa0ſ\u0131")


class Nfa:
    def __init__(self):
        self.eps, self.tr, self.n, self.atoms = [], [], 0, []

    def state(self):
        self.eps.append([])
        self.tr.append([])
        self.n += 1
        return self.n - 1


def atom_re(op, av):
    """a predicate on characters for an atom of the parse tree"""
    if op is C.LITERAL:
        return lambda c: ord(c) == av
    if op is C.NOT_LITERAL:
        return lambda c: ord(c) != av
    if op is C.ANY:
        return lambda c: c != "\n"
    if op is C.IN:
        neg, tests = False, []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                tests.append(lambda c, a=a: ord(c) == a)
            elif o is C.RANGE:
                tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
            elif o is C.CATEGORY:
                s = {C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W", C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S"}.get(a)
                if s is None:
                    raise Unsupported("regular expression category")
                tests.append(lambda c, p=re.compile(s): p.match(c) is not None)
            else:
                raise Unsupported("regular expression set")
        return lambda c: any(t(c) for t in tests) != neg
    return None


WORD = re.compile(r"\w")


def build(nfa, seq, s):
    """add the automaton of a parsed sequence behind state s, return its end"""
    for op, av in seq:
        t = atom_re(op, av)
        if t is not None:
            e = nfa.state()
            nfa.atoms.append(t)
            nfa.tr[s].append((t, e))
            s = e
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            for _ in range(lo):
                s = build(nfa, sub, s)
            if hi is C.MAXREPEAT:
                b = nfa.state()
                nfa.eps[s].append((None, b))
                e = build(nfa, sub, b)
                nfa.eps[e].append((None, b))
                s = b
            else:
                end = nfa.state()
                nfa.eps[s].append((None, end))
                for _ in range(hi - lo):
                    s = build(nfa, sub, s)
                    nfa.eps[s].append((None, end))
                s = end
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags in a group")
            s = build(nfa, av[3], s)
        elif op is C.BRANCH:
            end = nfa.state()
            for sub in av[1]:
                b = nfa.state()
                nfa.eps[s].append((None, b))
                nfa.eps[build(nfa, sub, b)].append((None, end))
            s = end
        elif op is C.AT:
            e = nfa.state()
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                g = lambda p, n: p is None
            elif av in (C.AT_END, C.AT_END_STRING):
                g = lambda p, n: n is None
            elif av is C.AT_BOUNDARY:
                g = lambda p, n: bool(p and WORD.match(p)) != bool(n and WORD.match(n))
                nfa.atoms.append(lambda c: WORD.match(c) is not None)
            else:
                raise Unsupported("regular expression position")
            nfa.eps[s].append((g, e))
            s = e
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] is C.BRANCH or len(sub) != 1:
                raise Unsupported("look-around")
            if sub[0][0] is C.AT and sub[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                t = None
            else:
                t = atom_re(*sub[0])
                if t is None:
                    raise Unsupported("look-around")
                nfa.atoms.append(t)
            pos = op is C.ASSERT
            e = nfa.state()
            if direction < 0:
                g = (lambda p, n, t=t, pos=pos: (p is not None and t(p)) == pos) if t else (lambda p, n, pos=pos: (p is None) == pos)
            else:
                if t is None:
                    raise Unsupported("look-ahead")
                g = lambda p, n, t=t, pos=pos: (n is not None and t(n)) == pos
            nfa.eps[s].append((g, e))
            s = e
        else:
            raise Unsupported("regular expression %s" % op)
    return s


def automaton(which, pattern):
    try:
        tree = P.parse(pattern)
    except re.error:
        raise Unsupported("regular expression %r" % pattern)
    if tree.state.flags & ~C.SRE_FLAG_UNICODE:
        raise Unsupported("regular expression flags")
    nfa = Nfa()
    s = nfa.state()
    anyc = lambda c: True
    if which == "search":
        nfa.tr[s].append((anyc, s))
    e = build(nfa, tree, s)
    if which == "fullmatch":
        f = nfa.state()
        nfa.eps[e].append((lambda p, n: n is None, f))
    else:
        f = nfa.state()
        nfa.eps[e].append((None, f))
        nfa.tr[f].append((anyc, f))
    return nfa, s, f


def closure(nfa, S, p, n):
    out, todo = set(S), list(S)
    while todo:
        s = todo.pop()
        for g, t in nfa.eps[s]:
            if t not in out and (g is None or g(p, n)):
                out.add(t)
                todo.append(t)
    return out


def step(nfa, S, p, c):
    return frozenset(t for s in closure(nfa, S, p, c) for a, t in nfa.tr[s] if a(c))


def witness(a, b):
    """a line which use a accepts and use b does not, or None"""
    (A, sa, fa), (B, sb, fb) = automaton(*a), automaton(*b)
    chars = {ord(x) for _, p in (a, b) for x in p} | set(map(ord, SAMPLE))
    reps = {}
    for o in sorted(chars):
        c = chr(o)
        if c != "\n":
            reps.setdefault(tuple(t(c) for t in A.atoms + B.atoms), c)
    reps = list(reps.values())
    start = (frozenset([sa]), frozenset([sb]), None)
    seen, todo = {start: ""}, [start]
    while todo:
        st = todo.pop(0)
        SA, SB, p = st
        if fa in closure(A, SA, p, None) and fb not in closure(B, SB, p, None):
            return seen[st]
        for c in reps:
            nx = (step(A, SA, p, c), step(B, SB, p, c), c)
            if nx not in seen and nx[0]:
                if len(seen) > 20000:
                    raise Unsupported("regular expression too large")
                seen[nx] = seen[st] + c
                todo.append(nx)
    return None


def included(a, b):
    return witness(a, b) is None


def needs(pattern):
    """characters of which one is in every match (the first such set found), or None"""
    try:
        tree = P.parse(pattern)
    except re.error:
        return None

    def of(seq):
        for op, av in seq:
            if op is C.LITERAL:
                return {chr(av)}
            if op is C.IN and all(o is C.LITERAL for o, _ in av):
                return {chr(a) for _, a in av}
            if op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] >= 1:
                r = of(av[2])
                if r:
                    return r
            if op is C.SUBPATTERN:
                r = of(av[3])
                if r:
                    return r
        return None

    return of(tree)
