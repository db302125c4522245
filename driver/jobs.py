"""The bounded verification conditions of every property: harness + parameters.

Each job is one symbolic execution of a harness of /verif/harness/hx over the
current code.  `q` is the quick tier, `t` the thorough one."""


def j(h, *a):
    return h + " " + " ".join(str(x) for x in a)


def roots(h, pre, n, *, base=None):
    """split over the first choice (the root operator)"""
    return [j(h, *pre, 1, r) for r in range(n)]


def roots2(h, pre, n, m):
    return [j(h, *pre, 2, r, s) for r in range(n) for s in range(m)]


def _shapes():
    import os, re
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "hx", "src", "gen.rs")
    t = open(p).read()
    a = t.index("pub const SHAPES")
    return [x.replace(" ", "") for x in re.findall(r'"([^"]*)"', t[a:t.index("];", a)])]


SHAPES = _shapes()


def shapes(f, *, skip=(), no=""):
    """one job per shape of gen.rs (without any of the operators `no`; the long literals at the end are for printing)"""
    return [f(100 + i) for i, s in enumerate(SHAPES) if 100 + i not in skip and i < 88 and not any(c in s for c in no)]


def pl(t):
    """the pool of byte sets for a shape: few for many leaves; four letters where a third one is excluded"""
    return 7 if 170 <= t <= 174 else 6 if t in (104, 105, 106, 107, 145) or t >= 165 and t != 185 else 0


def wide(f, widths=(9, 33), kinds=(0, 1, 2, 5, 6, 7, 8, 16, 17, 18), no=()):
    """families of gen.rs over two letters, at several widths"""
    return [f(1000 + 100 * k + m) for k in kinds for m in widths if k not in no and (k, m) not in no]


def many(f, widths=(6, 15), kinds=(9, 10, 11, 12, 14, 15), no=()):
    """families over as many letters as they are wide"""
    return [f(1000 + 100 * k + m, m) for k in kinds for m in widths if k not in no and (k, m) not in no]


# languages of lengths: two moduli, a bound, how many second remainders, the first remainder
UNARY = ((5, 7, 40, 3, 2), (4, 6, 30, 6, 3), (13, 11, 100, 2, 5), (17, 4, 250, 2, 1), (3, 3, 70, 3, 1), (11, 2, 35, 2, 7))

# distances of several hundreds
FAR = ((25, 19, 10, 3, 24), (5, 7, 600, 1, 2), (41, 37, 10, 4, 40), (3, 4, 1100, 2, 1))


def unary(what, *rest, params=UNARY):
    return [j("h_unary", what, k, *x, *rest) for k in range(10) for x in params]


# wide searches: branches, letters, first place, stride, places, letters read
FRONT = ((9, 6, 0, 2, 5, 0), (24, 6, 0, 1, 24, 0), (24, 26, 0, 5, 5, 0), (36, 6, 0, 7, 6, 0), (60, 8, 0, 59, 2, 0), (64, 8, 5, 20, 3, 0), (200, 20, 0, 199, 2, 0), (200, 200, 0, 199, 2, 0))
FRONT2 = ((9, 6, 0, 2, 5, 2), (24, 6, 0, 3, 8, 2), (24, 26, 2, 17, 2, 1), (60, 8, 7, 28, 2, 1))

INF = (1 << 32) - 1
# the same letter? head min, max, look-ahead min, max, concrete letters of each, symbolic letters
LONGLOOK = ((1, 0, 10, 5, 20, 12, 0, 3), (0, 3, 5, 10, 300, 4, 9, 3), (0, 0, 9, 256, 256, 3, 255, 3), (1, 1, 400, 256, 300, 290, 0, 3), (0, 0, INF, 17, 33, 20, 16, 2), (0, 0, INF, 33, 33, 20, 32, 2), (1, 0, 30, 64, 66, 66, 0, 2),
            (1, 0, INF, 70, INF, 75, 0, 3), (0, 2, 9, 300, 300, 8, 299, 2), (0, 0, 40, 65, INF, 39, 64, 2), (0, 5, 5, 0, 4, 3, 0, 4), (1, 0, 64, 1, INF, 62, 0, 4), (0, 1, 17, 31, 31, 17, 29, 3))


PROPS = {}

# body, minimum, maximum, concrete letters before the symbolic ones, symbolic ones, one more letter after?
COUNTS = ((0, 0, 18, 16, 4, 0), (0, 31, 33, 29, 4, 0), (0, 64, 64, 62, 3, 1), (0, 17, INF, 15, 4, 0), (0, 0, 40, 38, 4, 1), (0, 0, 255, 253, 3, 0), (0, 256, 257, 254, 4, 0), (0, 127, 128, 125, 4, 1),
          (1, 0, 33, 31, 4, 1), (1, 5, 17, 15, 3, 0), (1, 20, INF, 18, 4, 1), (2, 2, 20, 18, 3, 0), (2, 20, 20, 18, 3, 1), (2, 3, INF, 10, 4, 0), (3, 17, 17, 12, 4, 1), (3, 0, 9, 6, 4, 0),
          (4, 1, 40, 0, 4, 0), (4, 0, 9, 0, 4, 1), (5, 9, 17, 16, 4, 0), (5, 0, 33, 64, 4, 1), (6, 9, INF, 16, 4, 0), (6, 3, 9, 16, 3, 1), (7, 0, 30, 28, 2, 1), (7, 12, 18, 15, 3, 0))
# both ends of a range, close to a boundary of the encoding
UTF8R = ((0, 0x60, 0x80, 1, 3), (0, 0x61, 0x80, 2, 2), (0, 0x80, 0xc0, 2, 2), (1, 0xc0, 0x100, 2, 2), (0, 0x41, 0x7ff, 2, 2), (0, 0x80, 0x800, 3, 2), (0, 0x800, 0x840, 3, 2), (1, 0x840, 0x1000, 3, 2), (0, 0x1000, 0x1fc0, 3, 2),
         (0, 0x20ac, 0x2100, 3, 2), (0, 0xcfff, 0xd7fe, 3, 1), (0, 0xd7ff, 0xe001, 3, 2), (1, 0xe000, 0xffff, 3, 2), (1, 0xffc0, 0x10000, 4, 2), (0, 0x10000, 0x10040, 4, 2), (0, 0x10040, 0x11000, 4, 2),
         (0, 0x1f600, 0x1f640, 4, 2), (0, 0x3ffc0, 0x40000, 4, 2), (0, 0xfffff, 0x10fffe, 4, 1), (0, 0x10ff80, 0x10ffff, 4, 2))
COUNTS2 = tuple((b, m, x, max(0, p), 4, t) for b in range(8) for (m, x) in ((0, 17), (0, 64), (1, 33), (15, 16), (16, 16), (32, 32), (33, 65), (100, 100), (0, 100), (20, INF), (64, INF)) for t in (0, 1)
                for p in ((m - 2, (x if x < INF else m + 3) - 2) if b not in (4,) else (0,)))


def prop(pid, name, q, t, covers, bounds, outside, variant="std"):
    PROPS[pid] = dict(name=name, q=q, t=t, covers=covers, bounds=bounds, outside=outside, variant=variant)


LOOK = ((160, 160), (160, 161), (160, 162), (161, 161), (164, 161), (124, 161), (160, 138))
ENDS = ((190, 191), (191, 190), (192, 193), (194, 195), (198, 199), (199, 198), (200, 201), (201, 200), (202, 203), (203, 202))
CONT = ((127, 125), (118, 117), (136, 138), (159, 124), (114, 115), (115, 114), (116, 124), (157, 137), (156, 138), (120, 119))

# ---------------------------------------------------------------- matching
prop(
    "D01", "match-semantics",
    roots("h_match", (0, 2, 4), 9) + roots("h_match", (2, 1, 4), 9) + [j("h_match", 1, 1, 5, 0), j("h_match", 5, 1, 3, 0)]
    + roots("h_match", (4, 2, 3), 9) + roots("h_match", (6, 3, 3), 9)
    + shapes(lambda t: j("h_match", pl(t), t, 4, 0), no="r") + [j("h_count", 1, *c) for c in COUNTS]
    + wide(lambda t: j("h_match", 6, t, 4, 0), (9, 17, 33, 65), (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 18)) + many(lambda t, m: j("h_match", 8, t, 2, 0), (9, 17, 33), (9, 10, 11, 12, 13, 14, 15), no=((11, 33),)),
    roots("h_match", (0, 2, 6), 9) + roots("h_match", (2, 2, 3), 9) + roots("h_match", (1, 2, 4), 9)
    + roots2("h_match", (0, 3, 3), 9, 9) + shapes(lambda t: j("h_match", 0, t, 6, 0), no="r") + [j("h_count", 1, *c) for c in COUNTS2],
    {"h_match": [1, 2], "h_count": [0, 1]},
    "every expression with exactly 2 operators (concatenation, union, intersection, complement, *, +, ?, {2,3}, {2,}) over a pool of 3 byte sets and every byte string of length up to 4; 3 operators over 2 byte sets, length up to 3; 1 operator over larger pools; 24 counted repeats up to 257 over 8 bodies with words around their ends; some 80 further shapes with 3 to 8 operators; unions, intersections, sequences and nestings of 9 to 65 members, with as many letters or two",
    "other expressions with more operators (see large-structures), longer words",
)
prop(
    "D02", "constructors",
    [j("h_nary", 2, 2, op, 2, 0) for op in range(3)]
    + [j("h_nary", 2, 2, op, 3, 1, a) for op in range(3) for a in (1, 9)] + [j("h_nary", 2, 2, op, 3, 2, a, b) for op in range(3) for (a, b) in ((0, 5), (4, 2), (6, 1), (8, 10), (11, 9), (12, 13), (14, 3), (15, 15))]
    + [j("h_trie", 2, 4, 3, 2, 3, 2, 0), j("h_trie", 2, 3, 3, 1, 2, 2, 1), j("h_trie", 2, 4, 4, 1, 2, 3, 3, 0), j("h_trie", 2, 3, 3, 2, 2, 1, 2)]
    + wide(lambda t: j("h_deriv", t, 2, 0, 4, 0), (9, 17, 33, 65), (0, 1, 2, 5)) + many(lambda t, m: j("h_deriv", t, m + 1, 0, 2, 0), (9, 17)),
    [j("h_nary", 2, 3, op, 3, 1, a) for op in range(3) for a in range(16)]
    + [j("h_nary", 3, 2, op, 2, 1, a) for op in range(3) for a in range(16)]
    + [j("h_trie", 3, 4, 4, 2, 3, 2, 3, k) for k in range(3)]
    + [j("h_trie", 2, 5, 5, 1, 2, 3, 3, 4, k) for k in range(3)],
    {"h_nary": [0, 1], "h_trie": [0, 1], "h_deriv": [0, 1]},
    "n-ary union, intersection and concatenation of 2 or 3 arguments out of 16 forms (sets with symbolic members, their closures and bounded repeats, the unit and the zero, nested unions/intersections/concatenations, complements), in every order and with repetitions; unions of 3 or 4 literals of lengths 1 to 3 with symbolic letters; alphabet of 2 letters; words of length 2 to 4; unions, intersections and concatenations of 9 to 65 concrete members, words of length 2 or 4",
    "more arguments, larger alphabets (thorough: 3 letters)",
)
prop(
    "D03", "byteset-algebra",
    [j("h_bytesets", k, op, f, *p)
     for (k, p) in ((5, (0, 1, 2, 4)), (33, (0, 31, 32, 5)), (256, (0, 63, 128, 255)))
     for op in range(7) for f in ((0,) if k == 256 else (1, 2))],
    [j("h_bytesets", k, op, f, *p)
     for (k, p) in ((1, (0, 0, 0, 0)), (8, (0, 1, 6, 7)), (32, (0, 15, 30, 31)), (40, (0, 31, 32, 39)), (64, (31, 32, 62, 63)), (256, (0, 31, 32, 255)), (256, (64, 97, 128, 254)), (255, (0, 31, 32, 254)))
     for op in range(7) for f in range(4)],
    {"h_bytesets": [0, 1]},
    "alphabets of 5, 33 and 256 symbols; pairs of sets with symbolic membership of 4 symbols each, the rest all in or all out; every symbol",
    "sets whose other members are mixed (thorough: more alphabets and positions)",
)
# ---------------------------------------------------------------- derivatives, flags
prop(
    "D04", "derivatives",
    roots("h_deriv", (0, 2, 2, 2), 5) + roots("h_deriv", (1, 2, 1, 3), 4) + [j("h_deriv", 0, 3, 1, 2, 0)]
    + shapes(lambda t: j("h_deriv", t, 2, 0, 2 if t in (104, 105, 123, 130, 143) else 1 if t in (131, 132) else 3, 0), skip=(107,)) + [j("h_count", 0, *c) for c in COUNTS]
    + wide(lambda t: j("h_deriv", t, 2, 0, 4, 0), (9, 33, 65), (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 18)) + many(lambda t, m: j("h_deriv", t, m + 1, 0, 2, 0), (9, 17)) + wide(lambda t: j("h_deriv", t, 6, 0, 3, 0), (9, 17, 33), (19, 20)),
    shapes(lambda t: j("h_deriv", t, 2, 0, 4, 0)) + [j("h_count", 0, *c) for c in COUNTS2] + [j("h_deriv", 0, 2, 3, 2, 2, r, q) for r in range(5) for q in range(5)] + roots2("h_deriv", (2, 2, 2, 3), 6, 2) + roots("h_deriv", (0, 3, 2, 2), 5) + roots("h_deriv", (0, 2, 1, 5), 5),
    {"h_deriv": [0, 1], "h_count": [0, 1]},
    "every expression with exactly 2 operators over an alphabet of 2 letters (1 operator over 3), whose sets, and minimum and maximum repeat counts (all 32 bits), are symbolic; all words of length up to 2 (3); 24 counted repeats up to 257 over 8 bodies with words around their ends; some 80 further shapes with 3 to 8 operators; 18 families of 9 to 65 members",
    "more operators or letters, longer words",
)
prop(
    "D05", "nullable-positive",
    roots("h_flags", (0, 2, 2, 1, 4), 5) + roots("h_flags", (1, 2, 2, 0, 4), 4) + [j("h_flags", 0, 2, 1, 2, 3, 0)]
    + shapes(lambda t: j("h_flags", t, 2, 0, 1, 5, 0), skip=(107, 123, 132))
    + wide(lambda t: j("h_flags", t, 2, 0, 1, 5, 0)) + many(lambda t, m: j("h_flags", t, m + 1, 0, 1, 2, 0))
    + unary(2, 40, 1, params=UNARY[:2]),
    shapes(lambda t: j("h_flags", t, 2, 0, 2, 5, 0), skip=(123,)) + roots2("h_flags", (0, 2, 2, 2, 4), 5, 2) + roots2("h_flags", (2, 2, 2, 1, 4), 6, 2),
    {"h_flags": [0, 2, 3], "h_unary": [1]},
    "every expression with 2 operators over 2 letters with symbolic sets and repeat counts (minimum 0..2; maximum 0..2 or none), and its derivatives by every letter; witnesses of length up to 4; some 80 further shapes with 3 to 8 operators; 16 families of 6 to 33 members; lengths modulo two numbers",
    "larger repeat counts, deeper expressions",
)
prop(
    "D06", "emptiness",
    roots("h_empty", (0, 2, 2, 0, 4), 5) + [j("h_empty", 0, 2, 1, 2, 3, 0)] + roots("h_empty", (1, 2, 2, 0, 4), 4)
    + shapes(lambda t: j("h_empty", t, 2, 0, 1, 5, 0), skip=(104, 107, 123)) + [j("h_empty", t, 3, 0, 1, 4, 0) for t in (168, 169, 170, 172, 173)] + [j("h_empty", 185, 3, 0, 0, 3, 0)]
    + wide(lambda t: j("h_empty", t, 2, 0, 1, 5, 0)) + many(lambda t, m: j("h_empty", t, m + 1, 0, 1, 2, 0), (6, 12)) + wide(lambda t: j("h_empty", t, 6, 0, 1, 3, 0), (9,), (19, 20)) + [j("h_front", 0, *x) for x in FRONT + FRONT2]
    + unary(0, 40, 1) + unary(0, 0, 0, params=FAR),
    shapes(lambda t: j("h_empty", t, 2, 0, 2, 5, 0), skip=(123,)) + roots2("h_empty", (0, 2, 2, 1, 4), 5, 2) + roots2("h_empty", (0, 3, 2, 0, 4), 5, 2),
    {"h_empty": [0, 1], "h_unary": [0, 1], "h_front": [0, 1]},
    "every expression with 2 operators over 2 letters with symbolic sets and repeat counts (minimum 0..2; maximum 0..2 or none); also after reading every word of length 2 with the caches kept (1 operator); some 80 further shapes with 3 to 8 operators, also after every letter; searches of up to 200 branches; 16 families of 6 to 33 members; combinations of two periodic sets of lengths and a bound, with witnesses of up to some 1500 letters",
    "other emptiness that needs witnesses longer than 4, larger alphabets",
)
prop(
    "D07", "dead-states",
    roots("h_dead", (1, 0, 2, 1, 3), 7) + roots("h_dead", (1, 2, 1, 2, 4), 7) + [j("h_dead", 0, 0, 1, 0, 4, 0), j("h_dead", 1, 5, 1, 1, 3, 0)]
    + shapes(lambda t: j("h_dead", t, pl(t), 0, 1, 4 if t == 125 else 3, 0), no="r", skip=(176,))
    + wide(lambda t: j("h_dead", t, 6, 0, 1, 4, 0), (9, 17), no=(7,)) + many(lambda t, m: j("h_dead", t, 8, 0, 1, 2, 0), (9, 15), (9, 10, 11, 12, 13, 14, 15)) + [j("h_front", 1, *x) for x in FRONT + FRONT2]
    + unary(3, 40, 1) + unary(3, 0, 0, params=FAR),
    shapes(lambda t: j("h_dead", t, 0, 0, 2, 3, 0), no="r", skip=(125,)) + roots2("h_dead", (1, 0, 2, 2, 4), 7, 2) + roots("h_dead", (1, 1, 2, 1, 4), 7) + roots("h_dead", (1, 2, 2, 1, 3), 7),
    {"h_dead": [0, 1], "h_unary": [0, 1], "h_front": [0, 1]},
    "every regex with 2 operators (concatenation, union, intersection, complement, *, +, ?) over a pool of 3 byte sets, after every byte; 1 operator over 8 leaf kinds, after every 2 bytes; some 80 further shapes with 3 to 8 operators; 16 families of 9 to 17 members; periodic sets of lengths with witnesses of up to some 1500 letters; searches of up to 200 branches, before and after one or two letters; all next bytes from a dead state",
    "deeper regexes; longer words; repetition counts above 1 beyond one operator",
)
prop(
    "D08", "finite-derivatives",
    roots("h_finite", (0, 2, 2, 60), 5) + roots("h_finite", (2, 2, 2, 60), 6) + [j("h_finite", 2, 2, 3, 120, 2, k, 0) for k in (0, 1, 3, 4)]
    + shapes(lambda t: j("h_finite", t, 2, 0, 300, 0), skip=(104, 107, 123)) + [j("h_nary", 2, 1, op, 2, 0) for op in (0, 1)] + [j("h_nary", 2, 1, op, 3, 2, a, b) for op in (0, 1) for (a, b) in ((0, 5), (6, 1), (8, 10), (12, 13), (7, 11), (9, 14))]
    + wide(lambda t: j("h_finite", t, 2, 0, 300, 0), (9, 33, 65)) + many(lambda t, m: j("h_finite", t, m + 1, 0, 300, 0), (9, 33)),
    [j("h_finite", 2, 2, 3, 120, 1, k) for k in range(6)] + roots("h_finite", (2, 3, 2, 120), 6),
    {"h_finite": [1, 2], "h_nary": [0, 1]},
    "every expression with 2 operators over 2 letters with symbolic sets and repeat counts up to 2 has at most 60 derivatives; a part of those with 3 operators at most 120; some 80 further shapes, and 16 families of up to 65 members, at most 300; unions and intersections of 2 or 3 arguments out of 16 forms, reversed and with a repetition",
    "deeper expressions; repeat counts above 2",
)
# ---------------------------------------------------------------- questions about regexes
prop(
    "D09", "containment",
    [j("h_contain", 0, 3, 1, 0, 3, 0, 1, r) for r in range(6)] + [j("h_contain", 0, 3, 0, 1, 3, 0, 0)]
    + [j("h_contain", 1, 0, 1, 1, 3, 0, 1, r) for r in range(7)] + [j("h_contain", 1, 0, 0, 1, 3, 1, 0)]
    + [j("h_contain", 1, 6, a, b, 4, 1, 0) for (a, b) in CONT] + [j("h_contain", 1, 0, a, b, 4, 0, 0) for (a, b) in ((118, 117), (114, 115), (136, 138))]
    + [j("h_contain", 0, 3, a, b, 4, 1, 0) for (a, b) in ((118, 117), (115, 114))] + [j("h_contain", 0, 7, a, b, 4, 1, 0) for (a, b) in ((183, 180), (183, 182))]
    + [j("h_contain", 1, 7, a, b, 4, 1, 0) for (a, b) in ((181, 180), (181, 182), (183, 184), (183, 182))] + [j("h_contain", 1, 0, 187, 186, 3, 0, 0)]
    + [j("h_contain", 1, 0, a, b, 4, 0, 0) for (a, b) in ENDS] + [j("h_contain", 0, 3, a, b, 3, 0, 0) for (a, b) in ENDS if a < 200 or b > 201] + [j("h_front", 2, *x) for x in FRONT]
    + unary(4, 0, 0, params=UNARY + FAR) + unary(4, 0, 1, 0) + unary(4, 0, 1, 30, params=UNARY[:2] + UNARY[4:]),
    [j("h_contain", 0, 3, 1, 1, 3, 0, 2, r, s) for r in range(6) for s in range(4)]
    + [j("h_contain", 1, 0, 2, 0, 4, 0, 2, r, 0) for r in range(7)]
    + [j("h_contain", 1, 2, 1, 1, 3, 1, 2, r, s) for r in range(7) for s in range(3)],
    {"h_contain": [1, 2], "h_unary": [0, 1, 2], "h_front": [0, 1]},
    "pairs of regexes with one operator each, as patterns and as trees; every byte string of length up to 3 as a counterexample to containment; every fuel limit (64 bits, part); some 25 pairs of larger regexes, most of them contained, some with ends or beginnings in common; 160 pairs of periodic sets of lengths; pairs of unions of up to 200 branches",
    "larger regexes; counterexamples longer than 3",
)
prop(
    "D10", "fuel",
    roots("h_plenty", (1, 0, 1, 0), 7) + [j("h_plenty", t, 6, 0, 0, 0) for t in (125, 129, 136, 139, 155, 165)]
    + roots("h_fuel", (0, 2, 1, 4), 5) + [j("h_fuel", 0, 2, 2, 4, 3, 2, 0, 4), j("h_fuel", 0, 2, 3, 4, 4, 2, 1, 0, 0)] + roots("h_limited", (1, 0, 1, 2), 7)
    + [j("h_bounded", 10, 0)] + [j("h_bounded", n, 1) for n in (10, 20, 40)] + [j("h_fuel", t, 2, 0, 5, 0) for t in (100, 101, 103, 109, 126, 127, 128, 129, 133, 136, 139, 144, 155, 169)] + [j("h_limited", t, 6, 0, 2, 0) for t in (125, 129, 136, 165)]
    + wide(lambda t: j("h_fuel", t, 2, 0, 5, 0), (9, 17), no=(7,)) + wide(lambda t: j("h_plenty", t, 6, 0, 0, 0), (33,), (0, 1, 7, 8)) + [j("h_front", 3, *x) for x in ((9, 6, 0, 8, 1, 0), (24, 6, 11, 1, 1, 0))]
    + unary(1, 9, 1, 0, params=UNARY[:2] + UNARY[4:]) + unary(1, 9, 1, 30, params=UNARY[4:]),
    roots2("h_fuel", (0, 2, 2, 4), 5, 2) + roots("h_limited", (1, 0, 2, 2), 7) + [j("h_bounded", n, 1) for n in (60, 100)] + shapes(lambda t: j("h_fuel", t, 2, 0, 5, 0), skip=(104, 107, 123)),
    {"h_fuel": [1, 2, 3], "h_limited": [1, 2], "h_bounded": [1, 2], "h_plenty": [0, 1], "h_unary": [0, 1, 2], "h_front": [0, 1, 2]},
    "every pair of fuel limits (64 bits); limits around and above 2^31 (7 values and 256 near the maximum) that may not be used up; expressions with 1 operator over 2 letters (some with 2), 14 larger shapes, regexes with 1 operator and 4 larger ones; work bound on chains of up to 40 steps; 18 families of 9 to 33 members; periodic sets of lengths; searches of 9 and 24 branches",
    "other shapes of search",
)
prop(
    "D11", "next-byte",
    roots("h_next", (1, 0, 2, 0, 3), 7) + roots("h_next", (1, 2, 1, 1, 3), 7)
    + roots("h_next_raw", (2, 2, 1, 1, 3), 6) + [j("h_next_raw", 2, 2, 2, 0, 4, 1, r) for r in range(6)] + [j("h_nblattice"), j("h_next", 0, 1, 1, 2, 3, 1, 0), j("h_next", 1, 5, 1, 1, 3, 0)]
    + shapes(lambda t: j("h_next_raw", t, 2, 0, 1, 4, 0), skip=(104, 107, 123, 132))
    + shapes(lambda t: j("h_next", t, max(pl(t), 6), 0, 1, 4 if t == 125 else 3, 0), no="r")
    + wide(lambda t: j("h_next_raw", t, 2, 0, 1, 5, 0), (9, 33), no=((7, 33),)) + many(lambda t, m: j("h_next_raw", t, m + 1, 0, 1, 2, 0), (9,)) + wide(lambda t: j("h_next", t, 6, 0, 1, 4, 0), (9,), no=(7,)) + many(lambda t, m: j("h_next", t, 8, 0, 1, 2, 0), (9, 15), (9, 10, 11, 12, 13, 14, 15)) + wide(lambda t: j("h_next_raw", t, 6, 0, 1, 3, 0), (9, 17), (19, 20))
    + unary(2, 40, 1) + unary(2, 300, 1, params=FAR),
    roots2("h_next", (1, 0, 2, 1, 3), 7, 2) + roots("h_next", (0, 2, 1, 2, 4), 8)
    + roots2("h_next_raw", (2, 2, 2, 1, 4), 6, 2) + [j("h_nblattice")],
    {"h_next": [1, 2, 3, 4], "h_next_raw": [1, 2, 4], "h_nblattice": [1], "h_unary": [1]},
    "every regex with 2 operators over 3 byte sets at its start, with 1 operator over 9 kinds of leaf after every byte; every next byte; continuations up to 3 bytes; some 80 further shapes, at their start and after every letter; families of 9 to 33 members; periodic sets of lengths; all pairs of results for & and |",
    "longer words, deeper regexes",
)
prop(
    "D12", "lookahead",
    [j("h_look", 0, 0, 1, 1, 3, 1, r) for r in range(7)] + [j("h_look", 1, 3, 1, 0, 3, 0), j("h_look", 1, 3, 0, 1, 3, 0)]
    + [j("h_look", 2, 0, 0, 1, 3, 0), j("h_look", 3, 0, 0, 1, 3, 0)]
    + [j("h_look", k, 6, a, b, 4, 0) for k in (0, 2, 3) for (a, b) in LOOK + ((163, 160), (161, 163))]
    + [j("h_look", k, 0, 160, 161, 4, 0) for k in (0, 3)]
    + [j("h_lookraw", k, 2, a, b, 4 - k, 0) for k in (0, 1) for (a, b) in LOOK] + roots("h_lookraw", (0, 2, 1, 1, 2), 7)
    + [j("h_long", 0, k, *x) for k in range(3) for x in LONGLOOK],
    [j("h_look", 0, 0, 1, 1, 4, 1, r) for r in range(7)] + [j("h_look", 1, 3, 1, 1, 3, 1, r) for r in range(6)]
    + [j("h_look", 2, 0, 1, 1, 3, 1, r) for r in range(7)] + [j("h_look", 3, 0, 1, 1, 3, 1, r) for r in range(7)],
    {"h_look": [0, 1, 2, 3], "h_lookraw": [0, 1, 2, 3], "h_long": [0, 1]},
    "A followed by a final look-ahead B, each with up to one operator over 3 byte sets, as trees and as (?P<stop>) patterns; also alternatives sharing a look-ahead; every byte string of length up to 3; larger A and B (loops, alternatives of different lengths) with length up to 4, over byte sets and over symbolic sets; counted A and B with rests of up to 300 letters",
    "several different look-aheads in one regex; longer words",
)
prop(
    "D13", "prefixes",
    roots("h_pref", (1, 2, 1, 2, 3), 4) + [j("h_pref", 1, 2, 2, 1, 4, 1, r) for r in range(4)]
    + [j("h_pref", 0, 2, 1, 1, 3, 1, r) for r in (2, 3)] + roots("h_pref", (0, 2, 2, 1, 4), 6)
    + shapes(lambda t: j("h_pref", t, 2, 0, 1, 4, 0), skip=(104, 107, 122, 123))
    + wide(lambda t: j("h_pref", t, 2, 0, 1, 5, 0), (9, 17, 33), (0, 2, 5, 8, 16, 17)) + many(lambda t, m: j("h_pref", t, m + 1, 0, 1, 2, 0), (6, 12), (9, 11, 12, 14)),
    roots2("h_pref", (1, 2, 2, 2, 4), 4, 2) + [j("h_pref", 0, 2, 2, 1, 4, 1, r) for r in range(5)],
    {"h_pref": [0, 1]},
    "prefixes of every expression with 2 operators over 2 letters with symbolic sets and repeat counts (minimum 0..2; maximum 0..2 or none) against all continuations of length up to 3; expressions with intersection or complement: no wrong prefix is accepted, and the listed known findings; some 80 further shapes; families of 6 to 33 members",
    "deeper expressions",
)
# ---------------------------------------------------------------- histories
prop(
    "D14", "history-independence",
    [j("h_history", 1, 0, 1, 2, 2, sc, 1, r) for sc in range(5) for r in range(7)]
    + [j("h_history", 0, 0, 2, 2, 1, sc, 2, r, 0) for sc in (0, 1) for r in (0, 2)]
    + [j("h_shared", 0, 2, 1, 0, 2, 1, r) for r in range(5)]
    + [j("h_shared", 0, 2, 1, 1, 1, 2, r, s) for r in range(5) for s in range(5)]
    + [j("h_history", t, 6, 0, 2, 2, sc, 0) for t in (100, 103, 106, 108, 116, 124, 125, 136, 138, 139, 145, 155) for sc in range(5)]
    + [j("h_shared", 0, 2, 100 + a, 100 + b, 1, 0) for (a, b) in ((36, 38), (55, 36))] + [j("h_shared", 0, 2, a, 0, 1, 0) for a in (165, 166, 167, 168, 169, 175, 100, 101)]
    + [j("h_busy", t, 6, 0, 2, 50, 0) for t in (108, 116, 125, 136, 139, 155, 165)],
    [j("h_history", 1, 0, 1, 3, 3, sc, 1, r) for sc in range(5) for r in range(7)]
    + [j("h_history", 1, 0, 2, 2, 2, sc, 1, r) for sc in range(5) for r in range(7)]
    + [j("h_shared", 0, 2, 1, 1, 2, 2, r, s) for r in range(5) for s in range(5)],
    {"h_history": [0, 1], "h_shared": [0, 1, 2, 3], "h_busy": [0, 1]},
    "two arbitrary words of length 2 asked in five kinds of history (other queries first, clones, in pieces, comparison of state names, a builder shared with other regexes) of regexes with one operator over 3 byte sets; two expressions sharing every cache; a dozen larger regexes; seven of them after thousands of other transitions",
    "histories with more than two words; concurrent use",
)
prop(
    "D15", "dfa-export",
    roots("h_dfa", (1, 0, 1, 3), 7) + [j("h_dfa", 1, 0, 2, 2, 2, r, 0) for r in range(7)] + roots("h_dfa", (1, 2, 1, 2), 7)
    + [j("h_dfa", 0, 5, 1, 3, 0)] + shapes(lambda t: j("h_dfa", t, 6, 0, 3, 0), no="r")
    + [j("h_dfabig", 0, s, p, 2, r) for (s, p, r) in ((30, 28, 0), (128, 126, 0), (200, 130, 0), (248, 246, 0), (249, 247, 1), (256, 254, 1), (260, 250, 1), (300, 298, 1))]
    + [j("h_dfabig", 1, s, p, 2, 0, a) for (s, p, a) in ((60, 58, 3), (60, 40, 2), (40, 3, 1), (61, 59, 0))]
    + [j("h_dfabig", 2, s, p, 2 if s < 100 else 1, 0) for (s, p) in ((70, 69), (100, 99), (140, 131), (230, 229))]
    + [j("h_dfabig", 3, 30, p, 2, 0, a) for (p, a) in ((28, 7), (0, 0), (15, 4))]
    + wide(lambda t: j("h_dfa", t, 6, 0, 3, 0), (9, 33)) + many(lambda t, m: j("h_dfa", t, 8, 0, 2, 0), (6, 15)) + wide(lambda t: j("h_dfa", t, 8, 0, 1, 0), (9, 17, 33), (19, 20)),
    roots("h_dfa", (1, 0, 2, 3), 7) + roots("h_dfa", (0, 1, 1, 4), 8),
    {"h_dfa": [0, 1], "h_dfabig": [0, 1, 90]},
    "the exported table of every regex with one operator over 3 byte sets (some with two), walked along every byte string of length up to 3 (2); byte sets with the extreme bytes; some 80 larger shapes; regexes with up to 250 states and 230 classes, walked to a given depth and then along every pair of bytes; larger ones may be refused",
    "other regexes with many states",
)
# ---------------------------------------------------------------- alphabets
prop(
    "D16", "alphabet-compression",
    [j("h_alpha", 2, 0, 2, 0, 97, 255), j("h_alpha", 2, 1, 2, 31, 32, 128), j("h_alpha", 3, 1, 2, 0, 97, 255), j("h_alpha", 4, 0, 2, 7, 8, 200),
     j("h_manysets", 63, 0, 2), j("h_manysets", 64, 0, 2), j("h_manysets", 65, 0, 2), j("h_manysets", 130, 0, 2), j("h_manysets", 250, 0, 1)]
    + [j("h_manysets", m, 1, p) for (m, p) in ((31, 0), (32, 30), (33, 31), (63, 61), (64, 0), (64, 62), (65, 0), (65, 63), (66, 64), (96, 94), (97, 0), (128, 62), (129, 127), (140, 63), (140, 130), (200, 160))],
    [j("h_alpha", 3, 0, 3, a, b, c) for (a, b, c) in ((0, 97, 255), (31, 32, 63), (128, 129, 254), (64, 10, 13))]
    + [j("h_alpha", 4, 1, 2, a, b, c) for (a, b, c) in ((0, 97, 255), (31, 32, 63))]
    + [j("h_manysets", m, 0, 2) for m in range(60, 140, 5)] + [j("h_manysets", m, 0, 3) for m in (20, 64, 65)] + [j("h_manysets", 256, 0, 2)],
    {"h_alpha": [0, 1, 3], "h_manysets": [0, 1]},
    "regexes over 2 to 4 byte sets, each with symbolic membership of 3 bytes at given positions (other members fixed in four patterns), and regexes with 63 to 256 separate byte sets; all words of length 2; sequences of exactly 31 to 200 byte sets with two symbolic bytes",
    "other backgrounds of the sets",
)
prop(
    "D17", "shared-alphabet",
    [j("h_multi", 0, 1, 1, 1, r) for r in range(5)] + [j("h_multi", 2, 0, 2, 0), j("h_multi", 0, 1, 2, 2, 0, 0)]
    + [j("h_long", 1, *x) for x in ((20, 2, 0), (20, 2, 13), (70, 1, 11), (130, 1, 64), (260, 1, 129))],
    [j("h_multi", 0, 1, 2, 1, r) for r in range(5)] + [j("h_multi", 1, 1, 1, 1, r) for r in range(5)],
    {"h_multi": [0, 1], "h_long": [0, 1]},
    "three regexes compressed together, two of them arbitrary with one operator over 3 byte sets; every byte string of length 1 (2); 20 to 260 regexes together, each twice",
    "other lists",
)
# ---------------------------------------------------------------- hash-consing
prop(
    "D18", "hash-consing",
    [j("h_cons", 3, 2, 2, 32, 0, 0), j("h_cons", 3, 2, 0, 2, 0, 0), j("h_cons", 2, 2, 1, 1, 6, 0), j("h_cons", 2, 2, 2, 32, 40, 2, 2, 1), j("h_cons", 1, 3, 2, 32, 140, 0), j("h_cons", 2, 2, 2, 32, 70, 2, 2, 2)]
    + [j("h_conslong", la, lb, m, *p) for (m, la, lb, p) in ((0, 70, 70, (3, 66, 69)), (2, 70, 70, (3, 66, 69)), (0, 65, 64, (62, 63, 64)), (2, 65, 64, (0, 63, 64)), (0, 300, 300, (255, 256, 299)), (2, 300, 299, (0, 150, 298)),
       (0, 300, 299, (297, 298, 299)), (0, 33, 33, (30, 31, 32)), (2, 33, 33, (0, 31, 32)), (2, 17, 17, (15, 16, 0)), (0, 17, 17, (14, 15, 16)), (1, 17, 17, (14, 15, 16)), (1, 33, 33, (30, 31, 32)), (0, 1000, 1000, (500, 998, 999)), (2, 1000, 1000, (0, 500, 999)))],
    [j("h_cons", 4, 2, 2, 32, 20, 2, l, 0) for l in range(3)] + [j("h_cons", 4, 1, 2, 32, 300, 0), j("h_cons", 3, 2, 1, 2, 6, 2, 2, 0)],
    {"h_cons": [1, 2], "h_conslong": [0, 1]},
    "3 insertions of vectors of 0 to 2 arbitrary 32-bit words in all three ways of inserting, into tables holding 0, 6, 40 or 140 vectors; three hash functions, with few, some and only collisions; pairs of vectors of up to 1000 words with three arbitrary words each",
    "longer vectors; memory exhaustion (2^32 words)",
)
# ---------------------------------------------------------------- front ends
prop(
    "D19", "json-quote",
    [j("h_json", 0, 0, 6, 1, 255, 0), j("h_json", 0, 0, 2, 1, 255, 0), j("h_json", 0, 0, 1, 1, 255, 0), j("h_json", 0, 0, 8, 0, 1, 0), j("h_json", 0, 0, 4, 0, 0, 0),
     j("h_json", 2, 1, 3, 1, 1, 0), j("h_json", 1, 1, 7, 1, 1, 1, 0), j("h_jsonerr"), j("h_api", 6)]
    + [j("h_jsonset", n, e, f, *p) for (n, e) in ((6, 1), (2, 1), (2, 0), (1, 8)) for (f, p) in ((1, (10, 34, 92, 127)), (2, (0, 10, 31, 13)), (3, (10, 34, 92, 127)), (0, (10, 27, 8, 65)))],
    [j("h_json", 0, 0, n, 1, 255, 0) for n in range(1, 8)] + [j("h_json", 2, 1, n, 1, e, 1, r) for n in (4, 6, 7) for e in (0, 1) for r in (0, 1, 3)]
    + [j("h_json", 0, 0, n, 0, 255, 0) for n in (2, 3, 4, 8)] + [j("h_jsonerr")]
    + [j("h_jsonset", n, e, f, *p) for n in (1, 2, 6) for e in range(11) for f in range(4) for p in ((10, 34, 92, 127), (0, 10, 31, 13), (8, 9, 12, 64))],
    {"h_json": [0, 1], "h_jsonset": [0, 1], "h_jsonerr": [0, 1, 2, 3, 4, 5], "h_api": [0, 1]},
    "quotations of 16 byte sets under 11 sets of allowed escapes against every byte string of length 1, 2 and 6 (8 with quotes); of byte sets with symbolic membership of 4 chosen bytes; of expressions with one operator",
    "unlisted sets of allowed escapes; longer strings",
)
prop(
    "D20", "regex-syntax",
    roots("h_syntax", (3, 2, 2), 9) + [j("h_opts", n, 0) for n in (0, 1, 2, 3)] + [j("h_syntax", 3, 1, 4, 0)],
    roots("h_syntax", (3, 2, 4), 9) + roots2("h_syntax", (3, 3, 2), 9, 3) + [j("h_opts", n, 0) for n in (4, 5)],
    {"h_syntax": [0, 1], "h_opts": [0, 1, 2]},
    "every pattern with 2 operators out of 9 over 4 ASCII leaves against every byte string of length 2; 60 further patterns and option settings against every byte string of length up to 3",
    "patterns outside these forms (the parser itself is the regex-syntax crate)",
)
prop(
    "D21", "utf8",
    [j("h_utf8", 0, 0, n, 0) for n in (1, 2, 3, 4, 5)] + [j("h_utf8", 1, 1, 4, 0), j("h_utf8", 1, 2, 3, 0), j("h_utf8", 2, 3, 3, 0), j("h_utf8", 0, 4, 5, 0), j("h_utf8", 2, 5, 4, 0), j("h_utf8", 2, 6, 2, 0)] + [j("h_utf8r", k, a, b, n, d) for (k, a, b, n, d) in UTF8R]
    + [j("h_long", 4, *x) for x in ((128, 37, 2, 40, 2, 0), (128, 2, 1, 60, 2, 0), (2048, 67, 3, 60, 3, 0), (65536, 130, 70, 40, 4, 0), (32, 5, 2, 70, 2, 0), (32, 5, 2, 70, 3, 1), (55000, 300, 150, 30, 3, 0))],
    [j("h_utf8", 1, 1, n, 0) for n in (5, 6, 8)] + [j("h_utf8", 1, 2, n, 0) for n in (4, 5, 6)] + [j("h_utf8", 2, 3, n, 0) for n in (4, 5)] + [j("h_utf8", 0, 4, n, 0) for n in (6, 7, 8)] + [j("h_utf8", 2, 5, 5, 0), j("h_utf8", 2, 6, 4, 0)] + [j("h_utf8r", 1, a, b, n, 3) for (k, a, b, n, d) in UTF8R for n in (n, n + 1)],
    {"h_utf8": [0, 1], "h_utf8r": [0, 1], "h_long": [0, 1]},
    "16 unions of ranges of scalar values at every boundary of the UTF-8 encoding, alone, repeated, in sequences, unions, complements and intersections; every byte string of the lengths 1 to 5; 20 ranges whose two ends vary by up to 2 (3) around boundaries of the encoding; classes of 30 to 70 ranges",
    "other ranges; longer strings",
)
prop(
    "D22", "builder-checks",
    [j("h_builder"), j("h_opts", 0, 0)],
    [j("h_builder"), j("h_opts", 1, 0)],
    {"h_builder": [0, 1, 2, 3, 4]},
    "every 32-bit reference value outside the middle of the table, byte sets of 0 to 19 words, unparsable and unsupported patterns",
    "",
)
prop(
    "D23", "forced-prefix",
    [j("h_forced", 0, 1, 2, 3, 0), j("h_forced", 1, 1, 2, 3, 0), j("h_forced", 2, 1, 1, 2, 0), j("h_forced", 0, 2, 2, 2, 1, 5), j("h_forced", 2, 2, 1, 2, 1, 0), j("h_forced", 0, 0, 1, 1, 0), j("h_forced", 0, 0, 0, 1, 0), j("h_forced", 0, 1, 3, 3, 1, 0), j("h_forced", 0, 1, 3, 3, 1, 5), j("h_forced", 0, 1, 4, 4, 1, 5), j("h_forced", 1, 1, 3, 2, 1, 0)]
    + [j("h_long", 3, k, *x) for k in range(5) for x in ((40, 20, 0, 19), (40, 40, 39, 38), (40, 41, 40, 3), (40, 39, 38, 20), (33, 32, 31, 16), (100, 64, 63, 17), (100, 17, 16, 8), (9, 8, 7, 4), (5, 4, 3, 2))],
    [j("h_forced", p, 2, m, 3, 1, r) for p in (0, 1) for m in (1, 2, 3) for r in range(6)],
    {"h_forced": [1, 2], "h_long": [1, 2]},
    "expressions with up to 2 operators, every string of 2 bytes as the prefix, every byte string of length 3; beginnings of 5 to 100 bytes, two of them symbolic",
    "other long prefixes",
)
prop(
    "D24", "tree-mapping",
    [j("h_mapast", n, 0) for n in (1, 2, 3, 4, 5, 6)]
    + [j("h_long", 2, k, n) for k in range(4) for n in (40, 100, 200, 300)],
    [j("h_mapast", n, 0) for n in (7, 8)],
    {"h_mapast": [1, 2], "h_long": [1, 2]},
    "every tree of up to 6 nodes with symbolic labels, failing at a symbolic label; wide, deep, mixed and balanced trees of 40 to 600 nodes",
    "other larger trees",
)
prop(
    "D25", "large-structures",
    [j("h_big", 0, 120, n, a) for (n, a) in ((3, 0), (60, 57), (104, 101), (121, 118), (122, 119))]
    + [j("h_big", 1, 110, n, a) for (n, a) in ((50, 47), (105, 102), (112, 109))]
    + [j("h_big", 2, s, n, a) for (s, n, a) in ((50, 50, 20), (50, 52, 49), (50, 53, 50), (50, 49, 3), (1000, 40, 2), (300, 301, 299))]
    + [j("h_big", 3, 200, n, a) for (n, a) in ((100, 50), (200, 197), (201, 0))]
    + [j("h_big", 4, s, n, a) for (s, n, a) in ((30, 30, 10), (31, 30, 0), (31, 31, 28), (200, 3, 0))]
    + [j("h_big", 5, 40, n, a) for (n, a) in ((20, 17), (40, 37), (1, 0))]
    + [j("h_big", 6, 120, n, n - 2) for n in (98, 99, 100, 101, 102, 103, 119, 120, 121)]
    + [j("h_big", 7, s, s + 2 + x, s - 1) for s in (30, 98, 99, 100, 101, 120) for x in (0, 1)]
    + [j("h_deep", k, s, n) for (k, s, n) in ((0, 600, 0), (0, 300, 1), (1, 1000, 1), (1, 700, 2), (2, 1000, 1), (2, 700, 2), (3, 300, 1), (3, 200, 2), (4, 700, 1), (4, 500, 2))]
    + [j("h_big", 2, s, n, 0) for (s, n) in ((65534, 3), (65538, 2), (1 << 24, 3), (0xffff0000, 1))],
    [j("h_big", 0, 300, n, a) for (n, a) in ((3, 0), (160, 157), (300, 297), (301, 298))]
    + [j("h_big", 1, 250, n, a) for (n, a) in ((150, 147), (105, 102), (250, 247))]
    + [j("h_big", 2, s, n, a) for (s, n, a) in ((1000, 1000, 500), (1000, 1002, 999), (1000, 1003, 1000))]
    + [j("h_big", 3, 2000, n, a) for (n, a) in ((100, 50), (1000, 997))]
    + [j("h_big", 5, 100, n, a) for (n, a) in ((80, 77), (100, 97))],
    {"h_big": [0, 1], "h_deep": [0, 1]},
    "five nestings and prefix trees 200 to 1000 levels deep within 150 (400) stack frames, words of length up to 2; unions of up to 220 literals sharing prefixes of up to 120 bytes, repeats up to 1000, nestings 200 deep, unions of 40 classes; long words with 3 symbolic bytes at chosen places",
    "larger sizes",
)
prop(
    "D26", "printing",
    [j("h_print", 0, k, f, *p) for (k, f, p) in ((256, 0, (0, 97, 128, 255)), (256, 1, (0, 97, 128, 255)), (256, 0, (31, 32, 126, 127)), (256, 1, (39, 45, 59, 92)), (256, 0, (48, 65, 95, 115)), (100, 0, (1, 50, 98, 99)), (100, 1, (0, 31, 32, 99)),
       (5, 1, (0, 1, 2, 4)), (1, 0, (0, 0, 0, 0)), (32, 0, (0, 1, 30, 31)), (33, 1, (0, 31, 32, 32)), (224, 0, (0, 1, 222, 223)))]
    + [j("h_print", k, pool, o, n, l, 0) for (k, pool, o, n, l) in ((1, 0, 1, 2, 120), (1, 2, 1, 2, 0), (1, 5, 1, 2, 0), (1, 4, 1, 2, 60), (2, 0, 1, 2, 0), (2, 2, 1, 2, 0), (2, 5, 1, 2, 0), (3, 0, 1, 0, 200), (3, 4, 1, 0, 0), (3, 5, 1, 0, 120))]
    + [j("h_print", 1, 0, 2, 2, 0, 1, r) for r in range(9)] + [j("h_print", 2, 0, 2, 2, 0, 1, r) for r in (0, 1, 2, 3)]
    + [j("h_print", k, 6, t, 3, 100, 0) for k in (1, 2) for t in (188, 189)] + shapes(lambda t: j("h_print", 1, pl(t), t, 3, 100, 0), no="r", skip=(104, 107, 123)) + shapes(lambda t: j("h_print", 2, pl(t), t, 2, 0, 0), no="r", skip=(104, 107, 123))
    + wide(lambda t: j("h_print", 1, 6, t, 4, 100, 0), (5,)) + many(lambda t, m: j("h_print", 1, 8, t, 2, 100, 0), (6,)) + many(lambda t, m: j("h_print", 2, 8, t, 2, 0, 0), (6,)),
    [j("h_print", 2, 0, 2, 2, 0, 1, r) for r in range(9)] + [j("h_print", 1, 2, 2, 2, 100, 1, r) for r in range(9)],
    {"h_print": [1, 2, 3, 4]},
    "byte sets over alphabets of 1 to 256 symbols with 4 members undetermined; every expression with up to 2 operators and some 70 further shapes, before and after compression, and every limit below 100 to 200; printed forms are read back and compared on every byte string of length 2 or 3",
    "output beyond 1024 bytes, other alphabets",
)
prop(
    "D28", "entry-points",
    [j("h_api", 0, 3, 1, 3, 0)] + roots("h_api", (0, 3, 2, 2), len("cosqpr23")) + [j("h_api", 7, 3, a, b, 0) for (a, b) in ((1, 0), (0, 1))] + roots("h_api", (7, 3, 1, 1), 8)
    + roots("h_api", (1, 0, 1, 3), 7) + roots("h_api", (1, 0, 2, 2), 7) + [j("h_api", 1, 2, 1, 2, 0), j("h_api", 1, 1, 1, 3, 0)] + shapes(lambda t: j("h_api", 1, pl(t), t, 3, 0), no="r", skip=(104, 107, 123))
    + [j("h_api", 2, 0, 1, 0), j("h_api", 2, 5, 1, 0), j("h_api", 2, 2, 1, 0)] + roots("h_api", (2, 0, 2), 5)
    + [j("h_api", 3, *x) for x in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 2, 0), (2, 2, 0), (2, 2, 1), (3, 3, 1), (4, 4, 2), (10, 10, 5), (100, 2, 9), (101, 3, 9), (102, 4, 9), (103, 3, 0), (104, 2, 9), (105, 1, 9))]
    + [j("h_api", 4), j("h_look", 0, 6, 160, 161, 4, 0)]
    + wide(lambda t: j("h_api", 1, 6, t, 4, 0), (9, 33)) + many(lambda t, m: j("h_api", 1, 8, t, 2, 0), (9,)) + wide(lambda t: j("h_api", 1, 8, t, 3, 0), (9, 33), (19, 20)),
    [j("h_api", 0, 3, 2, 3, 1, r) for r in range(8)] + [j("h_api", 1, 2, 2, 2, 1, r) for r in range(7)] + [j("h_api", 1, 0, 2, 3, 1, r) for r in range(7)] + [j("h_api", 2, 2, 2, 1, r) for r in range(5)],
    {"h_api": [0, 1, 2]},
    "regexes with up to 2 operators over 3 or 4 leaves and some 75 further shapes, every string of up to 3 bytes; literals of up to 10 characters with one symbolic; every state number, every pair of bytes",
    "other regexes, longer strings",
)
prop(
    "D29", "accounting",
    roots("h_api", (5, 0, 1, 3), 7) + roots("h_api", (5, 0, 2, 2), 7) + [j("h_api", 5, 2, 1, 2, 0)] + shapes(lambda t: j("h_api", 5, pl(t), t, 4, 0), no="r", skip=(104, 107, 123))
    + roots("h_costs", (0, 2, 2, 2), 5) + [j("h_costs", 0, 3, 1, 2, 0)] + roots("h_costs", (1, 2, 1, 3), 4) + shapes(lambda t: j("h_costs", t, 2, 0, 2, 0), skip=(104, 107, 123))
    + wide(lambda t: j("h_api", 5, 6, t, 4, 0), (9, 33)) + many(lambda t, m: j("h_api", 5, 8, t, 2, 0), (9,)) + wide(lambda t: j("h_costs", t, 2, 0, 2, 0), (9, 33)) + wide(lambda t: j("h_api", 5, 8, t, 3, 0), (9, 33), (19, 20)),
    [j("h_api", 5, 2, 2, 2, 1, r) for r in range(7)] + shapes(lambda t: j("h_api", 5, 0, t, 5, 0), no="r", skip=(104, 107, 123)),
    {"h_api": [0, 1], "h_costs": [0, 1]},
    "regexes with up to 2 operators over 3 byte sets and some 75 further shapes, along every string of 2 to 4 bytes; every expression with 2 operators over 2 letters with symbolic sets and repeat counts (minimum 0..2; maximum 0..2 or none) and some 80 shapes, along every word of length 2",
    "longer histories; the accuracy of the estimates",
)
prop(
    "D27", "no-compression",
    roots("h_match", (0, 1, 3), 9) + roots("h_match", (5, 1, 3), 9) + roots("h_match", (4, 1, 2), 9)
    + [j("h_dead", 1, 0, 1, 1, 3, 0), j("h_next", 1, 0, 1, 1, 3, 0), j("h_next", 1, 5, 1, 1, 3, 0), j("h_dfa", 1, 0, 1, 2, 0), j("h_dfa", 1, 5, 1, 2, 0)]
    + [j("h_history", 1, 0, 1, 1, 0, sc, 1, r) for sc in range(5) for r in (0, 4)] + [j("h_multi", 6, 1, 1, 1, r) for r in (3, 4)]
    + [j("h_look", k, 6, a, b, 2, 0) for k in (0, 2, 3) for (a, b) in LOOK[:2]] + [j("h_contain", 1, 0, 1, 0, 2, 0, 1, r) for r in range(7)]
    + [j("h_match", pl(t), t, 2, 0) for t in (100, 101, 105, 110, 112, 115, 118, 120, 125, 134, 139, 147, 149, 153, 156, 157, 159, 165, 166, 168, 171, 174, 180, 182, 184, 186)],
    roots("h_match", (4, 2, 2), 9) + roots("h_match", (6, 2, 2), 9) + shapes(lambda t: j("h_match", pl(t), t, 2, 0), no="r", skip=(104, 107, 123)),
    {"h_match": [1, 2], "h_dead": [0, 1], "h_next": [1, 2, 3, 4], "h_dfa": [0, 1], "h_history": [0, 1], "h_multi": [0, 1], "h_look": [0, 2], "h_contain": [1, 2]},
    "the crate built without its feature `compress`: matching, dead states, next bytes, export, histories, look-ahead and containment for regexes with one operator and 26 shapes; all last bytes, the bytes before them out of five letters",
    "other bytes before the last one; what does not depend on the feature is left to the other properties",
    variant="nocompress",
)
