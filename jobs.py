"""Which harness runs decide which property, with which bounds."""

MAX = 0x10FFFF
NO = 1 << 31
CATS = "Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu".split()
ALL = (1 << 30) - 1
V = range(11)
NEW, OLD = 10, 0


def m(names):
    return sum(1 << CATS.index(x) for x in names.split())


class Job:
    """One symbolic run. `need`: marks at least one of its paths has to reach."""

    def __init__(self, feature, name, args, need, text):
        self.feature, self.name, self.need, self.text = feature, name, need, text
        self.args = (list(args) + [0, 0, 0, 0])[:4]

    def line(self):
        return " ".join([self.name] + [str(a) for a in self.args])


# ---- h_query -------------------------------------------------------------------------


def q(v, inc, exc, lo=0, hi=MAX, mn=0, mx=0, i=(), e=(), w=0, shape=0, split=0, big=0, free=0, text=""):
    i, e = (list(i) + [0, 0])[:2], (list(e) + [0, 0])[:2]
    d = mn | mx << 2 | i[0] << 4 | i[1] << 8 | e[0] << 12 | e[1] << 16 | w << 20 | shape << 44 | split << 45 | big << 46 | free << 47
    need = [1] if shape else [1, 50]
    return Job("query", "h_query", [v | lo << 8 | hi << 32, inc, exc, d], need, text or "query")


LARGE = "Ll Lu Mn Nd Lo Sm Lm Mc No Po So Cn"
SMALL = "Pe Pc Cc Sc Pd Me Pf Cf Pi Nl Zl Sk Ps Zp Co Zs Cs Lt"


def queries(shape, thorough):
    """C01 and C02: the members and the shape of the answers."""
    out = []

    def add(*a, **k):
        out.append(q(*a, shape=shape, **k))

    versions = list(V)
    # One category, both bounds symbolic over the whole code space.
    for v in V:
        for c in SMALL.split():
            add(v, m(c), NO, mn=1, mx=1, big=1, text=f"{c}, both bounds symbolic, max >= 256")
    # Long tables: one bound symbolic over everything, both in windows.
    for v in V:
        for c in LARGE.split():
            if thorough or v in (NEW, OLD):
                add(v, m(c), NO, mn=1, text=f"{c}, minimum symbolic")
                add(v, m(c), NO, mx=1, big=1, text=f"{c}, maximum symbolic, max >= 256")
            if thorough or v == NEW and c not in ("Ll", "Lu"):
                add(v, m(c), NO, mn=1, mx=2, w=64, big=1, text=f"{c}, both bounds symbolic, 64 apart")
    # Many intervals, and a character far from most of them.
    for v in V if thorough else (NEW, OLD):
        for inc, exc in ((NO, m("Zs")), (NO, m("Cn")), (m("Lu Mn So Nd Lo Sm No Po Mc Cf"), NO), (NO, m("Nd Ll"))):
            for i, e in ((), (1,)), ((1,), ()), ((1,), (1,)):
                add(v, inc, exc, lo=0x20, hi=0x24, i=i, e=e, text=f"thousands of intervals, characters {i} / {e} from U+0020")
            for i, e in ((), (4,)), ((4,), ()):
                add(v, inc, exc, lo=0x1F5FE, hi=0x1F602, i=i, e=e, text=f"thousands of intervals, characters {i} / {e} from U+1F5FE")
    # A category and a character; two small categories.
    for c in ("Nd", "Sm", "Lu", "Mn", "Cn") if not thorough else LARGE.split() + SMALL.split():
        for length in (2, 3) if not thorough else (1, 2, 3, 4):
            add(NEW, m(c), NO, i=(length,), text=f"{c}, no bounds, an included character")
            add(NEW, m(c), NO, e=(length,), text=f"{c}, no bounds, an excluded character")
    pairs = ("Pi Pf", "Ps Pe", "Pc Pd", "Zs Zl", "Sk Sc", "Cc Cf", "Me Nl", "Co Cs", "Lt Zp")
    for pair in pairs:
        add(NEW, m(pair), NO, mn=1, mx=1, lo=0 if thorough else 0x1F00, hi=MAX if thorough else 0x3020, big=1, text=f"{pair}, both bounds")
        add(OLD, m(pair), NO, mn=1, text=f"{pair}, minimum symbolic")
        add(OLD, m(pair), NO, mx=1, big=1, text=f"{pair}, maximum symbolic")
    for names in ("Zl Zp Zs", "Nd Nl No", "Sc Sk", "Me Mc") + (("Mc Me Mn", "Pc Pd Pe Pf Pi Po Ps", "Sc Sk Sm So", "Cc Cf Co Cs", "Ll Lu") if thorough else ()):
        for v in (NEW, OLD):
            add(v, m(names), NO, mn=1, text=f"{names}, minimum symbolic")
            add(v, m(names), NO, mx=1, big=1, text=f"{names}, maximum symbolic")
    if thorough:
        for c in ("Ll", "Lu", "Mn", "Nd", "Sm", "Lm", "No", "Mc"):
            add(NEW, m(c), NO, mn=1, mx=1, big=1, text=f"{c}, both bounds symbolic")
        for c in ("Cn", "Lo", "So", "Zs"):
            add(NEW, NO, m(c), mx=1, lo=256, hi=0x2FFF, text=f"all but {c}, maximum to U+2FFF")
    # Everything, and nothing.
    for v in (NEW, OLD):
        add(v, NO, NO, mn=1, mx=1, i=(3, 3), e=(3, 2), big=1, text="all categories, 2 + 2 characters")
        add(v, 0, NO, mn=1, mx=1, i=(3, 2), e=(4, 3), big=1, text="no category, 2 + 2 characters")
    add(NEW, NO, NO, i=(3, 4), e=(3, 4), text="no bounds, 2 + 2 characters")
    add(NEW, NO, NO, mn=1, mx=1, i=(4,), e=(1, 2), big=1, text="all categories, 1 + 2 characters")
    add(NEW, NO, NO, mx=1, big=1, i=(1,), e=(3,), text="all categories, maximum")
    # Nothing selected in a category, characters only.
    add(NEW, m("Lu"), m("Lu"), mn=1, mx=1, i=(3, 3), e=(3,), big=1, text="Lu without Lu")
    # Several categories that touch each other.
    add(NEW, m("Lu Ll"), NO, lo=0x100, hi=0x17F, mn=1, mx=1, text="Lu Ll, U+0100..017F")
    add(NEW, m("Lu Ll Zl"), NO, lo=0x100, hi=0x13F if thorough else 0x117, mn=1, mx=1, i=(2,), e=(2,), text="Lu Ll Zl with characters, from U+0100")
    add(NEW, NO, m("Lu"), lo=0x400, hi=0x440, mn=1, mx=1, e=(2,), text="all but Lu, U+0400..0440")
    add(NEW, m("Lu Ll Mn Nd Zs"), m("Ll Cc"), lo=0x100, hi=0x180 if thorough else 0x124, mn=1, mx=1, i=(2,), text="sets that overlap, from U+0100")
    add(NEW, m("Zl Zp Zs"), NO, mn=1, mx=1, big=1, text="Z, both bounds symbolic, max >= 256")
    add(NEW, m("Zl Zp"), NO, mn=1, mx=1, i=(3,), e=(3,), big=1, text="Zl Zp, both bounds symbolic, 1 + 1 characters")
    add(NEW, m("Zl Zp Zs"), NO, i=(3,), e=(3,), text="Z, no bounds, 1 + 1 characters")
    add(NEW, m("Cs Co Zl"), m("Co"), mn=1, mx=1, i=(3,), big=1, text="Cs Zl")
    add(OLD, NO, m("Cn Cs Co Lo"), lo=0x10FF00, hi=MAX, mn=1, mx=1, i=(4,), text="top of the code space")
    # No bounds: the owned path.
    add(NEW, m("Lu"), NO, i=(3,), text="Lu, no bounds, a character")
    add(NEW, m("Zs"), NO, i=(3, 2), e=(3,), text="Zs, no bounds, 2 + 1 characters")
    add(NEW, m("Cc Zl Zp"), NO, e=(3, 2), text="Cc Zl Zp, no bounds, 2 excluded characters")
    # Small ranges.
    add(NEW, NO, NO, lo=0, hi=255, mn=1, mx=1, text="all categories, bounds below 256")
    add(NEW, m("Ll"), NO, lo=0, hi=255, mn=1, mx=1, text="Ll, bounds below 256")
    return out


def small(v, inc, exc, lo=0, hi=255, which=3, i=0, e=0, forced=0, text=""):
    return Job("query", "h_small", [v | lo << 8 | hi << 16 | which << 24, inc, exc, i | e << 16 | forced << 48], [1, 50], text)


def strings(inc, exc, d, v=NEW, lo=0, hi=MAX, pads=0, length=1, before=0, minus=0, pattern=0, both=0, text=""):
    c = v | (pads & 255) << 8 | (pads >> 8) << 32 | length << 16 | before << 20 | minus << 21 | pattern << 22 | both << 24
    return Job("query", "h_strings", [inc | exc << 32, lo | hi << 32, c, d], [1], text)


def masks(v, inc, maybe_inc, exc, maybe_exc, d=0, lo=0, hi=MAX, shape=0, text=""):
    """Any subset of the `maybe` categories is included or excluded as well."""
    return Job("query", "h_masks", [v | lo << 8 | hi << 32, inc | m(maybe_inc) << 32, exc | m(maybe_exc) << 32, d | shape << 12], [1] if shape else [1, 50], text)


def subsets(shape, thorough):
    out = []
    size = 8 if thorough else 6
    for k in range(0, 30, size - 1):
        w = " ".join(CATS[k:k + size])
        x = " ".join((CATS * 2)[k + 2:k + 5])
        v = [10, 0, 5, 7, 9, 3][k // (size - 1) % 6]
        for u in (NEW, OLD) if thorough else (NEW,):
            out.append(masks(u, 0, w, NO, "", shape=shape, text=f"any of {w}"))
            out.append(masks(u, NO, "", 0, w, shape=shape, text=f"all but any of {w}"))
        if not thorough:
            out.append(masks(v, NO, "", ALL & ~m(w), w, shape=shape, text=f"all but the others and any of {w}"))
        out.append(masks(v, 0, w, 0, x, 3, 0x80, 0x2FFF, shape=shape, text=f"any of {w} without any of {x}, U+0080..2FFF"))
        out.append(masks(v, 0, w, NO, "", 15, 0x2000, 0x2070, shape=shape, text=f"any of {w}, both bounds in U+2000..2070"))
        out.append(masks(v, ALL & ~m(w), w, NO, "", 15, 0xA8F0, 0xA900, shape=shape, text=f"all but any of {w}, both bounds in U+A8F0..A900"))
        out.append(masks(v, 0, w, NO, "", 3 | 0x30, 0x1E00, 0x1F00, shape=shape, text=f"any of {w}, U+1E00..1F00 and a character"))
    return out


def small_subsets(thorough):
    """The small ranges' categories: which are selected is symbolic."""
    out = []
    size = 8 if thorough else 6
    for k in range(0, 30, size - 1):
        w = " ".join(CATS[k:k + size])
        x = " ".join((CATS * 2)[k + 2:k + 5])
        v = [10, 0, 5, 7, 9, 3][k // (size - 1) % 6]
        out.append(masks(v, 0, w, 0, x, 3, 0, 255, text=f"any of {w} without any of {x}, to U+00FF"))
        out.append(masks(v, NO, "", 0, w, 3, 0, 255, text=f"all but any of {w}, to U+00FF"))
        if thorough:
            out.append(masks(v, 0, w, NO, "", 15, 0x9E, 0xBF, text=f"any of {w}, both bounds in U+009E..00BF"))
            out.append(masks(v, 0, w, NO, "", 15, 0x20, 0x41, text=f"any of {w}, both bounds in U+0020..0041"))
        else:
            out.append(masks(v, 0, w, NO, "", 11, 0x1E, 0x42, text=f"any of {w}, maximum in U+001E..0042"))
            out.append(masks(v, 0, w, NO, "", 11, 0x78, 0xBF, text=f"any of {w}, maximum in U+0078..00BF"))
            out.append(masks(v, 0, w, NO, "", 7, 0x78, 0xC2, text=f"any of {w}, minimum in U+0078..00C2"))
    out.append(masks(NEW, 0, "Lu Cc Sc", NO, "", 3 | 0x10, 0x20, 0x7F, text="any of Lu Cc Sc, U+0020..007F and a character"))
    return out


PROPS = {}


def prop(pid):
    def f(g):
        PROPS[pid] = g
        return g

    return f


def histories(thorough):
    """One query after another."""
    j = []

    def add(v, w, b, c, d, text):
        j.append(Job("builder", "h_history", [v | w << 8, b, c, d], [1, 2] if (b & 12) == 12 else [1], text))

    for v, w in ((NEW, NEW), (NEW, OLD), (OLD, NEW), (7, 9), (4, 5)) if not thorough else [(v, w) for v in V for w in V]:
        add(v, w, 3, 3, 2, f"any categories in version {v}, then in {w}")
        add(v, w, 49, 49, 2, f"any categories and characters in version {v}, then in {w}")
    add(NEW, NEW, 12, 12, 0, "any bounds, then others")
    add(NEW, NEW, 60, 60, 0, "any bounds and characters, then others")
    add(NEW, NEW, 60, 60, 1, "any bounds and characters as a set, then others as a list")
    add(NEW, NEW, 13, 13, 0, "any categories and bounds, then others")
    add(NEW, NEW, 0, 63, 2 if thorough else 0, "everything, then any query")
    add(NEW, NEW, 32, 12, 0, "characters excluded, then any bounds")
    add(8, 8, 48, 35, 2, "characters, then categories")
    for v, w in ((NEW, NEW), (NEW, OLD), (6, 6)):
        add(v, w, 49, 49, 6, f"any of categories and characters in version {v}, then in {w}")
    add(NEW, NEW, 50, 50, 6, "any of excluded categories and characters, then others")
    add(NEW, NEW, 33, 45, 2, "included categories and excluded characters, then with bounds")
    add(3, 3, 17, 17, 3, "included categories and characters as a set, then others as a list")
    add(3, 3, 21, 21, 2, "included categories, a minimum and characters, then others")
    add(NEW, NEW, 25, 25, 2, "included categories, a maximum and characters, then others")
    if thorough:
        add(NEW, NEW, 29, 17, 4, "any of included categories, bounds and characters, then others")
        add(NEW, NEW, 31, 31, 0, "any categories, bounds and characters, then others")
    return j


@prop("C01")
def c01(thorough):
    return queries(0, thorough) + subsets(0, thorough) + histories(thorough)


@prop("C02")
def c02(thorough):
    return queries(1, thorough) + subsets(1, thorough)


@prop("C03")
def c03(thorough):
    j = []

    def bounds(v, mn, mx, cats, text):
        j.append(Job("builder", "h_bounds", [v, mn, mx, (m(cats) if cats else ALL) | NO << 32], [1, 2, 3] if mn and mx else [1, 2] if mn or mx else [3], text))

    for v in V:
        bounds(v, 1, 1, "Zs", "Zs, both bounds any 32-bit number")
        bounds(v, 1, 1, "Cc", "Cc, both bounds any 32-bit number")
    bounds(NEW, 1, 1, "", "all categories, both bounds any 32-bit number")
    bounds(NEW, 1, 0, "", "all categories, minimum any 32-bit number")
    bounds(NEW, 0, 1, "", "all categories, maximum any 32-bit number")
    # Other selections: nothing, nothing left, defaults, characters.
    for inc, exc, chars, text in (
        (0, NO, 0, "no category"),
        (0, NO, 3, "no category, characters"),
        (0, 0, 0, "no category, none excluded"),
        (0, ALL, 1, "no category, all excluded, included characters"),
        (NO, NO, 0, "nothing set"),
        (NO, NO, 3, "characters"),
        (NO, ALL, 0, "all excluded"),
        (NO, ALL, 2, "all excluded, excluded characters"),
        (m("Zl"), m("Zl"), 0, "Zl without Zl"),
        (m("Zs Zl"), m("Zl"), 3, "Zs Zl without Zl, characters"),
        (ALL, ALL, 0, "all without all"),
        (ALL, 0, 1, "all, included characters"),
        (0, NO, 4, "no category, no included characters"),
        (0, 0, 12, "no category, no characters"),
        (0, NO, 6, "no category, no included characters, excluded characters"),
        (NO, ALL, 4, "all excluded, no included characters"),
        (NO, NO, 8, "no excluded characters"),
        (m("Zl"), NO, 9, "Zl, included characters, no excluded ones"),
        (NO, NO, 12, "no characters"),
    ):
        for mn, mx in (1, 1), (1, 0), (0, 1), (0, 0):
            for v in V if thorough else (NEW,):
                j.append(Job("builder", "h_bounds", [v | chars << 8, mn, mx, inc | exc << 32],
                             [1, 2, 3] if mn and mx else [1, 2] if mn or mx else [1], f"version {v}: {text}, {('no bound', 'maximum', 'minimum', 'both bounds')[2 * mn + mx]} any 32-bit number"))
    bounds(NEW, 1, 0, "Ll", "Ll, minimum any 32-bit number")
    bounds(NEW, 0, 1, "Ll", "Ll, maximum any 32-bit number")
    for lo, hi, other, kind in ((0x110000, 0x110010, 5, 0), (1, 30, 0, 0), (0xFFFFFFF0, 0xFFFFFFFF, 0, 1), (100000, 100020, 99999, 0)):
        j.append(Job("builder", "h_message", [lo, hi, other, kind], [1], "error message"))

    def total(v, op, inc, exc, i=0, e=0, bounds=3, limit=1, text=""):
        need = [1, 2] if bounds and limit < 2 else [1]
        j.append(Job("builder", "h_total", [v | op << 8, inc, exc, i | e << 16 | bounds << 32 | limit << 34], need, "no panic: " + text))

    for op in range(6):
        total(NEW, op, 0, NO, text="no category, any bounds")
        total(NEW, op, 0, NO, bounds=0, limit=0, text="no category, no bounds")
        total(NEW, op, 0, NO, i=3, e=3, text="no category, any bounds, 1 + 1 characters")
        total(NEW, op, m("Zs"), NO, text="Zs, any bounds")
        total(NEW, op, NO, NO, i=0x43, e=0x34, text="all categories, any bounds, 2 + 2 characters")
        total(NEW, op, m("Zs Zl"), m("Zl"), i=3, bounds=0, limit=0, text="Zs Zl without Zl, a character")
    for i, e in ((1, 0), (2, 0), (0, 2), (3, 0), (0, 3), (0, 4), (4, 0)):
        total(NEW, 5, m("Cc"), NO, i=i, e=e, bounds=2, limit=2, text="Cc, maximum below 256, a character")
    return j


@prop("C04")
def c04(thorough):
    j = [
        small(NEW, NO, NO, text="all categories, both bounds"),
        small(NEW, m("Ll"), NO, text="Ll, both bounds"),
        small(NEW, NO, m("Po"), which=1, text="all but Po, minimum"),
        small(NEW, NO, m("Po"), which=2, text="all but Po, maximum"),
        small(NEW, NO, m("Lu Ll"), which=2, text="all but Lu Ll, maximum"),
        small(NEW, NO, m("Lu"), which=0, i=1, text="all but Lu, a character"),
        small(NEW, NO, m("Lu"), which=0, i=2, e=1, text="all but Lu, 1 + 1 characters"),
        small(NEW, NO, NO, forced=1, text="all categories, both bounds, against the general answer"),
        small(NEW, m("Ll"), NO, which=2, forced=1, text="Ll, maximum, against the general answer"),
    ]
    for v in V:
        j.append(small(v, NO, m("Po"), which=2, text="all but Po, maximum"))
        j.append(small(v, m("Cc"), NO, text="Cc, both bounds"))
        j.append(small(v, m("Sc Sk"), NO, which=1, text="Sc Sk, minimum"))
    j += [
        small(NEW, NO, m("Lu Ll"), text="all but Lu Ll, both bounds"),
        small(NEW, NO, m("Cc"), text="all but Cc, both bounds"),
        small(NEW, m("Zs"), NO, which=2, i=1, e=1, text="Zs, maximum, 1 + 1 characters"),
        small(NEW, NO, m("Po"), which=2, i=1, text="all but Po, maximum, a character"),
        small(NEW, NO, m("Po"), which=0, i=1, e=2, text="all but Po, 1 + 1 characters"),
        small(NEW, NO, m("Lu"), lo=5, hi=205, which=0, forced=1, i=2, e=1, text="all but Lu, U+0005..00CD, 1 + 1 characters, against the general answer"),
        small(NEW, NO, NO, which=1, i=2, e=1, text="all categories, minimum, 1 + 1 characters"),
    ]
    if thorough:
        for c in "Po Sm So Nd Lo Sk Ps Pe Pd".split():
            j.append(small(NEW, m(c), NO, text=f"{c}, both bounds"))
            j.append(small(NEW, NO, m(c), text=f"all but {c}, both bounds"))
        j += [
            small(NEW, m("Lu Ll Cc"), NO, text="Lu Ll Cc, both bounds"),
            small(NEW, NO, NO, which=2, i=0x12, text="all categories, maximum, 2 characters"),
            small(NEW, m("Ll"), NO, i=2, text="Ll, both bounds, a character"),
            small(NEW, 0, NO, i=0x121, text="no category, both bounds, 3 characters"),
            small(NEW, NO, m("Lu"), lo=5, hi=205, which=0, i=0x12, e=2, text="all but Lu, U+0005..00CD, 2 + 1 characters"),
            small(NEW, NO, m("Lu"), lo=60, hi=70, i=1, e=1, text="all but Lu, U+003C..0046, 1 + 1 characters"),
            small(NEW, NO, m("Lu"), lo=120, hi=140, i=0x12, e=0x21, text="all but Lu, U+0078..008C, 2 + 2 characters"),
            small(NEW, NO, NO, i=1, e=1, text="all categories, both bounds, 1 + 1 characters"),
        ]
    j += small_subsets(thorough)
    # Bounds and characters on both sides of the limit.
    near = dict(lo=250, hi=261, mn=1, mx=1)
    j += [
        q(NEW, m("Lu"), NO, text="Lu, bounds U+00FA..0105", **near),
        q(NEW, m("Ll"), NO, i=(2,), text="Ll, bounds and a character U+00FA..0105", **near),
        q(NEW, NO, m("Lu"), i=(2,), e=(2,), text="all but Lu, bounds and 1 + 1 characters U+00FA..0105", **near),
    ]
    # A small range, characters beyond it.
    far = dict(lo=0, hi=255, mx=1, free=1)
    j += [
        q(NEW, m("Ll"), NO, e=(2,), text="Ll, maximum, an excluded character above 255", **far),
        q(NEW, NO, m("Po"), e=(2,), text="all but Po, maximum, an excluded character above 255", **far),
        q(NEW, m("Ll Lu"), NO, mn=1, i=(2,), e=(3,), text="Ll Lu, both bounds, 1 + 1 characters above 255", **far),
        q(NEW, NO, NO, mn=1, i=(3,), e=(2,), text="all categories, both bounds, 1 + 1 characters above 255", **far),
        q(NEW, m("Nd"), NO, mn=1, i=(3,), e=(2, 4), text="Nd, both bounds, 1 + 2 characters above 255", **far),
    ]
    return j


@prop("C05")
def c05(thorough):
    j = [Job("builder", "h_settings", [NEW, 0xFFF, 0, 0], [1, 2], "any three settings in any order")]
    for v in V:
        j.append(Job("builder", "h_settings", [v, 0xFF, 0, 0], [1], "any two settings in any order"))
    j.append(Job("builder", "h_settings", [NEW, 0xFF, 1, 0], [1], "any two settings, with clones"))
    j += histories(thorough)
    if thorough:
        j.append(Job("builder", "h_settings", [NEW, 0xFFFF, 0, 0], [1, 2], "any four settings in any order"))
        j.append(Job("builder", "h_settings", [NEW, 0xFFF, 1, 0], [1], "any three settings, with clones"))
    j.append(Job("builder", "h_latest", [1], [1], "the module's query is a query of the latest version"))
    return j


def any_set(name, kind, b, c, d, need, text, classes=0, width=0):
    return Job("iter" if name in ("h_ends", "h_whole", "h_skip", "h_rest") else "set", name, [kind | classes << 8 | width << 32, b, c, d], need, text)


@prop("C06")
def c06(thorough):
    j = []
    for v in V:
        j.append(Job("set", "h_set_agree", [v, m("Zs")], [], "Zs"))
        for w in range(4):
            j.append(Job("set", "h_set_real", [v, m("Zs"), w], [], "Zs"))
    for c in ("Zl", "Cc", "Nd", "Lu", "Ll", "Lo", "Mn", "Cn"):
        j.append(Job("set", "h_set_agree", [NEW, m(c)], [], c))
        for w in range(4):
            j.append(Job("set", "h_set_real", [NEW, m(c), w], [], c))
    # Other sets of many intervals: ends of one code point, cut at any value, several categories.
    for c, lo, hi in (("Lu", 0x1E900, 0x1F000), ("Ll", 0x10400, 0x10430), ("Po", 0x2010, 0x2040), ("Sm", 0x2200, 0x2240), ("Nd Nl No", 0x1D7F0, 0x1E000), ("Zs Zl Zp Cc Cf", 0x2000, 0x2100)):
        for w in range(4):
            for d, text in (
                (1 << 53, "and U+10FFFF"),
                (3 << 52, "and U+0000, U+10FFFF"),
                (lo | hi << 24 | 1 << 48, f"maximum in U+{lo:04X}..{hi:04X}"),
                (lo | hi << 24 | 1 << 49, f"minimum in U+{lo:04X}..{hi:04X}"),
                (lo | (lo + 32) << 24 | 1 << 48 | 1 << 53, f"maximum in U+{lo:04X}..{lo + 32:04X} and U+10FFFF"),
                (lo | hi << 24 | 3 << 50, f"U+{lo:04X}..{hi:04X}"),
            ):
                j.append(Job("set", "h_set_real", [NEW, m(c), w, d], [], f"{c}, {text}"))
    for kind, classes, width in ((0, 0, 0), (0, 0x3, 0), (0, 0x33, 0), (0, 0x432, 0), (1, 3, 1000), (1, 3, MAX + 1), (2, 0, 0), (3, 0, 0)):
        for w in range(4):
            j.append(any_set("h_set_any", kind, 0, w, NEW, [], f"kind {kind}", classes, width))
    for kind, classes, width in ((0, 0x3, 0), (0, 0x33, 0), (1, 3, 1000), (2, 0, 0), (3, 0, 0)):
        for w in (0, 1, 2, 3):
            for x in (0, 1, 2, 3):
                j.append(any_set("h_set_two", kind, 0, w | x << 4, NEW, [], f"kind {kind}, lookup {w}, then {x}", classes, width))
            j.append(any_set("h_set_two", kind, 0, w | w << 4 | 1 << 8, NEW, [], f"kind {kind}, lookup {w}, then on a clone", classes, width))
    return j


@prop("C07")
def c07(thorough):
    j = []
    for k, c in enumerate(CATS):
        j.append(any_set("h_ends", 4, 3, NEW, 0, [1, 3], f"{c}, 3 steps from both ends", k << 8, 0))
        if c not in ("Cn", "Lo", "Co"):
            j.append(any_set("h_ends", 4, 2, NEW, 0, [1, 3], f"{c} and a character from U+F0000, 2 steps from both ends", k << 8 | 4, 0xF0000))
    for kind, classes, width, steps in ((0, 0, 0, 2), (0, 0x3, 0, 4), (0, 0x33, 0, 5), (0, 0x322, 0, 5), (1, 3, 5, 4), (2, 0, 0, 4), (3, 0, 0, 5)):
        empty = kind == 0 and classes == 0
        j.append(any_set("h_ends", kind, steps, NEW, 0, [2] if empty else [1, 2], f"{steps} steps from both ends", classes, width))
        j.append(any_set("h_whole", kind, 0, NEW, 0, [1], "from start to end", classes, width))
        j.append(any_set("h_skip", kind, 5, NEW, 0, [2] if empty else [1], "skipping", classes, width))
        if not empty:
            j.append(any_set("h_rest", kind, 2, NEW, 0, [1], "some steps, then the rest", classes, width))
    for k, c in enumerate(CATS):
        if c in "Zs Sc Me Pd Pc Pi Pf Nl Lt Zl Zp Sk Cc".split():
            j.append(any_set("h_rest", 4, 3 if thorough else 1, NEW, 0, [1], f"{c}: some steps, then the rest", k << 8, 0))
            j.append(any_set("h_whole", 4, 0, NEW, 0, [1], f"{c} from start to end", k << 8, 0))
            j.append(any_set("h_skip", 4, 12, NEW, 0, [1], f"{c}: skipping", k << 8, 0))
            j.append(any_set("h_skip", 4, 4, OLD, 0, [1], f"{c} and a character from U+F0000: skipping", k << 8 | 4, 0xF0000))
    for classes in (0, 1, 3):
        j.append(any_set("h_ends", 1, 3, NEW, 0, [1, 2], "3 steps from both ends, any interval", classes, MAX + 1))
        j.append(any_set("h_skip", 1, 3, NEW, 0, [1], "skipping, any interval", classes, MAX + 1))
    for c in ("Zs", "Nd", "Cc", "Sc"):
        j.append(Job("iter", "h_nth", [NEW, CATS.index(c)], [1, 2], f"any element of {c}"))
    return j


@prop("C08")
def c08(thorough):
    j = [Job("tables", "h_partition", [v], [1, 2], "every code point has exactly one category") for v in V]
    j += [Job("tables", "h_lookup", [v, 0, 30], [1, 2], "table, per-category list and query agree") for v in V]
    return j


@prop("C09")
def c09(thorough):
    j = [Job("tables", "h_published", [v], [1], "every code point has its published category") for v in V]
    j += [Job("tables", "h_asked", [v, 0, 0, d], [1, 2] if d else [1], w) for v in V for d, w in enumerate(("queries for one category", "one category up to U+024F", "one category from U+0080"))]
    j += [Job("tables", "h_stable", [v, v + 1], [1, 2, 3], "stability between neighbouring versions") for v in range(10)]
    if thorough:
        j += [Job("tables", "h_stable", [a, b], [1, 2, 3], "stability between any two versions") for a in V for b in V if a < b - 1]
    return j


@prop("C10")
def c10(thorough):
    # Small parts first: a rewrite that counts member by member may be too much for the solver on all at once.
    j = [Job("algebra", "h_one", [k, first, 6, fixed], [1], f"{c}, members {first}..{first + 6} symbolic, {rest}") for k, c in enumerate(CATS)
         for first in range(0, 30, 6) for fixed, rest in ((0, "no other"), (ALL, "all others"))]
    j += [Job("algebra", "h_one", [k, 0, 30, 0], [1], f"any set and {c}") for k, c in enumerate(CATS)]
    j += [Job("algebra", "h_two", [], [1], "any two sets"), Job("algebra", "h_classes", [], [1], "documented classes")]
    return j


@prop("C11")
def c11(thorough):
    j = []
    for w, fixed, rest in ((10 if thorough else 8, 0, "no other"), (7 if thorough else 5, ALL, "all others"), (6, 0x15555555, "every other"), (6, 0x2AAAAAAA, "every other")):
        for first in range(0, 30, w - 2):
            n = min(w, 30 - first)
            j.append(Job("algebra", "h_iterate", [first, n, fixed], [1], f"iteration: members {first}..{first + n} symbolic, {rest}"))
            j.append(Job("algebra", "h_display", [first, n, fixed], [1], f"text: members {first}..{first + n} symbolic, {rest}"))
    for n in (2, 3) if not thorough else (2, 3, 4):
        j.append(Job("algebra", "h_steps", [n], [1, 2], f"first {n} steps on any set"))
    return j


def layouts(n, top=4):
    if n == 0:
        return [0]
    return [a | b << 4 for a in range(1, top + 1) for b in layouts(n - 1, top)]


@prop("C12")
def c12(thorough):
    j = [Job("names", "h_round_trip", [], [1, 2], "every name")]
    for l in [0] + layouts(1) + layouts(2) + layouts(3, 2) + layouts(4, 2 if thorough else 1):
        j.append(Job("names", "h_category", [l], [2] + ([1] if l == 0x11 else []), f"category, any text with layout {l:x}"))
    longer = (48, 49, 50, 60, 64, 65, 80, 100, 128, 129, 200, 255, 256, 257, 300, 512, 513)
    for n in (*range(5, 41), *longer):
        j.append(Job("names", "h_category", [0xFF << 56 | n], [2], f"category, any text of {n} ASCII characters"))
    for n in (*range(8, 41), *longer):
        j.append(Job("names", "h_version", [0xFF << 56 | n], [2], f"version, any text of {n} ASCII characters"))
    for l in [0, 1, 0x11, 0x111, 0x1111, 0x11111, 0x111111, 0x1111111, 0x2, 0x12, 0x1211, 0x11211, 0x111112, 0x311111]:
        j.append(Job("names", "h_version", [l], [2] + ([1] if l in (0x11111, 0x111111) else []), f"version, any text with layout {l:x}"))
    return j


@prop("C13")
def c13(thorough):
    return [Job("names", "h_order", [v], [1, 2], "any two positions") for v in V]


@prop("C14")
def c14(thorough):
    j = []
    for v in V:
        j.append(Job("names", "h_general", [v, 0x1], [1, 2], "one name of one character"))
        j.append(Job("names", "h_general", [v, 0x11], [1, 2], "one name of two characters"))
        j.append(Job("names", "h_general", [v, 0x11, 0x1], [1, 2], "two names"))
    j.append(Job("names", "h_general", [NEW, 0], [1], "no name"))
    j.append(Job("names", "h_general", [NEW, 15], [2], "empty name"))
    j.append(Job("names", "h_general", [NEW, 0x11, 0x11], [1, 2], "two names"))
    j.append(Job("names", "h_general", [NEW, 0x2], [2], "a name beyond ASCII"))
    j.append(Job("names", "h_general", [NEW, 0x111], [2], "three characters"))
    j.append(Job("names", "h_general", [NEW, 0x11, 15], [2], "a name and an empty one"))
    for n in range(4, 21):
        j.append(Job("names", "h_general", [NEW, 0x11, 0xFF << 56 | n], [2], f"a name and one of {n} ASCII characters"))
    for v in V:
        for w in (NEW, OLD, 4) if not thorough else V:
            j.append(Job("names", "h_general", [v | (w + 1) << 20, 0x1], [1, 2], f"a name of one character, after an expansion in version {w}"))
        j.append(Job("names", "h_general", [v | (v % 5 + 4) << 20, 0x11, 0x1], [1, 2], f"two names, after an expansion in version {v % 5 + 3}"))
    for v in V:
        for w in V:
            if v != w:
                j.append(Job("names", "h_general", [v | (w + 1) << 20 | 0x7F << 8, 0x1], [1, 2], f"all classes and a name of one character, after an expansion in version {w}"))
    # Any names after any names, in the same version and in another.
    for v, w in ((NEW, NEW), (OLD, OLD), (NEW, OLD), (OLD, NEW), (5, 4), (4, 5)):
        for earlier, b, c, need in ((0x11, 0x1, 0x1, [1, 2]), (0x0101, 0x11, 0, [1, 2]), (0x11, 0x11, 0, [1, 2]), (0x1, 0x1, 0, [1, 2]), (0x0101, 0x1, 0x1, [1, 2]), (0x0111, 0x1, 0x1, [1, 2]), (0x11, 15, 0x11, [2]), (0x1101, 0x111, 0, [2])):
            if (v == w or thorough or earlier in (0x11, 0x1) and (b, c) != (0x1, 0x1)) and (thorough or earlier != 0x0111):
                j.append(Job("names", "h_general", [v | (w + 1) << 20 | earlier << 32, b, c], need, f"names {b:x} {c:x} after any {earlier:x} in version {w}"))
    # The same over and over.
    for r in (1, 2, 3, 4, 5):
        j.append(Job("names", "h_general", [(NEW, OLD, 4)[r % 3] | r << 17, 0x11], [1, 2], f"a name {2 ** r} times"))
        j.append(Job("names", "h_general", [(NEW, OLD, 4)[r % 3] | r << 17, 0x1], [1, 2], f"a name of one character {2 ** r} times"))
        if r < 4 or thorough:
            j.append(Job("names", "h_general", [NEW | r << 17, 0x11, 0x1], [1, 2], f"two names {2 ** r} times"))
    for n in (60, 90, 200, 255):
        for behind in (0, 1 << 15):
            j.append(Job("names", "h_general", [NEW | n << 48 | behind, 0x11], [1, 2], f"{n} times the same name and any one"))
            j.append(Job("names", "h_general", [OLD | n << 48 | behind, 0x1, 0x1], [1, 2], f"{n} times the same name and any two of one character"))
            j.append(Job("names", "h_general", [NEW | n << 48 | behind | 0x7F << 8, 0x11, 0x1], [1, 2], f"all classes, {n} times the same name and any two"))
    # The same few, all or many names before or behind.
    for v in V if thorough else (NEW, 5, OLD):
        j.append(Job("names", "h_general", [v, 0x1, 0x1], [1, 2], "two names of one character"))
        j.append(Job("names", "h_general", [v, 0x1, 0x11], [1, 2], "two names"))
        for classes in (0x01, 0x40, 0x7F):
            for behind in (0, 1 << 15):
                j.append(Job("names", "h_general", [v | classes << 8 | behind, 0x1], [1, 2], f"classes {classes:x} and a name of one character"))
                j.append(Job("names", "h_general", [v | classes << 8 | behind, 0x11], [1, 2], f"classes {classes:x} and a name of two characters"))
        j.append(Job("names", "h_general", [v | 1 << 16, 0x11], [1, 2], "all categories and a name of two characters"))
        j.append(Job("names", "h_general", [v | 1 << 15 | 1 << 16, 0x11], [1, 2], "a name of two characters and all categories"))
        j.append(Job("names", "h_general", [v | 0x7F << 8 | 1 << 16, 0x1], [1, 2], "all classes, all categories and a name of one character"))
        j.append(Job("names", "h_general", [v | 0x7F << 8, 0], [1], "all classes"))
    if thorough:
        j.append(Job("names", "h_general", [NEW, 0x11, 0x11, 0x11], [1, 2], "three names"))
    return j


def py(name, args, need, text):
    return Job("python", name, args, need, text)


def namelist(kind, fixed="", sym=0, layout=0x11, front=0, bad=()):
    """An argument for `names` in python.rs; kind 0 not given, 1 None, 2 list, 3 tuple."""
    r = kind | front << 2 | sym << 4 | layout << 8
    for k, x in enumerate([CATS.index(x) + 1 for x in fixed.split()] + [64 + k for k in bad]):
        r |= x << (16 + 8 * k)
    return r


def pyquery(v, mn, mx, inc, exc, i=None, e=None, need=(1,), text="", pads=0):
    d = (0 if i is None else i + 1 | pads << 24) | (0 if e is None else e + 1 | pads << 24) << 32
    return py("h_pyquery", [v | mn << 8 | mx << 32, inc, exc, d], list(need), text)


ABSENT, NONE = 11, 12


@prop("C15")
def c15(thorough):
    j = [py("h_pymodule", [], [1], "exports, arguments of a wrong kind")]
    zs, none = namelist(2, "Zs"), namelist(2)

    def add(v, mn, mx, inc, exc, i=None, e=None, need=(1,), before=0, pads=0, text=""):
        j.append(pyquery(v, mn, mx, inc | before << 56, exc, i=i, e=e, need=need, pads=pads, text=text))

    # Which version, with bounds and without.
    for v in list(V) + [ABSENT, NONE]:
        add(v, 2, 2, namelist(2, "Zs Cs"), 0, need=(1, 2), text=f"version {v}: Zs Cs, both bounds any 32-bit number")
        add(v, 0, 0, namelist(3, "", 1), 1, need=(1, 3), text=f"version {v}: any name of two characters")
        add(v, 0, 0, 0, namelist(2, "Cn Lo", 1), need=(1, 3), text=f"version {v}: all but Cn, Lo and any name of two characters")
    # Every kind of bound.
    for mn in (0, 1, 2, 3):
        for mx in (0, 1, 2, 3):
            need = (1,) if mn < 2 and mx < 2 else (1, 2, 4) if 3 in (mn, mx) else (1, 2)
            add(ABSENT, mn, mx, zs, 0, need=need, text=f"Zs, bounds of kind {mn}, {mx}")
            add(ABSENT, mn, mx, 0, 0, need=need, text=f"no set, bounds of kind {mn}, {mx}")
            add(ABSENT, mn, mx, 1, namelist(2, "Nd"), i=3, need=need if 2 not in (mn, mx) or thorough else need, text=f"None, all but Nd, bounds of kind {mn}, {mx}, a character") if thorough else None
            if thorough:
                add(ABSENT, mn, mx, 1, namelist(2, "Nd"), i=3, need=need, text=f"all but Nd, bounds of kind {mn}, {mx}, a character")
            add(6, mn, mx, none, 0, i=3, e=3, need=need, text=f"no category, bounds of kind {mn}, {mx}, characters")
    # Every kind of list.
    kinds = [("absent", 0), ("None", 1), ("[]", none), ("()", namelist(3)), ("[Zl]", namelist(2, "Zl")), ("(Zl Zs)", namelist(3, "Zl Zs")),
             ("[Zs Zs Zl]", namelist(2, "Zs Zs Zl")), ("[Zs Cc Zl Zp Pc]", namelist(2, "Zs Cc Zl Zp Pc"))]
    for a, inc in kinds:
        for b, exc in kinds:
            add(ABSENT, 0, 0x2100, inc, exc, text=f"categories {a}, excluded {b}, maximum U+20F8..2358")
    for a, exc in kinds:
        add(NONE, 0x2020, 0, zs, exc, i=3, text=f"Zs, excluded {a}, minimum U+2018..2270, a character")
    # Unknown names, in either list, alone and behind known ones.
    for bad in range(8):
        add(ABSENT, 0, 0, namelist(2, "Lu", bad=[bad]), 0, need=(3,), text=f"known bad name {bad}")
        add(ABSENT, 0, 2, 0, namelist(3, bad=[bad]), need=(3,), text=f"known bad name {bad} excluded")
        add(ABSENT, 2, 0, none, namelist(3, bad=[bad]), need=(3,), text=f"known bad name {bad} excluded, no category")
    for layout in (0x1, 0x2, 0x12, 0x21, 0x3):
        add(ABSENT, 0, 0, namelist(2, "Lu", 1, layout), 0, need=(3,), text=f"Lu, a name of layout {layout:x}")
        add(ABSENT, 0, 0, zs, namelist(2, "", 1, layout), need=(3,), text=f"excluded name of layout {layout:x}")
    add(ABSENT, 0, 0x2000, namelist(2, "Zs Zl", 1, front=1), 0, need=(1, 3), text="any name in front of Zs Zl, maximum in a window")
    add(ABSENT, 0, 0, none, namelist(3, "Zs Zl", 1, front=1), need=(1, 3), text="no category, any excluded name in front of Zs Zl")
    add(9, 0, 0, namelist(2, "", 1), namelist(2, "", 1), need=(1, 3), text="any name, any excluded name")
    add(ABSENT, 0, 0, namelist(2, "", 2), 0, need=(1, 3), text="any two names")
    # Many names.
    for x in (31, 32):
        many = namelist(2, "", 1) | (x + 1) << 16
        add(ABSENT, 0, 0, many, 0, need=(1, 3), text="all thirty names and any one")
        add(ABSENT, 0, 0x2000, 0, many | (x + 1) << 24, need=(1, 3), text="all but twice all thirty names and any one")
        add(3, 0, 0x2000, namelist(2, "", 1) | (30 + x - 20) << 16, namelist(3) | (30 + x - 12) << 16, need=(1, 3), text=f"the first {x - 23} names and any one, without the first {x - 15}")
        add(3, 0, 0, many | 4, namelist(2, "Cn"), need=(1, 3), text="any name and all thirty, without Cn")
    # Characters.
    for i in (None, 0, 0x1, 0x2, 0x3, 0x4, 0x13, 0x31):
        for e in (None, 0, 0x1, 0x3):
            add(ABSENT, 0, 0, none, 1, i=i, e=e, text=f"no category, characters {i} / {e}")
            add(ABSENT, 0, 0, 0, none, i=i, e=e, text=f"all categories, characters {i} / {e}")
    for i, e in ((0x3, None), (None, 0x3), (0x3, 0x2), (0x32, 0x2)):
        add(ABSENT, 0, 0, none, 1, i=i, e=e, pads=9, text=f"no category, characters {i} / {e} and nine more")
        add(2, 2, 2, none, 1, i=i, e=e, need=(1, 2), text=f"no category, characters {i} / {e}, any bounds")
    add(ABSENT, 0, 2, none, 0, i=1, e=2, need=(1, 2), text="no category, any maximum, characters")
    # A call before, with one argument different or none.
    for k in range(1, 9):
        add(ABSENT, 0, 0, zs, namelist(2, "Zl"), i=3, e=3, before=k, text=f"after a call of kind {k}")
        add(7, 2, 2, namelist(3, "Zl Zp"), 0, need=(1, 2), before=k, text=f"version 15, any bounds, after a call of kind {k}")
        add(8, 0, 0, 0, namelist(3, "", 1), need=(1, 3), before=k, text=f"any excluded name, after a call of kind {k}")
    for v, known in ((ABSENT, "Cs"), (8, "Cn"), (4, "Co Zs"), (ABSENT, "")):
        add(v, 0, 0, 0, namelist(2, known, 1), before=14, need=(1, 3), text=f"all but {known or 'nothing'} and any name, after the same without the last")
        add(v, 0, 0, namelist(2, known, 1), 0, before=15, need=(1, 3), text=f"{known or 'nothing'} and any name, after the same without the last")
    for i, e in ((0x3, 0x2), (0x1, None), (None, 0x2)):
        for k in (16, 17):
            add(ABSENT, 0, 0, zs, 0, i=i, e=e, before=k, text=f"Zs, characters {i} / {e}, after the same without those of kind {k}")
            add(ABSENT, 0, 0, 0, 0, i=i, e=e, before=k, text=f"all categories, characters {i} / {e}, after the same without those of kind {k}")
    one = namelist(2, "", 2, 0x1)
    for v in (ABSENT, 4):
        add(v, 0, 0, namelist(2, "", 1), 0, before=9, need=(1, 3), text="any name, after any name")
        add(v, 0, 0, one, 0, before=9, need=(3,), text="any two names of one character, after any name")
        add(v, 0, 0, namelist(2, "Zs Zl Cc Nd"), namelist(2, "", 1), before=10, need=(1, 3), text="any excluded name, after any excluded name")
        add(v, 0, 0, none, namelist(2, "", 1), before=9, need=(1, 3), text="no category, any excluded name, after any name")
        for i, e, k in ((0x3, None, 11), (0x1, 0x1, 11), (0x3, 0x2, 12), (None, 0x2, 12), (0x1, 0x1, 13), (0x2, 0x3, 13), (0x11, 0, 13), (0, 0x3, 13)):
            add(v, 0, 0, none, 1, i=i, e=e, before=k, text=f"no category, characters {i} / {e}, after a call of kind {k}")
            add(v, 0, 0, zs, namelist(2, "Zl"), i=i, e=e, before=k, text=f"Zs, characters {i} / {e}, after a call of kind {k}")
        add(v, 0, 2, namelist(2, "Zs Zl"), namelist(2, "Zl Zp"), before=13, need=(1, 2), text="any maximum, after names exchanged")
        add(v, 0, 0, namelist(2, "", 1), namelist(2, "Cn"), before=13, need=(1, 3), text="any name without Cn, after names exchanged")
    # The same name over and over.
    for n in (2, 3, 9, 14, 15, 16, 28, 29, 30, 31, 32, 59, 63, 64):
        again = 128 + n
        add(ABSENT, 0, 0, namelist(2, "Zs") | again << 24, 0, i=3, text=f"Zs {n + 1} times, a character")
        add(ABSENT, 0, 0x2000, 0, namelist(2, "Zs") | again << 24, text=f"all but {n + 1} times Zs, a maximum in a window")
        add(5, 0, 0, namelist(3, "Zl Zs", 1) | again << 32, 0, need=(1, 3), text=f"Zl, Zs {n + 1} times, any name")
    if thorough:
        for c in CATS:
            add(ABSENT, 0, 2, namelist(2, c), 0, need=(1, 2), text=f"{c}, any maximum")
            add(ABSENT, 2, 0, namelist(2, c), 0, need=(1, 2), text=f"{c}, any minimum")
        add(ABSENT, 2, 2, zs, namelist(2, "", 1), need=(1, 2, 3), text="Zs, any bounds, any excluded name")
    return j


@prop("C16")
def c16(thorough):
    j = [py("h_pyversions", [], [1], "every version object, every two of them")]
    for n in (1, 2, 3):
        j.append(py("h_pycategories", [n], [1], f"any {n} calls for the categories of any version"))
    for l in [0, 1, 0x11, 0x111, 0x1111, 0x11111, 0x111111, 0x1111111, 0x2, 0x12, 0x1211, 0x11211, 0x111112, 0x311111]:
        j.append(py("h_pyversion", [l], [2] + ([1] if l in (0x11111, 0x111111) else []), f"version, any text with layout {l:x}"))
    for v in list(V) + [ABSENT, NONE]:
        for word in (0, 256):
            j.append(py("h_pygeneral", [v | word, namelist(2, "", 1, 0x1)], [1, 2], f"version {v}: one name of one character"))
            j.append(py("h_pygeneral", [v | word, namelist(3, "", 1, 0x11)], [1, 2], f"version {v}: one name of two characters"))
            j.append(py("h_pygeneral", [v | word, namelist(2, "Zs Lu", 1, 0x1)], [1, 2], f"version {v}: Zs Lu and a name of one character"))
            j.append(py("h_pygeneral", [v | word, namelist(2, "Zs Cn So Mn Lo")], [1], f"version {v}: five names"))
        j.append(py("h_pygeneral", [v | 256, namelist(2, "", 1, 0x1), 0x7F], [1, 2], f"version {v}: all classes and a name"))
        j.append(py("h_pygeneral", [v, namelist(2), 0x7F], [1], f"version {v}: all classes"))
        j.append(py("h_pygeneral", [v, namelist(2, "", 2, 0x1)], [1, 2], f"version {v}: two names of one character"))
        for before in (1, 5, 11, 12):
            j.append(py("h_pygeneral", [v, namelist(2, "", 1, 0x1), 0, before], [1, 2], f"version {v}: a name, after a call for version {before - 1}"))
        for w in range(13):
            if w != v:
                j.append(py("h_pygeneral", [v, namelist(2, "", 1, 0x1), 0x7F, w + 1], [1, 2], f"version {v}: all classes and a name, after a call for version {w}"))
    # Any names after any names.
    for v, w in ((ABSENT, ABSENT), (OLD, OLD), (5, 4), (NEW, ABSENT)):
        for earlier, b, sym, need in ((0x11, 0x1, 2, [1, 2]), (0x0101, 0x11, 1, [1, 2]), (0x11, 0x11, 1, [1, 2]), (0x0101, 0x1, 2, [1, 2]), (0x1, 0x1, 1, [1, 2])):
            j.append(py("h_pygeneral", [v, namelist(2, "", sym, b), 0, (w + 1) | earlier << 8], need, f"version {v}: {sym} names {b:x}, after any {earlier:x} for version {w}"))
    # The same name over and over.
    for n in (2, 7, 14, 15, 16, 28, 29, 30, 31, 32, 63, 64):
        j.append(py("h_pygeneral", [n % 11, namelist(2, "Zs", 1, 0x1) | (128 + n) << 24], [1, 2], f"Zs {n + 1} times and a name of one character"))
        j.append(py("h_pygeneral", [(n + 3) % 11, namelist(3, "So Mc") | (128 + n) << 32], [1], f"So and Mc {n + 1} times"))
    j.append(py("h_pygeneral", [ABSENT, namelist(2)], [1], "no name"))
    for bad in (0, 2, 3, 4, 5, 6, 7):
        j.append(py("h_pygeneral", [ABSENT, namelist(2, "Lu", bad=[bad])], [2], f"known bad name {bad}"))
    # Many names.
    for v in list(V) + [ABSENT]:
        for x in (32, 33):
            j.append(py("h_pygeneral", [v, namelist(2, "", 1) | x << 16 | (4 if x == 33 else 0)], [1, 2], f"version {v}: all thirty names and any one"))
        j.append(py("h_pygeneral", [v, namelist(3) | 32 << 16 | 33 << 24, 0x7F], [1], f"version {v}: all classes and all names twice"))
        j.append(py("h_pygeneral", [v | 256, namelist(2) | 33 << 16], [1], f"version {v}: all thirty names"))
        for n in (6, 9, 12, 16, 20, 25, 29) if thorough else (8, 16, 24)[(0 if v == ABSENT else v) % 3:][:1]:
            j.append(py("h_pygeneral", [v, namelist(2, "", 1) | (33 + n) << 16], [1, 2], f"version {v}: the first {n} names and any one"))
    if thorough:
        j.append(py("h_pygeneral", [ABSENT, namelist(2, "", 2, 0x11)], [1, 2], "two names of two characters"))
    return j


@prop("C17")
def c17(thorough):
    j = []
    for i, e, d in ((0x33, 0, 0), (0x333, 0, 0), (0x1234, 0, 0), (0x33, 0x33, 0), (0x33, 0x33, 2), (0x333, 0x33, 0), (0x333, 0x333, 3), (0x44, 0x33, 3)):
        j.append(strings(i, e, d, text=f"layouts {i:x} / {e:x}, selection {d}"))
    # Other selections, small ranges among them.
    slow = {(4, 0x1, 0x11), (5, 0x1, 0x11), (6, 0x111, 0)}
    for d in (4, 5, 6, 7):
        for i, e in ((1, 1), (2, 2), (2, 0), (1, 0), (0, 2), (0, 1), (0x11, 1), (1, 0x11), (0x12, 0), (0x22, 2), (0x111, 0), (3, 3), (2, 3), (1, 3), (3, 1), (0x31, 0), (0, 0x13)):
            if thorough or (d, i, e) not in slow:
                j.append(strings(i, e, d, text=f"layouts {i:x} / {e:x}, selection {d}"))
    # Long strings of one kind with symbolic characters in front or behind.
    for n in (4, 8, 16, 40, 100) + ((200,) if thorough else ()):
        for before in (0, 1):
            for length in (1, 2, 3, 4):
                j.append(strings(length, 0, 0, pads=n, length=length, before=before, text=f"{n} + 1 characters of length {length}"))
            if n == 100 or n == 40:
                # A character of another kind as well.
                for length in (1, 2, 3, 4):
                    for i in {0x1: (0x14, 0x21, 0x13), 2: (0x12, 0x32), 3: (0x13, 0x34, 0x23), 4: (0x14, 0x41, 0x34, 0x24)}[length] if thorough or n == 40 else {1: (0x14,), 2: (0x12,), 3: (0x34,), 4: (0x14, 0x41)}[length]:
                        j.append(strings(i, 0, 0, pads=n, length=length, before=before, text=f"{n} characters of length {length}, 2 more of layout {i:x}"))
            if n > 40:
                continue
            j.append(strings(0x1, 0x1, 0, pads=n, before=before, minus=1, text=f"{n} + 1 excluded ASCII characters"))
            j.append(strings(0x1, 0x1, 2, pads=n, before=before, minus=before, text=f"{n} + 1 + 1 ASCII characters, any bounds from 256"))
    # Many of them apart from each other, included or excluded.
    for n in (40, 70, 140, 300):
        for length in (3, 4):
            for k in (dict(), dict(before=1), dict(minus=1)):
                j.append(strings(0 if "minus" in k else length, length if "minus" in k else 0, 3 if "minus" in k else 0, pads=n, length=length, pattern=3, text=f"{n} characters of length {length} two apart, {k}", **k))
    # Runs of neighbours, of characters two apart; the same on both sides.
    for pattern in (1, 2, 3):
        for length in (1, 2, 3, 4):
            for n in (3, 12) if pattern == 3 else (3, 25):
                for k in (dict(), dict(before=1), dict(both=1)):
                    j.append(strings(length * 0x11, 0, 0, pads=n, length=length, pattern=pattern, text=f"{n} characters of length {length} in pattern {pattern}, 2 more, {k}", **k))
            for n in (3, 12):
                j.append(strings(length, length, 4 if length == 1 else 2, pads=n, length=length, pattern=pattern, minus=1, text=f"{n} characters of length {length} in pattern {pattern} excluded"))
    # Many in a small window: every order, repetition and adjacency.
    for i, e, d, lo in ((0x2222, 0, 0, 0x430), (0x1111, 0, 0, 0x60), (0x111, 0, 1, 0x60), (0, 0x2222, 2, 0x430), (0x222, 0x222, 0, 0x430), (0x333, 0x33, 3, 0x2027), (0x1111, 0x1, 0, 0x3e), (0x4444, 0, 0, 0x10000), (0x3333, 0, 0, 0xfffc)):
        j.append(strings(i, e, d, lo=lo, hi=lo + (5 if thorough else 4), text=f"layouts {i:x} / {e:x}, selection {d}, five neighbours from U+{lo:04X}"))
    for i, e, d, k in (
        (0x3, 0, 0, dict(pads=8, length=1)),
        (0x1, 0, 0, dict(pads=16, length=3)),
        (0x1, 0x1, 0, dict(pads=16, length=1)),
        (0x3, 0x3, 0, dict(pads=16, length=3, before=1)),
        (0x3, 0x3, 0, dict(pads=40, length=3, before=1, minus=1)),
        (0x11, 0, 0, dict(pads=30, length=1)),
        (0x11, 0x1, 0, dict(pads=4, length=1)),
        (0x1, 0, 1, dict(pads=4, length=1)),
        (0x1, 0, 1, dict(pads=16, length=1, before=1)),
        (0x3, 0x1, 3, dict(pads=16, length=1, minus=1)),
        (0x1, 0x3, 3, dict(pads=16, length=3, minus=1)),
    ):
        j.append(strings(i, e, d, text=f"layouts {i:x} / {e:x}, selection {d}, {k}", **k))
    return j


@prop("C18")
def c18(thorough):
    j = [Job("algebra", "h_equal_values", [0, 0, 0, 0], [1], "any two versions, any two categories"),
         Job("algebra", "h_two", [0, 0, 0, 0], [1], "any two category sets")]

    def equal(v, w, b, c, d, text):
        need = [1, 3, 4] if b == c and v == w else [4]
        if (b & 12) == 12 and b == c and v == w:
            need.append(2)
        j.append(Job("builder", "h_equal", [v | w << 8, b, c, d], need, text))

    for d in (0, 2):
        how = ", the second in another order" if d else ""
        for v in V if thorough else (OLD, 5, NEW):
            equal(v, v, 3, 3, d | 1, f"any categories in version {v}{how}")
        equal(NEW, NEW, 12, 12, d, "any bounds" + how)
        equal(NEW, NEW, 4, 4, d, "any minimum" + how)
        equal(NEW, NEW, 48, 48, d, "any characters" + how)
        equal(NEW, NEW, 13, 13, d, "included categories and bounds" + how)
        equal(NEW, NEW, 14, 14, d, "excluded categories and bounds" + how)
        equal(NEW, NEW, 60, 60, d, "bounds and characters" + how)
        equal(NEW, NEW, 15 | 48 if thorough else 19, 15 | 48 if thorough else 19, d, "categories and characters" + how)
        equal(NEW, NEW, 35, 35, d, "categories and excluded characters" + how)
        # Different settings.
        for b, c in ((1, 2), (4, 8), (16, 32), (3, 0), (0, 12), (0, 48), (17, 20)):
            equal(NEW, NEW, b, c, d, f"settings {b:06b} and {c:06b}{how}")
        for v, w in [(v, w) for v in V for w in V if v != w] if thorough else [(v, v + 1) for v in V[:-1]] + [(NEW, OLD), (7, 3), (2, 9)]:
            equal(v, w, 3, 3, d | 1, f"any categories in versions {v} and {w}{how}")
            if not d:
                equal(v, w, 0, 0, 0, f"nothing set in versions {v} and {w}")
    for v in V:
        j.append(Job("builder", "h_equal_errors", [v, 0, 0, 0], [1, 2], f"any four bounds, versions {v} and the latest"))
    for a in (1, 2, 0x11, 0x21, 0x111, 3, 4, 0x1111, 0x31):
        for b in sorted({a, 1, 0x11}):
            for c in range(4):
                same = a == b and c in (0, 3)
                j.append(Job("names", "h_equal_names", [a, b, c, 0], [1, 2] if same else [2], f"rejected texts with layouts {a:x} and {b:x}, kinds {c:02b}"))
    for c in range(4):
        j.append(Job("names", "h_equal_names", [0, 0, c, 0], [1] if c in (0, 3) else [2], f"the empty text, kinds {c:02b}"))
    # Queries with any characters.
    for d in (0, 1):
        for a, b, lo in ((0x1, 0x1, 0), (0x2, 0x2, 0), (0x3, 0x3, 0), (0x4, 0x4, 0), (0x11, 0x11, 0x41), (0x33, 0x33, 0x2026), (0x13, 0x31, 0), (0x12, 0x3, 0), (0x111, 0x111, 0x61), (0x11, 0x111, 0x61), (0x22, 0x4, 0)):
            j.append(Job("builder", "h_equal_texts", [a, b, lo | (lo + 4 if lo else MAX) << 32, d], [1, 2] if a == b else [2], f"characters {a:x}, {b:x}, any from U+{lo:04X}, {('included', 'excluded')[d]}"))
    for a in (0x1, 0x3, 0x14):
        for d in (2, 3):
            j.append(Job("builder", "h_equal_texts", [a, a if d == 2 else 0, MAX << 32, d], [2], f"characters {a:x} included, the same or none excluded"))
    return j
