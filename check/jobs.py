"""Jobs of every property: harness functions, parameters, limits, stated bounds."""

# indices into the size table of the harness
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 127, 257, 1025, 70001]
LEAF = list(range(0, 38))
TEXT = list(range(40, 61))
STRUCTS = list(range(22, 37))
# values of `var` for 2, 5, 10 and 20 enclosing structs
DEPTHS = (8, 10, 12, 14)
ARRAY, SET, MAP = 64, 65, 66
KINDS = LEAF + TEXT
FAULTS = range(1, 7)
# outages, failing seeks, two transient faults
MOREFAULTS = (7, 8, 9)
# string shapes: ASCII, two, three and four byte characters, mixtures, fixed
SHAPES = range(0, 7)


# formats and transformations of a text of every kind
NESTS = [(k, t) for k in (58, 61, 62, 63) for t in range(40, 61)]


def pk(kind=0, sub=0, n=2, sl=3, mode=0, var=0):
    return kind | sub << 8 | n << 16 | sl << 20 | mode << 24 | var << 28


class Job:
    def __init__(self, harness, param, core, secs, depth, cost):
        self.harness, self.param, self.core, self.secs, self.depth, self.cost = harness, param, core, secs, depth, cost

    def __str__(self):
        p = self.param
        return f"{self.harness}({p}: kind={p & 255} sub={p >> 8 & 255} n={p >> 16 & 15} sl={p >> 20 & 15} mode={p >> 24 & 15} var={p >> 28})"


class Set:
    def __init__(self):
        self.d = {}

    def add(self, harness, params, core=True, secs=150, depth=400, cost=0):
        if isinstance(params, int):
            params = [params]
        for p in params:
            k = (harness, p)
            if k not in self.d or (core and not self.d[k].core):
                self.d[k] = Job(harness, p, core, secs, depth, cost)


# labels every harness has to reach somewhere, as a guard against vacuity; ("end",) if not listed
NEED = {
    "h_any": ("accepted", "rejected"),
    "h_any_raw": ("rejected",),
    "h_any_structs": ("rejected",),
    "h_any_member": ("accepted", "rejected"),
    "h_any_text": ("accepted", "rejected"),
    "h_file_any": ("rejected",),
    "h_header_any": ("rejected",),
    "h_file_tail": ("accepted", "rejected"),
    "h_plz_any": ("rejected",),
    "h_deep": ("accepted", "rejected", "end"),
    "h_stable": ("accepted", "rejected"),
    "h_file_dup": (),
    "h_size": ("accepted", "rejected"),
    "h_size_nested": ("accepted", "rejected"),
    "h_size_structs": ("accepted", "rejected"),
    "h_count": ("headed", "end"),
    "h_count_nested": ("headed",),
    "h_file_name": ("end",),
    "h_count_elem": ("written",),
    "h_count_parts": ("string", "header"),
    "h_count_text": ("text",),
    "h_str_read": ("null", "text", "malformed"),
    "h_ver_struct": ("wide", "narrow"),
    "h_ver_text": ("new", "old"),
    "h_ver_culture": ("written",),
    "h_hdr": ("v2", "v3", "rejected"),
    "h_hdr_strings": ("accepted", "rejected"),
    "h_hint_key": ("hit", "miss"),
    "h_hint_stack": ("ok", "err"),
    "h_plz_frame": ("accepted", "kind", "magic"),
    "h_plz_read": ("accepted", "rejected"),
    "h_wfault_zlib": ("ok", "err", "fired"),
    "h_guid_text": ("nil", "spelled"),
    "h_guid_parse_short": ("rejected",),
    "h_guid_parse": ("parsed",),
    "h_guid_parse_wide": ("rejected",),
    "h_eqhash": ("equal", "different"),
    "h_eqhash_elem": ("equal", "different"),
    "h_eqorder": ("equal", "end"),
    "h_wfault": ("ok", "err", "fired"),
    "h_wfault_elem": ("ok", "err", "fired"),
    "h_wfault_parts": ("ok", "err", "fired"),
    "h_wfault_file": ("ok", "err", "fired"),
    "h_wfault_plz": ("ok", "err"),
    "h_rfault": ("ok", "err", "fired"),
    "h_rfault_file": ("ok", "err", "fired"),
    "h_rfault_header": ("ok", "err", "fired"),
    "h_bad_header": ("accepted", "index", "terminator", "size"),
    "h_bad_bool": ("accepted", "rejected"),
    "h_bad_enum": ("accepted", "rejected"),
    "h_bad_structs": ("accepted", "rejected"),
    "h_local_after": ("ok", "err"),
    "h_any_hint": ("rejected",),
    "h_ver_file": ("written", "refused"),
}

ASSUME = [
    "x86-64, 64-bit usize, little endian, rustc stable as installed",
    "SipHash values are abstracted to a constant (hash tables degrade to linear search); results may not depend on the order of std hash maps",
    "UTF-8 validation of core is replaced by an equivalent formula (Unicode table 3-7)",
    "text produced by Debug and by Display of floating point and symbolic integers is a placeholder",
    "the checksum of zlib streams is abstracted to a constant in decoder, encoder and harness",
    "memory is never exhausted; allocations above 64 MiB are violations",
    "trusted: rustc and LLVM up to the executed IR, the executor in /verif/symex, z3",
]

PROPS = {}


def prop(pid, **kw):
    def deco(f):
        PROPS[pid] = dict(kw, make=f)
        return f

    return deco


def jobs(pid, tier):
    s = Set()
    PROPS[pid]["make"](s, tier == "thorough")
    return list(s.d.values())


@prop(
    "P06",
    bounds="writing: strings of 0-5 characters (quick), up to 65 (thorough), every character of the UTF-8 width class arbitrary, for seven width patterns; "
    "reading: every byte sequence of up to 13 (quick) or 20 (thorough) bytes, length field included, with and without NULL allowed; "
    "writing and reading strings of 33-70001 characters and of 131070-131073 units with arbitrary ends",
    outside="other long strings",
)
def p06(s, deep):
    for m in SHAPES:
        s.add("h_str_write", [pk(sl=n, mode=m) for n in range(0, 11 if deep else 7)])
    s.add("h_str_write", [pk(sl=n) for n in range(7, 13 if deep else 11)])
    s.add("h_str_write", [pk(sl=n, mode=m) for n in range(10, 16) for m in SHAPES if (n, m) != (15, 3)], cost=5)
    s.add("h_str_limit", [pk(n=n, mode=m) for n in range(1, 5) for m in (0, 1)], secs=400, cost=50)
    s.add("h_str_null", 0)
    for n in range(0, 21 if deep else 14):
        s.add("h_str_read", [n, n | 256])


@prop(
    "P01",
    bounds="single properties of every kind: header names fixed, all sizes, indices, terminators, counts and the payload arbitrary, payload of 0-8 and 16 bytes (quick) or up to 33 (thorough); containers of every element kind with 4-16 arbitrary payload bytes; "
    "texts of every history kind followed by up to 16 arbitrary bytes; arbitrary bytes for strings up to 20, whole headers and files up to 40 bytes, property headers up to 17 bytes, and up to 17 bytes after valid file prefixes; "
    "hints with arbitrary values of up to 24 characters; nesting up to 70001 levels; containers whose compressed payload is arbitrary up to 3 bytes; call depth 400 frames (4000 for nesting), allocation 64 MiB",
    outside="longer arbitrary inputs; running time; memory held by many small allocations",
)
def p01(s, deep):
    opt = dict(core=False, secs=1200, cost=100)
    for k in LEAF:
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8):
            s.add("h_any", [pk(k, n=n, mode=m) for m in range(8)], cost=n)
        s.add("h_any_raw", [pk(k, n=n) for n in (0, 4, 8, 9)], cost=1)
        s.add("h_any_member", [pk(k, n=n, mode=m) for n in (4, 7) for m in (0, 1)], cost=5)
        if deep:
            s.add("h_any", [pk(k, n=n, mode=m) for n in (9, 10) for m in range(8)], **opt)
            s.add("h_any_member", [pk(k, n=n, mode=m, var=v) for n in (8, 9) for m in (0, 1) for v in (0, 1)], **opt)
            s.add("h_any_raw", pk(k, n=10), **opt)
    for k in (ARRAY, SET, MAP):
        for e in LEAF:
            for m in (0, 3, 4, 7):
                s.add("h_any", [pk(k, sub=e, n=n, mode=m, var=5) for n in (4, 7)], cost=5)
                if e != 37:
                    s.add("h_any", [pk(k, sub=e, n=8, mode=m, var=5)], cost=6)
                if deep:
                    s.add("h_any", [pk(k, sub=e, n=n, mode=m, var=5) for n in (8, 9, 10)], **opt)
    for v in range(16):
        s.add("h_any", [pk(MAP, sub=3, n=n, mode=m, var=v) for n in (7, 8) for m in (0, 2)], cost=6)
    for l in list(range(0, 25)) + [36, 48]:
        s.add("h_any_hint", [pk(l, sub=b, n=n, mode=m) for b in range(3) for n in ((4, 7, 8) if deep else (4, 7)) for m in (0, 1)], cost=3)
    for k in STRUCTS:
        s.add("h_any_structs", [pk(k, n=n, mode=m) for n in (0, 4, 7, 8) for m in (0, 1)], cost=3)
    for t in list(range(16)) + [255]:
        s.add("h_any_text", [pk(sub=t, n=n, mode=m) for n in (0, 4, 5, 7, 8) for m in (0, 1)], cost=5)
        if deep:
            s.add("h_any_text", [pk(sub=t, n=n, mode=m) for n in (9, 10) for m in (0, 1)], **opt)
    for n in range(0, 41, 2):
        if n <= 20:
            s.add("h_str_any", [n, n + 1])
        s.add("h_file_any", n)
        s.add("h_header_any", n)
    for n in range(0, 15):
        s.add("h_file_any", n | 1 << 16)
    for k in (0x30, 0x31, 0x32):
        s.add("h_plz_any", [pk(k, n=n) for n in (0, 1, 2, 3)])
        if deep:
            s.add("h_plz_any", [pk(k, n=n) for n in (4, 5, 6)], **opt)
    for t in range(5):
        s.add("h_file_tail", [pk(3, sub=t, n=n) for n in (0, 4, 7, 8, 9)], cost=10)
        s.add("h_file_tail", [pk(3, sub=t, n=n, mode=1) for n in (0, 4)], cost=10)
        if deep:
            s.add("h_file_tail", [pk(3, sub=t, n=10, mode=m) for m in (0, 1)], **opt)
    for k in range(5):
        s.add("h_deep", [pk(k, n=n) for n in (4, 8, 10, 11, 12, 13, 14, 15)], depth=4000, cost=3)


@prop(
    "P02",
    bounds="files with one to seven properties: every property kind between siblings and nested in structs in an array (up to 22 levels), 20 orderings of four kinds with arbitrary property names of 2-4 characters; "
    "payload values, versions, header fields arbitrary; strings of 3 characters, two elements per container; arbitrary property, member and struct type names of up to 48 characters (property names of every width pattern); long strings and containers as for P03; "
    "containers nested in structs in containers; stability of accepted input as for P01 with up to 8 payload bytes",
    outside="other long contents; files whose padding before the end differs",
)
def p02(s, deep):
    for k in KINDS:
        for v in (0, 1):
            s.add("h_file", [pk(k, var=v)] + ([pk(k, var=v, mode=m) for m in SHAPES] if deep else [pk(k, var=v, mode=5)]), cost=1)
            s.add("h_file_nested", pk(k, var=v), cost=1)
        s.add("h_file_nested", [pk(k, var=v) for v in DEPTHS if k not in TEXT], cost=2)
    for k in (ARRAY, SET):
        for e in LEAF:
            s.add("h_file", [pk(k, sub=e, n=n) for n in ((0, 1, 2, 3) if deep else (0, 2))], cost=1)
    for e in (3, 12, 13, 15, 30, 32):
        for v in range(16):
            s.add("h_file", pk(MAP, sub=e, var=v), cost=1)
    for k in range(20):
        s.add("h_file_many", [pk(k, n=4, sl=4), pk(k, sub=3, n=4, sl=2, var=1)], cost=1)
    s.add("h_file_dup", pk())
    s.add("h_struct_array", [pk(n=n) for n in (1, 2, 3)])
    for k in range(20):
        s.add("h_file_members", [pk(k, sub=t, n=n, sl=sl, var=k & 1) for t, n, sl in NAMES], cost=1)
        for c in (ARRAY, SET, MAP):
            if (c, k) != (MAP, 11):
                s.add("h_file_nested", pk(c, sub=k), cost=1)
    s.add("h_file_members", [pk(k, sub=t, n=n, sl=sl, var=v) for k in (1, 12) for t, n, sl, v in more_names()], cost=1)
    s.add("h_file_large", [pk(k, n=n, sl=n, var=v) for k in (0, 7, 13) for n in (9, 10, 13) for v in (0, 1)], cost=10)
    large(s, "h_file", deep)
    nests(s, "h_file", deep)
    for k in KINDS:
        s.add("h_file_name", [pk(k, n=n, sl=sl, var=k & 1) for n, sl in ((2, 0), (0, 0), (1, 3), (2, 4))], cost=1)
    for k in (ARRAY, SET, MAP):
        for e in LEAF:
            if k != MAP or e not in (11, 37):
                s.add("h_file_name", [pk(k, sub=e, n=n, sl=sl) for n, sl in ((2, 0), (0, 0), (1, 4))], cost=1)
    for m in SHAPES:
        s.add("h_file_name", [pk(3, sl=sl, mode=m) for sl in range(1, 9)])
    s.add("h_file_name", [pk(k, sl=sl, var=2) for k in (9, 36) for sl in range(16)], cost=1)
    for k in LEAF:
        s.add("h_stable", [pk(k, n=n, mode=m) for n in ((4, 5, 7, 8) if deep else (4, 7)) for m in range(8)], cost=3)


# lengths of a struct type name, number of members and lengths of their names
NAMES = [(4, 2, 4), (6, 2, 1), (7, 1, 5), (5, 3, 2), (1, 1, 7), (8, 1, 8), (3, 1, 9), (2, 0, 0), (9, 1, 3)]



def more_names():
    """Every length of a type name up to 48, further lengths of member names."""
    return [(t + 16, 1, 3, 0) for t in range(49)] + [(3, 1, sl, 2) for sl in range(16)]


VALUES = (
    "every value of every property kind: numbers, flags, GUIDs and string characters arbitrary; strings of 3 characters in ASCII and mixed widths (quick), seven width patterns and up to 17 characters (thorough); "
    "containers of 0-2 elements (quick), up to 5 (thorough); texts nested in formats and transformations up to four levels"
)
LONG = (
    "; strings of 64-70001 characters, lists of 17 and 257 elements (thorough: up to 1025), byte and integer arrays of 70001 elements, maps of 17 entries (thorough: up to 64), only the first and last parts of these long ones arbitrary"
)
NAMED = "; structs with arbitrary type names of every length up to 48 and arbitrary member names of up to 48 characters"


def nests(s, h, deep, var=(0, 1), of=NESTS):
    for k, t in of:
        s.add(h, [pk(k, sub=t, n=n, var=v) for v in var for n in ((1, 2) if deep else (1,))], cost=2)


def every_kind(s, h, deep, elems=True, shapes=(0, 5), cost=0, nest=NESTS):
    for k in KINDS:
        s.add(h, [pk(k, mode=m) for m in (SHAPES if deep else shapes)], cost=cost)
        s.add(h, [pk(k, n=n, sl=sl) for n in (0, 1, 3) for sl in (0, 1)], cost=cost)
    nests(s, h, deep, of=nest)
    if elems:
        for k in (ARRAY, SET):
            for e in LEAF:
                s.add(h, [pk(k, sub=e, n=n) for n in ((0, 1, 2, 3, 5) if deep else (0, 2))], cost=cost)
        for e in TEXT:
            s.add(h, [pk(k, sub=e, n=n) for k in (ARRAY, SET) for n in ((1, 2) if deep else (1,))], cost=cost)
        for e in (3, 12, 13, 15, 30, 32) if not deep else (0, 3, 5, 6, 9, 12, 13, 14, 15, 17, 24, 30, 32, 36):
            for v in range(16):
                s.add(h, pk(MAP, sub=e, var=v), cost=cost)


def containers(s, h, var=(0, 9)):
    for e in LEAF:
        s.add(h, [pk(k, sub=e, n=n) for k in (ARRAY, SET) for n in (0, 2)], cost=1)
    for e in (3, 12, 13, 15, 30, 32):
        s.add(h, [pk(MAP, sub=e, n=n, var=v) for n in (0, 2) for v in var], cost=1)


def large(s, h, deep, unknown=True, huge=True, cost=8):
    """Long strings and containers; only both ends of them arbitrary."""
    for k in (12, 13, 15, 17, 18, 19, 21, 35, 36, 44, 46, 48, 51, 59):
        for sl in (11, 12, 13, 14):
            s.add(h, [pk(k, n=1, sl=sl, mode=m) for m in ((0, 2, 5) if deep else (0, 5))], cost=cost)
    for k in (13, 17, 21, 44):
        s.add(h, [pk(k, n=1, sl=15, mode=m) for m in (0, 5)], cost=cost)
    for k in (19, 20, 21, 35, 36, 46, 48) + ((37,) if unknown else ()):
        s.add(h, [pk(k, n=n) for n in (8, 11, 13)], cost=cost)
    for k in (ARRAY, SET):
        for e in LEAF if unknown else LEAF[:-1]:
            s.add(h, [pk(k, sub=e, n=n) for n in ((8, 10, 13, 14) if deep else (9, 13))], cost=cost)
    for v in range(16):
        for e in (3, 12, 13, 15):
            s.add(h, [pk(MAP, sub=e, n=n, var=v) for n in ((9, 10, 11) if deep else (9,))], cost=cost)
    if unknown:
        s.add(h, pk(37, n=15), cost=cost)
    if huge or deep:
        s.add(h, [pk(ARRAY, sub=10, n=15), pk(ARRAY, sub=3, n=15)], secs=250, cost=cost * 5)


@prop("P03", bounds=VALUES + LONG + NAMED, outside="other long contents; kinds the crate cannot represent")
def p03(s, deep):
    every_kind(s, "h_layout", deep)
    for k in LEAF:
        s.add("h_layout_elem", [pk(k, mode=m) for m in (SHAPES if deep else (0, 1, 5))])
    for k in KINDS:
        s.add("h_layout_nested", [pk(k, mode=m) for m in (SHAPES if deep else (0,))])
        s.add("h_layout_nested", [pk(k, var=v) for v in DEPTHS if k not in TEXT], cost=1)
    containers(s, "h_layout_nested")
    large(s, "h_layout", deep)
    for k in range(20):
        s.add("h_layout_members", [pk(k, sub=t, n=n, sl=sl) for t, n, sl in NAMES], cost=1)
    s.add("h_layout_members", [pk(k, sub=t, n=n, sl=sl, var=v) for k in (1, 12) for t, n, sl, v in more_names()], cost=1)


@prop("P04", bounds=VALUES + "; every 32-bit declared size (64-bit for element blocks of struct arrays)" + LONG, outside="other long contents")
def p04(s, deep):
    every_kind(s, "h_size", deep, shapes=(0,))
    large(s, "h_size", deep, unknown=False)
    for k in KINDS:
        s.add("h_size_nested", [pk(k, mode=m) for m in (SHAPES if deep else (0,))])
        s.add("h_size_nested", [pk(k, var=v) for v in DEPTHS if k not in TEXT and (v == 8 or k != 37)])
    containers(s, "h_size_nested")
    for k in STRUCTS:
        s.add("h_size_structs", [pk(ARRAY, sub=k, n=n) for n in (0, 1, 2, 3, 9)])


@prop("P05", bounds=VALUES + LONG + "; headers with up to 257 custom versions", outside="other long contents")
def p05(s, deep):
    every_kind(s, "h_count", deep)
    large(s, "h_count", deep)
    for k in KINDS:
        s.add("h_count_nested", [pk(k, var=v) for v in (0,) + DEPTHS if v == 0 or k not in TEXT])
    containers(s, "h_count_nested")
    for k in LEAF:
        s.add("h_count_elem", [pk(k, mode=m) for m in (SHAPES if deep else (0, 1, 5))])
    for k in TEXT:
        s.add("h_count_text", [pk(k, mode=m) for m in (SHAPES if deep else (0, 5))])
    for m in SHAPES:
        s.add("h_count_parts", [pk(n=n, sl=sl, mode=m) for n in (0, 2) for sl in (0, 1, 3, 5)])
    s.add("h_count_parts", [pk(n=n, sl=sl) for n in (1, 5, 7, 9, 10, 13) for sl in (2, 12, 14)], cost=3)


@prop(
    "P07",
    bounds="every 32-bit value of the two version numbers that select encodings, absent or present; vectors, rotators, quaternions and texts of every history kind with arbitrary contents, strings of 3 characters; whole files with arbitrary engine numbers and branch names of 5 and 8 characters, plain and in an uncompressed container",
    outside="versions stored under other keys (checked to be ignored for one arbitrary key)",
)
def p07(s, deep):
    for k in range(22, 30):
        s.add("h_ver_struct", [pk(k, sub=b, var=v, mode=m) for v in range(3) for m in range(2) for b in range(2)])
    for k in TEXT:
        s.add("h_ver_text", [pk(k, var=v, mode=m) for v in range(12) if v & 3 < 3 for m in (0, 1)], cost=5)
    for k, t in NESTS:
        if (k, t) != (63, 57):
            s.add("h_ver_text", [pk(k, sub=t, n=1, sl=1, var=v) for v in (0, 1, 2)], cost=8)
    for k in list(range(22, 30)) + TEXT:
        s.add("h_ver_file", [pk(k, sub=b, n=2, sl=sl, mode=m, var=v) for b in (0, 1) for sl in (5, 7) for m in range(3) for v in range(4) if sl == 7 or v == 0 or deep], cost=3)
    for k in range(40, 44):
        s.add("h_ver_culture", [pk(k, var=v) for v in range(3)])


@prop(
    "P08",
    bounds="every value of every fixed-width header field; 0-3 custom versions with arbitrary ids and numbers, up to 257 of which the first and last are arbitrary; branch and class strings of 0-4 arbitrary characters of several widths, up to 257 characters",
    outside="other long strings and tables",
)
def p08(s, deep):
    for n in range(6 if deep else 4):
        for m in range(0, 6):
            s.add("h_hdr", pk(n=n, mode=m))
            s.add("h_hdr_value", [pk(sub=b, n=n, mode=m) for b in (0, 1)])
    for b in (0, 1):
        s.add("h_hdr_value", [pk(sub=b, n=n, sl=sl) for n in (4, 6, 9, 10, 13) for sl in (2, 11, 13)], cost=2)
    for sl in range(1, 9 if deep else 7):
        s.add("h_hdr_strings", [pk(sub=b, sl=sl) for b in (0, 1)])


@prop(
    "P09",
    bounds="one hint with an arbitrary key of every length from 0 to 65 characters, up to 33 enclosing names and up to 20 enclosing structs; 12 shapes of struct in map, set and struct, alone and in the second entry of each kind of container; reading from an arbitrary stream position; pairs of siblings with their own hints; "
    "path restoration for every kind with one arbitrary byte at an arbitrary position",
    outside="deeper paths, more hints, several corrupted bytes",
)
def p09(s, deep):
    for k in range(12):
        s.add("h_hint_key", [pk(k, n=n, sl=sl) for n in (0, 1, 3) for sl in range(4)], cost=1)
        s.add("h_hint_key", [pk(k, sub=l, n=n, mode=1) for n in (0, 1, 2) for l in range(66)], cost=1)
        for b in range(12):
            s.add("h_hint_siblings", [pk(k, sub=b, mode=m) for m in range(3)], cost=1)
    # inside the second struct of a container
    for k in range(12, 60):
        s.add("h_hint_key", [pk(k, n=n, sl=sl) for n in (0, 1) for sl in range(3)], cost=1)
        s.add("h_hint_siblings", [pk(k, sub=(k * 7 + b) % 60, mode=m) for b in range(4) for m in range(3)], cost=1)
    # long paths
    for k in range(12):
        s.add("h_hint_key", [pk(k, n=n, sl=sl) for n in (5, 8, 9, 10) for sl in range(3)], cost=2)
        s.add("h_hint_key", [pk(k, sub=d, mode=2, sl=sl) for d in (1, 2, 3, 4, 6, 8, 12, 20) for sl in range(3)], cost=2)
    for k in KINDS:
        s.add("h_hint_stack", pk(k), secs=100, cost=20)
    for k in (ARRAY, SET, MAP):
        for e in (3, 13, 24, 32, 36):
            s.add("h_hint_stack", pk(k, sub=e, n=1 if k == MAP else 2, var=9 if k == MAP else 0), cost=30)


@prop(
    "P10",
    bounds="containers around files with one property of every kind and arbitrary contents; every value of the length fields, magic and kind byte; stored and compressed streams: payload of 1-8 bytes arbitrary (stored blocks), fixed payloads through the real compressor, optionally cut, with trailing bytes or a corrupted byte; written at and over existing contents",
    outside="compressed payloads whose Huffman coding is symbolic; large payloads",
)
def p10(s, deep):
    for k in KINDS:
        s.add("h_plz_none", [pk(k), pk(k, var=1)], cost=1)
    for k in KINDS if deep else (3, 9, 13, 15, 24, 37, 44):
        s.add("h_plz_frame", pk(k), cost=10)
    for k in (0x31, 0x32):
        for n in (1, 2, 3, 8):
            s.add("h_plz_read", [pk(k, n=n, sl=0), pk(k, n=n, sl=0, mode=1), pk(k, n=n, sl=8)], cost=3)
            s.add("h_plz_read", pk(k, n=n, sub=1, sl=0), core=n == 1, secs=600 if deep else 60, cost=30)
        for n in (1, 2):
            s.add("h_plz_write", [pk(k, n=n), pk(k, n=n, mode=1)], cost=3)
        s.add("h_plz_read", [pk(k, n=1, sl=0, mode=1, var=v) for v in (12, 13, 14, 15)], secs=300, cost=20)
        s.add("h_plz_write", [pk(k, n=1, mode=m, var=v) for m in (0, 1) for v in (12, 13, 14, 15)], secs=400, cost=40)
    large(s, "h_plz_none", deep, huge=False)


@prop(
    "P11",
    bounds="all 2^128 identifiers for numeric conversion and text; parsing: every string of 0-4 bytes, and the seven layouts of 32-36 characters with arbitrary characters at every pair of adjacent positions and with wide characters at every position",
    outside="texts with more than two arbitrary characters",
)
def p11(s, deep):
    s.add("h_guid_num", 0)
    s.add("h_guid_text", range(48))
    s.add("h_guid_parse_short", range(0, 5))
    for t in range(7):
        for k in range(40):
            s.add("h_guid_parse", [t | k << 4 | w << 10 for w in ((1, 2, 3) if deep else (1, 2))])
    for t in (0, 1, 2):
        for k in range(40):
            s.add("h_guid_parse_wide", [k | c << 6 | t << 9 for c in (2, 3, 4)])


@prop(
    "P12",
    bounds="pairs of values of every property kind with independently arbitrary contents (NaN bit patterns included), strings of 3 characters, containers of up to 2 elements; all pairs of different kinds; orders and insertion histories of map entries",
    outside="longer strings and containers",
)
def p12(s, deep):
    for k in KINDS:
        s.add("h_eqhash", [pk(k)] + ([pk(k, mode=m) for m in SHAPES] if deep else []))
        s.add("h_eqself", [pk(k, mode=m) for m in (SHAPES if deep else (0, 5))])
    for k in LEAF:
        s.add("h_eqhash_elem", pk(k))
        for q in LEAF:
            if k < q:
                s.add("h_eqdiff", [pk(k, sub=q), pk(k, sub=q, mode=1)])
    for k in (ARRAY, SET):
        for e in LEAF:
            s.add("h_eqhash", pk(k, sub=e))
            s.add("h_eqself", pk(k, sub=e))
    for e in (3, 12, 13, 15, 30, 32):
        for v in range(16):
            s.add("h_eqhash", pk(MAP, sub=e, var=v))
            s.add("h_eqself", pk(MAP, sub=e, var=v))
            s.add("h_eqorder", pk(e, var=v))
            s.add("h_eqhistory", [pk(e, var=v, n=n) for n in (1, 2)])
    s.add("h_eqorder", 0)
    large(s, "h_eqself", deep, huge=False)
    nests(s, "h_eqself", deep)
    for k, t in NESTS:
        if not 50 < t < (55 if k == 58 else 58):
            s.add("h_eqhash", pk(k, sub=t, n=1, sl=2), cost=2)
    for e in LEAF:
        s.add("h_eqhash", [pk(k, sub=e, n=n) for k in (ARRAY, SET) for n in (4, 9)], cost=3)
    for k in (12, 13, 15, 17, 21, 36, 44):
        s.add("h_eqhash", [pk(k, sl=sl, n=1) for sl in (10, 13, 14)], cost=3)
    s.add("h_eqhash", [pk(37, n=n) for n in (9, 11, 13, 14)], cost=3)


@prop(
    "P13",
    bounds=VALUES + "; six writer behaviours (error, interruption, short write, zero write, byte-wise, halves) at every call of the writer; outages from a call on, failing seeks and two faults at arbitrary calls for selected kinds; strings, headers, whole files, containers; strings and payloads of 64-70001 bytes and lists of 17 elements",
    outside="more than two faults; other long values",
)
def p13(s, deep):
    for k in KINDS:
        s.add("h_wfault", [pk(k, var=f, mode=m) for f in FAULTS for m in ((0, 5) if deep else (0,))])
    for k in LEAF:
        s.add("h_wfault_elem", [pk(k, var=f, mode=m) for f in FAULTS for m in ((0, 5) if deep else (0,))])
    for k in (ARRAY, SET):
        for e in LEAF:
            s.add("h_wfault", [pk(k, sub=e, var=f) for f in (FAULTS if deep else (1, 3))])
    for f in FAULTS:
        for m in (0, 1, 5):
            s.add("h_wfault_parts", [pk(sub=b, var=f, mode=m) for b in (0, 1)])
        for k in KINDS if deep else (3, 9, 12, 13, 24, 36, 37, 44):
            s.add("h_wfault_file", [pk(k, n=n, var=f) for n in (1, 2)], cost=2)
            s.add("h_wfault_plz", pk(k, var=f), cost=2)
    for f in FAULTS:
        s.add("h_wfault", [pk(k, n=1, sl=sl, mode=m, var=f) for k in (12, 13, 17, 21, 36, 44) for sl in (11, 13, 14, 15) for m in (0, 5) if (k, sl, m) != (12, 15, 5)], cost=4)
        s.add("h_wfault", [pk(37, n=n, var=f) for n in (9, 11, 13, 14, 15)], cost=4)
        s.add("h_wfault", [pk(k, sub=e, n=9, var=f) for k in (ARRAY, SET) for e in (3, 9, 13, 30, 36)], cost=4)
        s.add("h_wfault", [pk(k, sub=t, n=1, var=f) for k, t in NESTS], cost=2)
        s.add("h_wfault_file", [pk(k, n=n, sl=n, var=f) for k in (13, 37) for n in (13, 14)], cost=4)
    for k in (0x31, 0x32):
        s.add("h_wfault_zlib", [pk(k, n=n, var=f) for n in (1, 2) for f in ((*FAULTS, *MOREFAULTS) if deep else (1, 3, 7, 8))], cost=5)
    for f in MOREFAULTS:
        s.add("h_wfault_parts", [pk(sub=b, var=f) for b in (0, 1)])
        for k in KINDS if deep else (3, 13, 24, 36):
            if f != 8:
                s.add("h_wfault", pk(k, var=f), cost=2)
            s.add("h_wfault_file", pk(k, n=1, var=f), cost=4)
            s.add("h_wfault_plz", pk(k, var=f), cost=4)


@prop(
    "P14",
    bounds=VALUES + "; cut at every byte; six reader behaviours (error, interruption, short read, end of file, byte-wise, halves) at every call of the reader; failing position queries at every call, outages and two faults at arbitrary calls for selected kinds; properties, elements, headers, whole files; strings and payloads of 64-70001 bytes (cut: up to 257) and lists of 17 elements",
    outside="more than two faults; other long values",
)
def p14(s, deep):
    for k in KINDS:
        s.add("h_cut", [pk(k, mode=m) for m in ((0, 1, 5) if deep else (0,))])
        s.add("h_rfault", [pk(k, var=f, mode=m) for f in FAULTS for m in ((0, 5) if deep else (0,))])
    for k in LEAF:
        s.add("h_cut_elem", pk(k))
    for k in (ARRAY, SET):
        for e in LEAF:
            s.add("h_cut", pk(k, sub=e))
            s.add("h_rfault", [pk(k, sub=e, var=f) for f in (FAULTS if deep else (1, 3))])
    for n in (1, 2):
        for k in KINDS if deep else (3, 9, 12, 13, 24, 36, 37, 44):
            s.add("h_cut_file", pk(k, n=n), cost=2)
            s.add("h_rfault_file", [pk(k, n=n, var=f) for f in FAULTS], cost=2)
        for b in (0, 1):
            s.add("h_cut_header", pk(sub=b, n=n))
            s.add("h_rfault_header", [pk(sub=b, n=n, var=f) for f in (*FAULTS, *MOREFAULTS)])
    for k in KINDS:
        s.add("h_rfault", [pk(k, var=f) for f in ((7, 8, 9) if deep else (8,))], cost=1)
    for f in FAULTS:
        s.add("h_rfault", [pk(k, n=1, sl=sl, mode=m, var=f) for k in (12, 13, 17, 21, 36, 44) for sl in (11, 13, 14) + ((15,) if f != 5 else ()) for m in (0, 5)], cost=4)
        s.add("h_rfault", [pk(37, n=n, var=f) for n in (9, 11, 13, 14) + ((15,) if f != 5 else ())], cost=4)
        s.add("h_rfault", [pk(k, sub=e, n=9, var=f) for k in (ARRAY, SET) for e in (3, 9, 13, 30, 36)], cost=4)
        s.add("h_rfault", [pk(k, sub=t, n=1, sl=1, var=f) for k, t in NESTS if not 50 < t < 58], cost=2)
        s.add("h_rfault_file", [pk(k, n=n, sl=n, var=f) for k in (13, 37) for n in (13, 14)], cost=4)
    s.add("h_cut", [pk(k, n=1, sl=sl, mode=m) for k in (13, 17, 44) for sl in (11, 12, 13) for m in (0, 5)], cost=4)
    s.add("h_cut", [pk(k, sub=t, n=1, sl=1) for k, t in NESTS if not 50 < t < 58], cost=2)
    s.add("h_cut", [pk(37, n=n) for n in (11, 12, 13)], cost=4)
    s.add("h_cut", [pk(k, sub=e, n=9) for k in (ARRAY, SET) for e in (3, 9, 13, 30, 36)], cost=4)
    for k in KINDS if deep else (3, 13, 24, 36, 44):
        s.add("h_rfault_file", [pk(k, n=1, var=f) for f in MOREFAULTS], cost=4)


@prop(
    "P15",
    bounds="arrays of up to 3 elements, maps of up to 4 entries (maps of 7 and 17 entries with arbitrary first and last entry), every declared type with every pair of element forms (arrays of up to 17 elements and maps with one element, key or value of another form at the first, middle or last place), contents arbitrary, empty strings included",
    outside="more elements; nested containers as elements",
)
def p15(s, deep):
    # declared types of the element forms
    FT = [0, 1, 1, 1, 2, 2, 4, 3, 5, 5, 5, 5, 6, 6, 8, 7]
    for t in range(12):
        for a in range(16):
            for b in range(16):
                s.add("h_array_new", [pk(t, sub=a | b << 4, var=v, n=3 if a == b else 2) for v in ((0, 1) if a != b else (0,))])
        s.add("h_array_new", [pk(t, sub=a | b << 4, var=v, n=n) for a in range(16) for b in range(16) if FT[a] == t and a != b for v in (0, 1, 2) for n in (3, 5, 9)])
        s.add("h_array_new", pk(t, n=0))
        # empty strings
        s.add("h_array_new", [pk(t, sub=a | b << 4, n=2, sl=0) for a in range(16) for b in range(16) if FT[a] == t or FT[b] == t])
    for k in STRUCTS:
        s.add("h_array_structs", [pk(k, n=n, sub=b) for n in (0, 1, 2) for b in (6, 15)])
    for kt in range(12):
        for vt in range(12):
            if deep:
                s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=b, n=2, sl=2) for a in range(16) for b in range(16)])
            else:
                s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=b, n=2, sl=2) for a in range(16) for b in range(16) if FT[a] == kt or FT[b] == vt])
                s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=c, n=n, sl=2) for a in range(16) for b in range(16) for c in range(16) for n in (2, 3)
                                    if FT[a] == kt and FT[b] == vt and FT[c] == vt and b != c])
                s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=c, n=n, sl=2, mode=1) for a in range(16) for b in range(16) for c in range(16) for n in (2, 4)
                                    if FT[a] == kt and FT[b] == vt and FT[c] == vt and b != c])
                s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=c, n=n, sl=2, mode=m) for a in range(16) for b in range(16) for c in range(16) for n in (2, 3) for m in (2, 3)
                                    if FT[a] == kt and FT[b] == vt and FT[c] == kt and a != c])
            # many entries, in no particular order
            s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=c, n=n, sl=2, mode=m) for a in range(1, 16) for b in range(16) for c, m in ((b, 0), (14, 1)) for n in ((6, 9) if c == b else (6,))
                                if FT[a] == kt and FT[b] == vt and a not in (1, 2, 3, 10, 11, 13, 15)], cost=1)
            s.add("h_map_new", [pk(kt | vt << 4, sub=a | b << 4, var=b, n=1, sl=0) for a in range(16) for b in range(16) if FT[a] == kt and FT[b] == vt])


@prop(
    "P16",
    bounds="unknown types with arbitrary names of 0-40 characters, payload of 0-5 bytes arbitrary and of up to 70001 bytes with arbitrary ends, between siblings in files and structs, up to three under one name, in up to three nested structs, elements of 1-5, 8, 16, 127-257, 1025 and 65282 bytes in arrays and sets of 1-5, 8, 17, 64 and 257 elements",
    outside="other payload sizes",
)
def p16(s, deep):
    for sl in range(0, 9):
        for n in range(0, 9 if deep else 6):
            s.add("h_unknown", [pk(sl=sl, n=n, mode=m) for m in (0, 1, 4, 7)])
        for v in (0, 1):
            s.add("h_unknown_in", [pk(sl=sl, var=v), pk(sl=sl, var=v, mode=7)])
    for n in range(6, 16):
        s.add("h_unknown", [pk(sl=4, n=n), pk(sl=10, n=n), pk(sl=13, n=n)])
        s.add("h_unknown_in", [pk(sl=4, n=n, var=v) for v in (0, 1)])
    for v in range(7):
        s.add("h_unknown_many", [pk(sl=sl, n=n, mode=m, var=v) for sl in (1, 3, 4) for n in (0, 1, 3) for m in (0, 1, 2)])
    for l in range(1, 41):
        s.add("h_unknown", pk(sub=l, n=2, mode=8))
        s.add("h_unknown_in", [pk(sub=l, n=n, mode=8, var=v) for n in (0, 1, 2) for v in (0, 1)])
    for v in (0, 1):
        s.add("h_unknown_elem", [pk(k, sub=b, n=n, var=v) for k, b in ((5, 0), (8, 0), (16, 0), (127, 0), (128, 0), (255, 0), (0, 1), (1, 1), (1, 4), (2, 255)) for n in (1, 2, 3)], cost=2)
        s.add("h_unknown_elem", [pk(k, n=n, var=v) for k in (1, 3) for n in (7, 9, 11, 13)], cost=2)
        for n in range(1, 6):
            for k in range(1, 5):
                for sl in (3, 4):
                    s.add("h_unknown_elem", [pk(k, sl=sl, var=v, n=n), pk(k, sl=sl, var=v, n=n, mode=7)])


@prop(
    "P17",
    bounds=VALUES + "; nested in structs in an array; structs with arbitrary type and member names; long strings and containers of up to 257 elements; whole files with both header versions and every kind of container; headers with 0-2 custom versions; "
    "identifiers with one arbitrary byte at every position; a data model of null, booleans, 64-bit integers, 32- and 64-bit floats, strings, lists and maps with string keys in order, laid out as JSON does",
    outside="the number and string syntax of particular formats; formats that cannot hold every number (JSON has no NaN or infinity); identifiers with several arbitrary bytes",
)
def p17(s, deep):
    every_kind(s, "h_serde", deep, nest=[x for x in NESTS if not 50 < x[1] < 58])
    large(s, "h_serde", deep, huge=False)
    for k in KINDS:
        s.add("h_serde_nested", [pk(k, var=v) for v in DEPTHS if k not in TEXT], cost=2)
        s.add("h_serde_nested", [pk(k, mode=m) for m in (SHAPES if deep else (0,))], core=not 52 <= k <= 54, secs=150 if deep else 20)
    for k in LEAF:
        s.add("h_serde_elem", [pk(k, mode=m) for m in (SHAPES if deep else (0, 5))])
    for k in range(20):
        s.add("h_serde_members", [pk(k, sub=t, n=n, sl=sl) for t, n, sl in NAMES], cost=1)
    for k in KINDS:
        s.add("h_serde_file", [pk(k, sub=b, var=v) for b in (range(4) if k in (3, 13, 24) else (0,)) for v in (0, 1)], cost=1)
    for b in (0, 1):
        for m in SHAPES:
            s.add("h_serde_header", [pk(sub=b, n=n, mode=m) for n in (0, 1, 2)])
    s.add("h_serde_guid", [i | b << 5 for i in range(16) for b in (0, 1)])


@prop(
    "P18",
    bounds="properties of every kind with arbitrary array index, terminator and size at arbitrary stream offsets, alone, in structs, arrays, maps and sets of structs up to three levels deep, in up to 20 nested structs; every flag byte and enum byte; struct arrays with arbitrary inner header",
    outside="diagnostic text; several defects at once (any applicable diagnosis is accepted)",
)
def p18(s, deep):
    for k in KINDS:
        s.add("h_bad_header", [pk(k, var=v) for v in range(10) if v < 7 or k != 37])
    for b in range(8):
        s.add("h_bad_bool", pk(sub=b))
        s.add("h_bad_enum", pk(sub=b))
    for k in STRUCTS:
        s.add("h_bad_structs", [pk(ARRAY, sub=k, var=v) for v in range(6)])
        s.add("h_bad_header", [pk(c, sub=k, var=v) for c in (ARRAY, SET) for v in range(6)])


@prop(
    "P19",
    bounds="files with three properties, the middle one of every kind replaced by one of every kind (quick: a third of the pairs), added, removed, moved, exchanged; members of structs nested in struct arrays likewise; "
    "element lists of 0-3 elements of every kind in arrays, sets and maps appended to, shortened, replaced, emptied, reversed; every header field; contents of old and new parts arbitrary, strings of up to 8 characters of every width; lists of 17 and 257 elements, strings and payloads of 64 and 257 bytes with arbitrary ends",
    outside="histories of more than two edits; edits of texts field by field; longer parts",
)
def p19(s, deep):
    every = KINDS + [ARRAY, SET, MAP]
    for i, a in enumerate(every):
        for j, b in enumerate(every):
            if deep or (i + j) % 3 == 0 or b in (ARRAY, SET, MAP):
                s.add("h_edit_top", pk(a, sub=b, mode=(i + j // 3) % 7, var=j & 1))
            if deep or (i + j) % 3 == 1:
                s.add("h_edit_nested", pk(a, sub=b, mode=(i + j // 3) % 4))
        for m in range(7):
            s.add("h_edit_top", [pk(a, sub=13, mode=m, var=3, n=3, sl=4), pk(3, sub=a, mode=m, n=0, sl=0)])
        for m in range(8):
            s.add("h_edit_nested", [pk(a, sub=13, mode=m, var=1, n=2, sl=4), pk(3, sub=a, mode=m, n=1, sl=7)])
    for m in range(5):
        for e in LEAF:
            for k in (ARRAY, SET):
                s.add("h_edit_list", [pk(k, sub=e, n=n, mode=m) for n in ((1, 2, 3) if deep else (2,))])
            if e not in (11, 37):
                s.add("h_edit_list", [pk(MAP, sub=e, n=2, mode=m, var=v) for v in (range(16) if deep or e in (3, 12, 13, 15) else ((e + m) % 16,)) if v != 9 or e not in (23, 25, 27, 29)])
    for k in (ARRAY, SET, MAP):
        for e in (3, 13, 30):
            s.add("h_edit_list", [pk(k, sub=e, n=1, mode=m) for m in (0, 1, 2, 3)] + [pk(k, sub=e, n=0, mode=m) for m in (0, 3)])
    for m in range(5):
        s.add("h_edit_list", [pk(k, sub=e, n=n, mode=m) for k in (ARRAY, SET, MAP) for e in (3, 9, 13, 30, 36) for n in (9,)], cost=4)
        s.add("h_edit_list", [pk(k, sub=e, n=13, mode=m) for k in (ARRAY, SET) for e in (3, 9, 13, 30, 36)], cost=8)
    for m in range(7):
        s.add("h_edit_top", [pk(a, sub=b, n=1, sl=sl, mode=m) for a, b in ((13, 3), (3, 13), (13, 44), (36, 13)) for sl in (11, 13)], cost=4)
        s.add("h_edit_top", [pk(a, sub=b, n=n, mode=m) for a, b in ((37, 3), (3, 37), (36, 37)) for n in (11, 13)], cost=4)
    for m in range(8):
        for v in range(2):
            s.add("h_edit_header", [pk(sub=t, sl=l, mode=m, var=v) for t in range(7) for l in (0, 2, 5)])


@prop(
    "P20",
    bounds="all 25 kinds and every struct type, arbitrary contents, as properties and as elements, through all accessors, conversions and constructors; every pair of engine version numbers",
    outside="accessors of the parts of texts",
)
def p20(s, deep):
    for k in KINDS:
        s.add("h_access", [pk(k), pk(k, n=0, sl=0)])
        s.add("h_access_set", pk(k))
    for k in LEAF:
        s.add("h_access_elem", pk(k))
    for e in LEAF:
        for k in (ARRAY, SET):
            s.add("h_access", pk(k, sub=e))
            s.add("h_access_set", pk(k, sub=e))
        if e not in (11, 37):
            s.add("h_access", pk(MAP, sub=e))
            s.add("h_access_set", pk(MAP, sub=e, n=1))
    for k in list(range(0, 9)) + STRUCTS[:13]:
        s.add("h_fields", [pk(k), pk(k, var=1)])
    for m in SHAPES:
        s.add("h_from_text", [pk(sl=n, mode=m) for n in (0, 1, 3, 6)])
    s.add("h_engine", 0)


@prop(
    "P21",
    bounds="properties of every kind starting at an arbitrary position below 2^48 of a stream and followed by arbitrary bytes; after reading another property any byte of which is arbitrary; files and headers likewise; files written over other contents",
    outside="readers that cannot report their position; more than one preceding read",
)
def p21(s, deep):
    for k in KINDS:
        s.add("h_local", [pk(k), pk(k, mode=5), pk(k, n=0, sl=0)])
        s.add("h_local_file", [pk(k), pk(k, var=1)])
    for k in LEAF:
        s.add("h_local_elem", [pk(k, mode=m) for m in (0, 5)])
    for e in LEAF:
        for k in (ARRAY, SET):
            s.add("h_local", [pk(k, sub=e, n=n) for n in (0, 2)])
            s.add("h_local_file", pk(k, sub=e))
        if e not in (11, 37):
            s.add("h_local", pk(MAP, sub=e, var=0 if e in (23, 25, 27, 29) else e % 16))
            s.add("h_local_file", pk(MAP, sub=e, var=0))
    large(s, "h_local", deep, huge=False)
    nests(s, "h_local", deep)
    for k in KINDS + [ARRAY, SET, MAP]:
        s.add("h_local_after", [pk(k, sub=b, n=1, sl=2) for b in (KINDS if deep else (3, 12, 36, 46, ARRAY, MAP))])


@prop("SELF", internal=True, witnesses=40, bounds="", outside="")
def self_test(s, deep):
    """Executor against native runs; not a property."""
    for k in range(20):
        s.add("h_self_fp", [k, k | 256], core=k != 4)
