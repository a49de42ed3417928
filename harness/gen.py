"""Seeded generator of valid, supported projects, and mutations that invalidate them."""
import copy
import random

from model import *  # noqa

KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if
inline int long register restrict return short signed sizeof static struct switch typedef union unsigned
void volatile while asm typeof unix linux i386 main bool true false null""".split())
SYL = ["ab", "cu", "di", "el", "fo", "ga", "hy", "ik", "lo", "mu", "na", "op", "qi", "ro", "sa", "tu", "uv",
       "wy", "xe", "yo", "zi", "a", "b", "c", "x", "t"]
POSIX = {"Int8-t": (-2 ** 7, 2 ** 7 - 1), "Int16-t": (-2 ** 15, 2 ** 15 - 1),
         "Int32-t": (-2 ** 31, 2 ** 31 - 1), "Int64-t": (-2 ** 63, 2 ** 63 - 1),
         "Uint8-t": (0, 2 ** 8 - 1), "Uint16-t": (0, 2 ** 16 - 1), "Uint32-t": (0, 2 ** 32 - 1),
         "Uint64-t": (0, 2 ** 64 - 1)}
DBL = 1.7976931348623157e308
REALS = [0.0, 1.0, -1.0, 1.5, -1.5, 0.1, -0.1, 1e-5, 1e10, -1e10, 100.0, 3.4e38, -3.4e38, 3.3e38, -3.3e38,
         3.5e38, -3.5e38, 3.4000000000000003e38, -3.4000000000000003e38, 1e100, -1e100, DBL, -DBL,
         123456.789, 2.5, 90.0, -90.0, 0.05, -0.05, -0.0625, -0.001, 0.0001, -0.0001, -1e-5, 1e15, 1e16, 1e17, -1e16,
         1e22, -1e22, 123456789.125, -1234567.0, 0.3, -0.7]
TEXTS = ["the value", "Temp. of unit 3", "a", "9", "x := 3", "raw (unscaled)", "SEQUENCE of things",
         "INTEGER(0..7)", "see A/B, 50%", "TRUE", "END", "x, y", "key (3),", "1.5", "-1", "#define X 1",
         "int y;", "a - b", "UNITS V V", "STATE on 1", "100% of 5", "* bullet", "IMPORTS A FROM Module-b;",
         "// c", "/* c", "~ not".replace("~", "%"), "A ::= B", "=== x ===", "a_b", "LITTLE_ENDIAN",
         "ENDIANNESS", "q?", "a;b", "<x>", "&amp", "$HOME", "'x'", "@home", "+1", "x=1", "two  blanks", "three   blanks  here"]
UNITS = ["m", "m/s", "V", "%", "m/s^2", "degC", "A", "1", "kg/m^3", "K", "s", "rad/s", "10^6m/s", "mA/h^12",
         "abcdefghijklmnopqrstuvwxyz/ABCDEF^9"]
# every character a comment text may contain (double quote, backslash and brackets are refused)
PLAIN = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
SIGNS = "!#$%&'()*+,-./:;<=>?@^_"
TYPE_WORDS = ["Integer", "Boolean", "Real", "Null", "Sequence", "Choice", "End", "Imports", "Enumerated", "Of",
              "Size", "Module", "Begin", "With", "Components", "From", "A", "B", "Z", "Item", "Telemetry"]
KEY_WORDS = ["type", "key", "name", "value", "size", "id", "data", "header", "state", "mode", "count", "module",
             "sequence", "integer", "item", "unit", "end", "secondary", "mid", "crc", "spare", "e", "n"]
CCSDS_KEYS = ["primary", "packet-identification", "packet-version-number", "packet-type-is-cmd",
              "sec-hdr-flag-is-present", "application-process-identifier"]
LONG = ["extended", "housekeeping", "telemetry", "acknowledgement", "subsystem", "configuration", "temperature",
        "measurement", "parameter", "spacecraft"]


def random_text(r, lo=1, hi=60):
    """any text a comment may carry"""
    while True:
        n = r.randint(lo, hi)
        s = "".join(r.choice(PLAIN + SIGNS * 2 + "   ") * (1 if r.random() < 0.9 else r.choice([2, 2, 3]))
                    for _ in range(n))[:hi]
        s = s.strip()
        s = s.replace("--", "-+").replace("*/", "*+").replace("--", "-+")
        # what looks like a mark, a unit or a C comment at the beginning is not plain text
        if s and "--" not in s and "*/" not in s and not s.startswith(("[", "ENDIANNESS(LITTLE)")):
            return s


def hyphenated(r, s):
    """the name with a hyphen more"""
    i = [i for i in range(1, len(s)) if s[i] != "-" and s[i - 1] != "-"]
    i = r.choice(i) if i else len(s)
    return s[:i] + "-" + s[i:] if i < len(s) else s + "1"


def long_text(r):
    words = ["the", "value", "of", "sensor", "is", "valid", "after", "power-on", "only;", "see", "note", "(3)",
             "in", "ICD", "4.2/1,", "housekeeping", "otherwise", "0xFF"]
    s = " ".join(r.choice(words) for _ in range(r.choice([14, 16, 20, 30, 60, 120])))
    return s.rstrip(" -")


class Gen:
    def __init__(self, rng, cmd="cfs", comments=0.3, wc=0.4, enum_arrays=True, mods=None, both=False,
                 big_enum=0.05, ccsds=0.3, full=False, max_defs=5, max_items=7, posix=0.4, choices=None, scale=None):
        self.r = rng
        self.cmd = cmd
        self.p_cmt = comments
        self.p_wc = wc
        self.enum_arrays = enum_arrays
        self.nmods = mods
        self.both = both          # cfs and cosmos must both take it
        self.p_big_enum = big_enum
        self.p_ccsds = ccsds
        self.full = full          # fully fixed sequences of byte scalars
        self.max_defs, self.max_items = max_defs, max_items
        self.p_posix = posix
        self.p_choice = (0.12 if cmd == "cosmos" and not both else 0.0) if choices is None else choices
        self.scale = scale        # None | "modules" | "members" | "items" | "depth" | "sizes" | "chain"
        self.max_depth = 9 if scale == "depth" else 4
        self.words = set()
        self.env = {}
        self.where = {}
        # the character of this project
        self.p_long = rng.choice([0.0, 0.0, 0.02, 0.3])       # long names
        self.p_kin = rng.choice([0.0, 0.1, 0.4])              # names that extend other names
        self.keys = []                                        # member names used again in other SEQUENCEs
        self.p_keys = rng.choice([0.0, 0.3, 0.9, 1.0])
        self.n_keys = rng.choice([3, 9])
        self.p_special = rng.choice([0.06, 0.06, 0.4])        # names that mean something elsewhere
        self.p_text = rng.choice([0.0, 0.1, 0.5])             # random comment texts
        self.p_longtext = rng.choice([0.0, 0.05, 0.3])
        self.big = rng.random() < 0.08                        # many members
        self.clan = ""                                        # a long beginning that many names share
        if rng.random() < 0.12:
            k = rng.choice([12, 20, 28, 31, 32, 40, 60])
            self.clan = ("-".join(rng.choice(LONG) for _ in range(8)))[:k].rstrip("-")

    # names
    def word(self, used, cap=False):
        r = self.r
        while True:
            if r.random() < self.p_special:
                s = r.choice(TYPE_WORDS).lower() if cap else r.choice(KEY_WORDS if r.random() < 0.6 else CCSDS_KEYS)
                if s not in used and s not in KEYWORDS:
                    used.add(s)
                    return s[0].upper() + s[1:] if cap else s
            if used and r.random() < self.p_kin:
                base = r.choice(sorted(used))
                s = r.choice([base + "-" + r.choice(SYL), base + str(r.randint(0, 9)), base + r.choice(SYL),
                              base[:-1].rstrip("-"), base.replace("-", ""), base + "-" + str(r.randint(0, 9)),
                              hyphenated(r, base), hyphenated(r, base), base + "-" + r.choice(["msg", "msgids", "h", "t", "mid"])])
                if len(s) <= 90 and s and s not in used and s not in KEYWORDS and \
                        (not cap or (s[0].upper() + s[1:]) not in list(POSIX) + ["Float", "Double"]):
                    used.add(s)
                    return s[0].upper() + s[1:] if cap else s
            n = r.choice([1, 1, 2, 2, 3])
            parts = []
            if self.clan and r.random() < 0.6:
                parts = [self.clan]
            elif r.random() < self.p_long:
                parts = [r.choice(LONG) for _ in range(r.choice([3, 4, 5, 6]))]
            for i in range(n):
                w = "".join(r.choice(SYL) for _ in range(r.choice([1, 1, 2])))
                if r.random() < 0.2:
                    w += str(r.randint(0, 12))
                elif i > 0 and r.random() < 0.15:
                    w = str(r.randint(0, 20))
                parts.append(w)
            s = "-".join(parts)
            if s in KEYWORDS or s in used:
                continue
            if cap:
                s2 = s[0].upper() + s[1:]
                if s2 in POSIX or s2 in ("Float", "Double"):
                    continue
            used.add(s)
            return s[0].upper() + s[1:] if cap else s

    def key(self, used):
        """a member name; often one that other SEQUENCEs have, too"""
        free = [k for k in self.keys if k not in used]
        if free and self.r.random() < self.p_keys:
            k = self.r.choice(free)
            used.add(k)
            return k
        k = self.word(used)
        if len(self.keys) < self.n_keys:
            self.keys.append(k)
        return k

    def tname(self):
        # type names, variable names and enumerators share one pool
        return self.word(self.words, cap=True)

    def comment(self, member=False, p=None):
        r = self.r
        if r.random() >= (self.p_cmt if p is None else p):
            return NOCMT
        text = r.choice(TEXTS) if r.random() < 0.9 else ""
        if r.random() < self.p_text:
            text = random_text(r)
        elif r.random() < self.p_longtext:
            text = long_text(r)
        unit, little = "", False
        if r.random() < (0.35 if member else 0.12):
            unit = r.choice(UNITS) if r.random() < 0.7 else \
                "".join(r.choice("%/^%/^aAzZmV0123456789") for _ in range(r.randint(1, 6)))
        if r.random() < (0.2 if member else 0.05):
            little = True
        if not text and not unit and not little:
            text = "note"
        return cmt(text, unit, little)

    # types
    def int_range(self):
        r = self.r
        if r.random() < 0.62:
            w = r.choice([1, 2, 3, 4, 5, 7, 8, 8, 9, 11, 12, 14, 15, 16, 16, 17, 24, 31, 32, 32, 33, 40, 48,
                          63, 64, 64] + [r.randint(1, 64)])
            top = 2 ** w - 1
            hi = r.choice([top, top, 2 ** (w - 1), r.randint(2 ** (w - 1), top)])
            lo = r.choice([0, 0, 0, 1, hi, r.randint(0, hi)])
            if r.random() < 0.03:
                lo = hi = 0
            return min(lo, hi), hi
        s = r.choice([8, 16, 32, 64])
        full_lo, full_hi = -2 ** (s - 1), 2 ** (s - 1) - 1
        prev_lo, prev_hi = (-2 ** (s // 2 - 1), 2 ** (s // 2 - 1) - 1) if s > 8 else (-1, 0)
        k = r.random()
        if k < 0.25:
            return full_lo, full_hi
        if k < 0.45:
            return prev_lo - 1 if s > 8 else -1, r.choice([prev_hi, 0, full_hi, prev_hi + 1])
        if k < 0.65:
            return r.choice([-1, full_lo, prev_lo]), r.choice([prev_hi + 1, full_hi, full_hi - 1])
        if k < 0.75:
            lo = r.choice([full_lo, prev_lo - 1 if s > 8 else -5])
            return lo, r.choice([lo, lo + 1, -1] if lo < -1 else [-1])
        lo = r.randint(full_lo, -1)
        return lo, r.randint(lo, full_hi)

    def t_int(self):
        return tint(*self.int_range())

    def t_real(self):
        r = self.r
        a, b = self.real_value(), self.real_value()
        if r.random() < 0.2:
            a, b = r.choice([(-3.4e38, 3.4e38), (-DBL, DBL)])
        return treal(min(a, b), max(a, b))

    def real_value(self, lo=-DBL, hi=DBL):
        """a number of the range"""
        r = self.r
        k = r.random()
        if k < 0.5:
            c = [x for x in REALS if lo <= x <= hi]
            if c:
                return r.choice(c)
        if k < 0.7:
            v = round(r.uniform(max(lo, -1e4), min(hi, 1e4)), r.randint(0, 9))
        elif k < 0.85:
            v = r.choice([-1, 1]) * r.random() * 10.0 ** r.randint(-30, 37)
        else:
            v = r.choice([-1, 1]) * r.randint(1, 10 ** 17) * 10.0 ** r.randint(-300, 290)
        return v if v != 0 and lo <= v <= hi else r.choice([lo, hi])

    def scalar(self):
        k = self.r.random()
        return self.t_int() if k < 0.6 else self.t_real() if k < 0.8 else tbool()

    def resolve(self, t):
        if t["k"] == "ref" and self.env[t["name"]]["k"] == "simple":
            return self.env[t["name"]]["type"]
        return t

    def bitfield(self, t):
        u = self.resolve(t)
        return u["k"] == "bool" or (u["k"] == "int" and u["_lo"] >= 0 and
                                    max(1, u["_hi"].bit_length()) not in (8, 16, 32, 64))

    def elem_ok(self, name):
        d = self.env[name]
        if d["k"] == "seq":
            return True
        if d["k"] == "enum":
            return self.enum_arrays
        return d["k"] == "simple" and d["type"]["k"] in ("int", "real", "bool") and \
            ((self.cmd == "cosmos" and not self.both) or not self.bitfield(tref(name)))

    def member_type(self, visible):
        r = self.r
        refs = [n for n in visible if self.env[n]["k"] in ("seq", "enum") or
                (self.env[n]["k"] == "simple" and self.env[n]["type"]["k"] in ("int", "real", "bool"))]
        k = r.random()
        if refs and k < 0.42:
            return tref(r.choice(refs))
        if refs and k < 0.57:
            el = [n for n in refs if self.elem_ok(n)]
            if el:
                n = r.choice(el)
                small = self.env[n]["k"] == "seq"
                if self.scale == "sizes":
                    return tarr(r.choice([10, 17, 33]) if small else r.choice([1000, 4096, 65535, 65536]), tref(n))
                return tarr(r.randint(1, 3) if small else r.choice([1, 2, 3, 5, 8, 12, 16, 100, 256, 300]), tref(n))
        if self.cmd == "cosmos" and not self.both and k < 0.6:
            return tarr(r.randint(1, 9), tbool())
        if k < 0.67:
            if self.scale == "sizes":
                return tstr(r.choice([4095, 10000, 65536]), r.random() < 0.3)
            return tstr(r.choice([1, 2, 7, 8, 16, 40, 64, 127, 255, 256, 1000]), r.random() < 0.3)
        return self.scalar()

    # fixed values
    def fixed(self, key, t, comment=None):
        r = self.r
        u = self.resolve(t)
        c = comment or self.comment(p=self.p_cmt / 2)
        if u["k"] == "int":
            lo, hi = u["_lo"], u["_hi"]
            v = r.choice([lo, hi, hi, r.randint(lo, hi), max(lo, min(hi, 1)), max(lo, min(hi, 0)),
                          max(lo, min(hi, -1))])
            return cint(key, v, c)
        if u["k"] == "real":
            lo, hi = u["_lo"], u["_hi"]
            v = r.choice([lo, hi, self.real_value(lo, hi), self.real_value(lo, hi)])
            if r.random() < 0.2:
                ints = [x for x in (0, 1, -1, 5, 42, -7) if lo <= x <= hi]
                if ints:
                    return cint(key, r.choice(ints), c)
            return creal(key, v, c)
        if u["k"] == "bool":
            return cbool(key, r.random() < 0.5, c)
        if u["k"] == "ref" and self.env[u["name"]]["k"] == "enum":
            n = len(self.env[u["name"]]["enum"])
            return cint(key, r.choice([0, n - 1, r.randrange(n)]), c)
        return None

    def byte_scalar(self, t):
        u = self.resolve(t)
        return u["k"] == "real" or (u["k"] == "int" and not self.bitfield(t))

    def has_wc(self, d):
        for it in d["items"]:
            if it["wc"]:
                return True
            t = it["type"]["elem"] if it["type"]["k"] == "arr" else it["type"]
            if t["k"] == "ref" and self.env[t["name"]]["k"] == "seq" and self.has_wc(self.env[t["name"]]):
                return True
        return False

    def can_fix(self, name):
        d = self.env[name]
        return d["k"] == "seq" and (self.cmd == "cosmos" or not self.has_wc(d) or
                                    (self.cmd == "cfs" and self.r.random() < 0.5))

    def gen_wc(self, d, depth=0, taken=(), full=False):
        """components for a member of type d; taken: what d's own members already fix is avoided"""
        r = self.r
        out = []
        for it in d["items"]:
            if it["key"] in taken or (not full and r.random() < 0.35):
                continue
            t = it["type"]
            if t["k"] == "ref" and self.env[t["name"]]["k"] == "seq":
                sub = self.env[t["name"]]
                if depth > self.max_depth:
                    continue
                if (it["wc"] or self.has_wc(sub)) and (self.cmd not in ("cosmos", "cfs") or self.both):
                    continue
                if it["key"] == "primary" and (self.cmd == "cfs" or self.both):
                    w = self.gen_primary(sub) if not it["wc"] else []
                else:
                    w = self.gen_wc(sub, depth + 1, [c["key"] for c in it["wc"]], full=full)
                if w:
                    out.append(cwc(it["key"], w, self.comment(p=self.p_cmt / 3)))
                    out[-1]["wcmt"] = self.comment(p=self.p_cmt / 3)
            elif t["k"] in ("arr", "str"):
                continue
            elif self.cmd == "binary" and not self.byte_scalar(t):
                continue
            else:
                c = self.fixed(it["key"], t)
                if c is not None:
                    out.append(c)
        r.shuffle(out)
        return out

    def gen_primary(self, d):
        """d: the primary header type"""
        pid = None
        for it in d["items"]:
            if it["key"] == "packet-identification":
                pid = it
        if pid is None or pid["type"]["k"] != "ref" or self.env[pid["type"]["name"]]["k"] != "seq":
            return []
        sub = self.env[pid["type"]["name"]]
        if any(it["key"] not in CCSDS_KEYS or it["type"]["k"] not in ("int", "bool") or
               it["type"].get("_hi", 0) > (2047 if it["key"].startswith("appl") else 7) or it["type"].get("_lo", 0) < 0
               for it in sub["items"]):
            return []
        comps = []
        for it in sub["items"]:
            if self.r.random() < 0.75:
                comps.append(self.fixed(it["key"], it["type"]))
        self.r.shuffle(comps)
        return [cwc("packet-identification", comps, NOCMT)] if comps else []

    # definitions
    def gen_enum(self):
        r = self.r
        n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17])
        if self.scale == "items" and r.random() < 0.6:
            n = r.choice([511, 512, 513, 1000, 1025])
        elif r.random() < self.p_big_enum:
            n = r.choice([33, 64, 65, 127, 128, 129, 255, 256, 257, 300])
        keys = [self.word(self.words) for _ in range(n)] if n < 30 else \
            ["%s-%d" % (self.word(self.words), i) for i in [0]] and self.many(n)
        mode = r.random()
        items = []
        if mode < 0.45:
            items = [(k, None, self.comment(p=self.p_cmt if n < 30 else 0.02)) for k in keys]
        else:
            pos = list(range(n))
            if mode < 0.9:
                r.shuffle(pos)
            omit_zero = r.random() < 0.2
            items = [(k, None if (omit_zero and q == 0) else q, self.comment(p=self.p_cmt if n < 30 else 0.02))
                     for k, q in zip(keys, pos)]
        return enum(self.tname(), items, self.comment())

    def many(self, n):
        base = self.word(self.words)
        out = []
        for i in range(n):
            k = "%s-i%d" % (base, i)
            self.words.add(k)
            out.append(k)
        return out

    def gen_simple(self):
        r = self.r
        if r.random() < self.p_posix:
            free = [n for n in list(POSIX) + ["Float", "Double"] if n not in self.env]
            if free:
                n = r.choice(free)
                if n == "Float":
                    return simple(n, treal(-3.4e38, 3.4e38), self.comment())
                if n == "Double":
                    return simple(n, treal(-DBL, DBL), self.comment())
                return simple(n, tint(*POSIX[n]), self.comment())
        return simple(self.tname(), self.scalar(), self.comment())

    def gen_seq(self, visible):
        r = self.r
        used = set()
        n = r.choice([1, 2, 3, 4, 5, 6, 7]) if self.max_items >= 7 else r.randint(1, self.max_items)
        if self.big and r.random() < 0.3:
            n = r.choice([10, 16, 17, 24, 33])
        if self.scale == "members" and r.random() < 0.5:
            n = r.choice([40, 60, 64, 65])
        items = []
        for _ in range(n):
            t = self.member_type(visible)
            items.append(item(self.key(used), t, self.comment(member=True)))
        self.add_wc(items)
        return seq(self.tname(), items, self.comment())

    def tower(self, visible):
        """SEQUENCEs nested in each other, the values of the innermost fixed from outside"""
        r = self.r
        below, out = None, []
        for level in range(r.choice([4, 6, 8])):
            used = set()
            items = [item(self.key(used), self.scalar(), self.comment(True)) for _ in range(r.randint(1, 2))]
            if below:
                items.insert(r.randint(0, len(items)), item(self.key(used), tref(below), self.comment(True)))
            d = seq(self.tname(), items, self.comment())
            self.env[d["name"]] = d
            out.append(d)
            below = d["name"]
        top = seq(self.tname(), [item("tower", tref(below), self.comment(True))], self.comment())
        top["items"][0]["wc"] = self.gen_wc(self.env[below], full=True)
        self.env[top["name"]] = top
        return out + [top]

    def gen_choice(self, visible):
        """a CHOICE; no command can generate one, all of them have to check it"""
        used = set()
        items = [item(self.key(used), self.member_type(visible), self.comment(member=True))
                 for _ in range(self.r.randint(1, 4))]
        if self.r.random() < 0.5:
            self.add_wc(items)
        return choice(self.tname(), items, self.comment())

    def add_wc(self, items):
        for it in items:
            t = it["type"]
            if t["k"] == "ref" and self.env[t["name"]]["k"] == "seq" and self.r.random() < self.p_wc:
                if self.has_wc(self.env[t["name"]]) and (self.cmd not in ("cosmos", "cfs") or self.both):
                    continue
                it["wc"] = self.gen_wc(self.env[t["name"]], full=self.full and self.r.random() < 0.7)
                if it["wc"]:
                    it["wcmt"] = self.comment(p=self.p_cmt / 3)

    def ccsds_defs(self):
        r = self.r
        flag = tbool if r.random() < 0.7 else (lambda: tint(0, 1))
        pid = seq(self.tname(), [
            item("packet-version-number", tint(0, 7), self.comment(True)),
            item("packet-type-is-cmd", flag(), self.comment(True)),
            item("sec-hdr-flag-is-present", flag(), self.comment(True)),
            item("application-process-identifier", tint(0, 2047), self.comment(True))], self.comment())
        self.env[pid["name"]] = pid
        psc = seq(self.tname(), [item("grouping-flags", tint(0, 3)), item("source-sequence-count", tint(0, 16383))])
        self.env[psc["name"]] = psc
        prim = seq(self.tname(), [
            item("packet-identification", tref(pid["name"]), self.comment(True)),
            item("packet-sequence-control", tref(psc["name"])),
            item("packet-data-length", tint(0, 65535), self.comment(True))], self.comment())
        self.env[prim["name"]] = prim
        sec = seq(self.tname(), [item(self.word(set()), self.t_int()), ] + (
            [item("function-code", tint(0, 127))] if r.random() < 0.6 else []))
        if len(sec["items"]) == 2 and sec["items"][0]["key"] == "function-code":
            sec["items"].pop()
        self.env[sec["name"]] = sec
        hdr = seq(self.tname(), [item("primary", tref(prim["name"]), self.comment(True)),
                                 item("secondary", tref(sec["name"]))], self.comment())
        self.env[hdr["name"]] = hdr
        return [pid, psc, prim, sec, hdr], hdr["name"]

    def project(self):
        r = self.r
        nm = self.nmods or r.choice([1, 1, 2, 2, 3, 3, 4, 5] + ([7] if self.big else []))
        if self.scale == "modules":
            nm = r.choice([8, 10, 12, 16])
        if self.scale == "chain":
            nm = r.choice([1, 2])
        names, used = [], set(["stdint", "types"])
        for _ in range(nm):
            names.append(self.word(used))
        mods, prior = [], []
        hdr = None
        for mi, mn in enumerate(names):
            defs, here = [], []
            if hdr is None and r.random() < self.p_ccsds:
                ds, hdr = self.ccsds_defs()
                for d in ds:
                    self.where[d["name"]] = mn
                defs += ds
                here += [d["name"] for d in ds]
            for _ in range(r.randint(1, self.max_defs)):
                k = r.random()
                pool = here + here + [n for n in prior if r.random() < 0.6]
                if k < 0.2:
                    d = self.gen_enum()
                elif k < 0.42:
                    d = self.gen_simple()
                else:
                    d = self.gen_seq(pool)
                self.env[d["name"]] = d
                self.where[d["name"]] = mn
                defs.append(d)
                here.append(d["name"])
            if self.scale == "chain" and mi == nm - 1:
                for d in self.chain(here):
                    self.where[d["name"]] = mn
                    defs.append(d)
                    here.append(d["name"])
            if self.scale == "depth":
                for d in self.tower(here + prior):
                    self.where[d["name"]] = mn
                    defs.append(d)
                    here.append(d["name"])
            if hdr and r.random() < 0.85:
                for _ in range(r.randint(1, 3)):
                    d = self.packet(hdr, here + [n for n in prior if r.random() < 0.4])
                    self.env[d["name"]] = d
                    self.where[d["name"]] = mn
                    defs.append(d)
                    here.append(d["name"])
            if r.random() < self.p_choice:
                d = self.gen_choice(here + prior)
                new = [d]
                self.env[d["name"]] = d
                if r.random() < 0.5:
                    e = self.gen_seq([])
                    t = tref(d["name"])
                    e["items"].insert(r.randint(0, len(e["items"])),
                                      item("zz-either", tarr(2, t) if r.random() < 0.2 else t))
                    new.append(e)
                for x in new:
                    self.env[x["name"]] = x
                    self.where[x["name"]] = mn
                    defs.append(x)
            if not any(d["k"] == "seq" for d in defs) and r.random() < 0.9:
                d = self.gen_seq(here + prior)
                self.env[d["name"]] = d
                self.where[d["name"]] = mn
                defs.append(d)
                here.append(d["name"])
            order = defs[:]
            how = r.random()
            if how < 0.55:
                r.shuffle(order)
            elif how < 0.75 or self.scale == "chain":
                order.reverse()
            mods.append(module(mn, order, (), self.comment()))
            prior += here
        for mi, m in enumerate(mods):
            need = {}
            for d in m["defs"]:
                if d["k"] in ("seq", "choice"):
                    for it in d["items"]:
                        t = it["type"]["elem"] if it["type"]["k"] == "arr" else it["type"]
                        if t["k"] == "ref" and self.where[t["name"]] != m["name"]:
                            need.setdefault(self.where[t["name"]], set()).add(t["name"])
            if r.random() < 0.25 and mi:
                src = mods[r.randrange(mi)]
                need.setdefault(src["name"], set()).add(r.choice(src["defs"])["name"])
            imports = []
            for f in sorted(need):
                ns = sorted(need[f])
                r.shuffle(ns)
                if len(ns) > 1 and r.random() < 0.2:      # two clauses for one module
                    k = r.randrange(1, len(ns))
                    imports.append(imp(f, ns[:k], self.comment(p=self.p_cmt / 2)))
                    ns = ns[k:]
                imports.append(imp(f, ns, self.comment(p=self.p_cmt / 2)))
            r.shuffle(imports)
            m["imports"] = imports
            if imports:
                m["icmt"] = self.comment(p=self.p_cmt / 2)
        if r.random() < 0.7:
            r.shuffle(mods)
        self.mods = mods
        return project(mods)

    def chain(self, visible):
        """a long row of SEQUENCEs, each using the one before"""
        out, below = [], None
        for _ in range(self.r.choice([20, 35, 50])):
            items = [item("a", tref(below) if below else tint(0, 255))]
            if self.r.random() < 0.2:
                items.append(item("b", self.scalar()))
            d = seq(self.tname(), items)
            self.env[d["name"]] = d
            out.append(d)
            below = d["name"]
        return out

    def packet(self, hdr, visible):
        r = self.r
        used = {"header"}
        wc = []
        if r.random() < 0.9:
            wc = self.gen_wc(self.env[hdr])
        items = [item("header", tref(hdr), self.comment(True), wc)]
        for _ in range(r.randint(0, 4)):
            items.append(item(self.key(used), self.member_type(visible), self.comment(member=True)))
        self.add_wc(items[1:])
        return seq(self.tname(), items, self.comment())

    # runs
    def run(self, p, cmd=None):
        r = self.r
        cmd = cmd or self.cmd
        names = [m["name"] for m in p["modules"]]
        if cmd == "cosmos":
            ok = {d["name"] for m in p["modules"] for d in m["defs"]
                  if d["k"] == "seq" and all(i["key"] != "zz-either" for i in d["items"])}
            c = [m for m in p["modules"] if any(d["name"] in ok for d in m["defs"])]
            if not c:
                return None
            m = r.choice(c)
            seqs = [d["name"] for d in m["defs"] if d["name"] in ok]
            r.shuffle(seqs)
            msgs = seqs[:r.choice([1, 1, 2, 3, len(seqs)])]
            return run("cosmos", [m["name"]], msgs, r.choice(["tlm", "out-1", "TARGET", "x", "tlm.v2", "a.b.c", "My_Target", "t.txt", "9", "sub/tlm", "a/b/c",
                                                                     "housekeeping-telemetry-of-the-second-subsystem"]))
        r.shuffle(names)
        e = "none"
        if cmd == "binary":
            e = r.choice(["little-endian", "big-endian"])
        return run(cmd, names, endian=e)


def leaf_count(p, name, fuel=90):
    env = {d["name"]: d for m in p["modules"] for d in m["defs"]}

    def go(n, f):
        if f == 0:
            return 1
        d = env.get(n)
        if not d or d["k"] != "seq":
            return 1
        total = 0
        for it in d["items"]:
            t = it["type"]
            mul = 1
            if t["k"] == "arr":
                mul, t = t["len"], t["elem"]
                if t["k"] == "ref" and env.get(t["name"], {}).get("k") != "seq":
                    mul = 1
            total += mul * (go(t["name"], f - 1) if t["k"] == "ref" else 1)
        return total
    return go(name, fuel)


def dup(p):
    return copy.deepcopy(p)
