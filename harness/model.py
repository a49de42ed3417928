"""Projects as the specification's records, and their rendering as .asn files."""
import math

from observe import big, f32, f64, ZERO

NOCMT = {"has": False, "little": False, "unit": "", "text": ""}


def cmt(text="", unit="", little=False):
    return {"has": True, "little": little, "unit": unit, "text": text}


def tint(lo=None, hi=None):
    if lo is None:
        return {"k": "int", "rng": False, "lo": ZERO, "hi": ZERO, "_lo": None, "_hi": None}
    return {"k": "int", "rng": True, "lo": big(lo), "hi": big(hi), "_lo": lo, "_hi": hi}


def treal(lo=None, hi=None, texts=None):
    """texts: the literals, when they are not repr()"""
    if lo is None:
        return {"k": "real", "rng": False, "lo": ZERO, "hi": ZERO, "_lo": None, "_hi": None}
    a, b = texts or (rlit(lo), rlit(hi))
    return {"k": "real", "rng": True, "lo": f64(float(a)), "hi": f64(float(b)), "_lo": float(a),
            "_hi": float(b), "_lotext": a, "_hitext": b}


def rlit(x):
    if math.isinf(x):
        return "1e309" if x > 0 else "-1e309"
    s = repr(float(x))
    return s


def tbool():
    return {"k": "bool"}


def tnull():
    return {"k": "null"}


def tstr(n, numeric=False):
    return {"k": "str", "len": n, "_num": numeric}


def tarr(n, elem):
    return {"k": "arr", "len": n, "elem": elem}


def tref(name):
    return {"k": "ref", "name": name}


def item(key, type_, comment=None, wc=None):
    """wcmt: the comment behind the opening brace of WITH COMPONENTS"""
    return {"key": key, "type": type_, "cmt": comment or NOCMT, "wc": wc or [], "wcmt": NOCMT}


def seq(name, items, comment=None):
    return {"k": "seq", "name": name, "cmt": comment or NOCMT, "items": items}


def choice(name, items, comment=None):
    return {"k": "choice", "name": name, "cmt": comment or NOCMT, "items": items}


def enum(name, items, comment=None):
    """items: key | (key, pos) | (key, pos, cmt); pos None: not given"""
    out = []
    for it in items:
        if isinstance(it, str):
            it = (it, None)
        key, pos = it[0], it[1]
        c = it[2] if len(it) > 2 and it[2] else NOCMT
        out.append({"key": key, "pos": big(pos or 0), "cmt": c, "_pos": pos})
    return {"k": "enum", "name": name, "cmt": comment or NOCMT, "enum": out}


def simple(name, type_, comment=None):
    return {"k": "simple", "name": name, "cmt": comment or NOCMT, "type": type_}


def cint(key, v, comment=None):
    try:
        f = float(v)
    except OverflowError:
        f = math.inf if v > 0 else -math.inf
    return {"key": key, "k": "int", "int": big(v), "f64": f64(f), "f32": f32(f), "_text": str(v), "_val": v,
            "cmt": comment or NOCMT}


def creal(key, v, comment=None, text=None):
    text = text or rlit(v)
    v = float(text)
    return {"key": key, "k": "real", "f64": f64(v), "f32": f32(v), "_text": text, "_val": v,
            "cmt": comment or NOCMT}


def cbool(key, v, comment=None):
    return {"key": key, "k": "bool", "bool": bool(v), "_text": "TRUE" if v else "FALSE", "_val": v,
            "cmt": comment or NOCMT}


def cwc(key, wc, comment=None):
    return {"key": key, "k": "wc", "wc": wc, "cmt": comment or NOCMT, "wcmt": NOCMT}


def imp(frm, names, comment=None):
    return {"from": frm, "names": list(names), "cmt": comment or NOCMT}


def module(name, defs, imports=(), comment=None, icomment=None):
    return {"name": name, "imports": [imp(f, n) for f, n in imports],
            "cmt": comment or NOCMT, "icmt": icomment or NOCMT, "defs": list(defs)}


def project(modules, malformed=False):
    return {"modules": list(modules), "malformed": malformed}


def run(cmd, args, msgs=(), target="", endian="none", missing=False):
    return {"cmd": cmd, "args": list(args), "msgs": list(msgs), "target": target, "endian": endian,
            "missing": missing}


def clean(x):
    """without the private fields"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x


# ---- rendering ---------------------------------------------------------------------
class Style:
    """white space that does not matter; rng None: the plain style.
    nums: another source of chance for the notation of numbers"""

    def __init__(self, rng=None, nums=None):
        self.rng = rng
        self.nums = nums

    def int(self, v):
        """a decimal notation of v"""
        r = self.nums
        if r is None or r.random() < 0.4:
            return str(v)
        sign = "-" if v < 0 else r.choice(["", "", "+"])
        return sign + "0" * r.choice([0, 1, 2, 5]) + str(abs(v))

    def real(self, text):
        """another notation of the same number"""
        r = self.nums
        v = float(text)
        if r is None or r.random() < 0.4 or math.isinf(v):
            return text
        return r.choice(reals(v, text))

    def gap(self, plain):
        """between two tokens where a line break may stand"""
        if self.rng is None:
            return plain
        r = self.rng.random()
        if r < 0.4:
            return plain
        return self.rng.choice([" ", "\t", "\n", "\n\n", "\n\t", "   ", "\n    ", "\t ", " \n  \n "])

    def opt(self, plain=""):
        """between two tokens which may also touch"""
        if self.rng is None:
            return plain
        return self.rng.choice([plain, "", " ", "  ", "\t", "\n", "\n  "])

    def line(self, plain="\n"):
        """a line end (also after a comment)"""
        if self.rng is None:
            return plain
        return self.rng.choice([plain, "\n", "\n\n", "\n \n", "\n\t\t", "\n      "])

    def cmt(self, c):
        """a comment up to, not including, the end of its line"""
        if not c["has"]:
            return ""
        sp = (lambda lo, hi: " " * self.rng.randint(lo, hi)) if self.rng else (lambda lo, hi: " ")
        s = sp(0, 3) + "--" + sp(0, 2)
        if c["little"]:
            s += "ENDIANNESS(LITTLE)" + sp(1, 2)
        if c["unit"]:
            s += "[%s]" % c["unit"] + sp(0, 2)
        s += c["text"]
        return s if c["text"] or self.rng else s.rstrip(" ")


def reals(v, text):
    """notations of v"""
    m, e = ("%.17e" % v).split("e")
    short = repr(v)
    out = [text, short.upper(), m + "E" + e, m + "0e" + str(int(e))]
    if v > 0:
        out.append("+" + text)
    sign = "-" if v < 0 else ""
    out.append(sign + "00" + short.lstrip("-"))
    if "e" not in short:
        i, _, f = short.partition(".")
        out.append(short + "00")
        out.append(i.lstrip("-").join([sign, ""]) + f + "e-%d" % len(f))
        if f == "0":
            out += [i + ".", i + "e0", i + "E+00"]
        if i.lstrip("-") == "0":
            out.append(sign + "." + f)
    return [x for x in out if float(x) == v]


def r_type(t, st=Style()):
    k = t["k"]
    if k == "int":
        return "INTEGER(%s..%s)" % (st.int(t["_lo"]), st.int(t["_hi"])) if t["rng"] else "INTEGER"
    if k == "real":
        return "REAL(%s .. %s)" % (st.real(t["_lotext"]), st.real(t["_hitext"])) if t["rng"] else "REAL"
    if k == "bool":
        return "BOOLEAN"
    if k == "null":
        return "NULL"
    if k == "str":
        return "%s (SIZE (%s))" % ("NumericString" if t.get("_num") else "IA5String", st.int(t["len"]))
    if k == "arr":
        return "SEQUENCE (SIZE (%s)) OF %s" % (st.int(t["len"]), r_type(t["elem"], st))
    return t["name"]


def value(c, st):
    return st.int(c["_val"]) if c["k"] == "int" else st.real(c["_text"]) if c["k"] == "real" else c["_text"]


def r_wc(wc, st, ind, wcmt):
    out = "(WITH COMPONENTS {"
    out += eol(wcmt, st)
    for i, c in enumerate(wc):
        last = i == len(wc) - 1
        out += "  " * ind + c["key"]
        if c["k"] == "wc":
            out += st.gap(" ") + r_wc(c["wc"], st, ind + 1, c["wcmt"])
        else:
            out += st.opt(" ") + "(" + st.opt() + value(c, st) + st.opt() + ")"
        out += (st.opt() if not last and not c["cmt"]["has"] else "") + ("" if last else ",")
        out += st.cmt(c["cmt"])
        out += ("\n" if c["cmt"]["has"] else "") + st.line("\n" if not c["cmt"]["has"] else "")
    return out + "  " * (ind - 1) + "})"


def eol(c, st):
    """comment plus line end"""
    return st.cmt(c) + ("\n" if c["has"] else "") + st.line("" if c["has"] else "\n")


def r_item(it, last, st):
    out = "  " + it["key"] + " " + r_type(it["type"], st)
    if it["wc"]:
        out += eol(it["cmt"], st) if it["cmt"]["has"] else st.gap(" ")
        out += r_wc(it["wc"], st, 2, it["wcmt"]) + ("" if last else st.opt() + ",") + st.line("\n")
    elif last:
        out += eol(it["cmt"], st)
    else:
        out += "," + eol(it["cmt"], st)
    return out


def r_def(d, st):
    if d["k"] in ("seq", "choice"):
        word = "SEQUENCE" if d["k"] == "seq" else "CHOICE"
        out = d["name"] + st.gap(" ") + "::= %s {" % word + eol(d["cmt"], st)
        for i, it in enumerate(d["items"]):
            out += r_item(it, i == len(d["items"]) - 1, st)
        return out + "}" + st.line("\n")
    if d["k"] == "enum":
        out = d["name"] + st.gap(" ") + "::= ENUMERATED {" + eol(d["cmt"], st)
        for i, it in enumerate(d["enum"]):
            last = i == len(d["enum"]) - 1
            out += "  " + it["key"]
            if it.get("_pos") is not None:
                out += st.opt(" ") + "(" + st.opt() + st.int(it["_pos"]) + st.opt() + ")"
            out += ("" if last else (st.opt() if not it["cmt"]["has"] else "") + ",")
            out += eol(it["cmt"], st)
        return out + "}" + st.line("\n")
    return d["name"] + st.gap(" ") + "::= " + r_type(d["type"], st) + eol(d["cmt"], st)


def r_module(m, rng=None, nums=None):
    """the text of a module; with a source of chance also with other line ends"""
    st = Style(rng, nums)
    text = r_text(m, st)
    if rng is None:
        return text
    how = rng.random()
    if how < 0.15:
        text = text.replace("\n", "\r\n")
    elif how < 0.25:
        text = text.rstrip()
    elif how < 0.35:
        text = rng.choice(["\n", "\n\n", "  \n", "\t", " "]) + text
    elif how < 0.4:
        text += rng.choice(["\n\n\n", "   ", "\n\t\n"])
    return text


def r_text(m, st):
    out = "Module-" + m["name"] + st.gap(" ") + "DEFINITIONS AUTOMATIC TAGS ::= BEGIN" + eol(m["cmt"], st)
    if m["imports"]:
        out += "IMPORTS" + st.gap("\n")
        for i, im in enumerate(m["imports"]):
            out += "  " + (st.opt() + "," + st.gap(" ")).join(im["names"])
            out += st.gap(" ") + "FROM Module-" + im["from"]
            out += eol(im["cmt"], st) if im["cmt"]["has"] else st.gap("\n")
        out += ";" + eol(m["icmt"], st)
    out += st.line("\n")
    for d in m["defs"]:
        out += r_def(d, st) + st.line("\n")
    return out + "END" + st.line("\n")


CMD = {"cfs": "generate-cfs", "c": "generate-c", "binary": "generate-binary", "cosmos": "generate-cosmos"}


def argv(r, paths, outdir, shuffle=None):
    """the command line; outdir None: the default; shuffle: another order and other forms"""
    opts = []
    if r["cmd"] == "cosmos":
        opts += [["--asn1-module", r["args"][0]], ["--asn1-messages", ",".join(r["msgs"])],
                 ["--output-file-name", r["target"]]]
    else:
        opts += [["--asn1-modules", ",".join(r["args"])]]
        if r["cmd"] == "binary" and r["endian"] != "none":
            opts += [["--endianness", r["endian"]]]
    if outdir is not None:
        opts += [["--output-dir", outdir]]
    split = 0
    if shuffle:
        shuffle.shuffle(opts)
        opts = [["%s=%s" % tuple(o)] if shuffle.random() < 0.2 else o for o in opts]
        split = shuffle.choice([0, 0, len(opts), shuffle.randint(0, len(opts))])
    head = [x for o in opts[:split] for x in o]
    tail = [x for o in opts[split:] for x in o]
    return [CMD[r["cmd"]]] + head + list(paths) + tail
