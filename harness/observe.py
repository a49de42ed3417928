"""Turns an output directory into the observation the specification reads."""
import math
import os
import re
import struct
import subprocess
import tempfile

import dwarf

GCC = ["gcc", "-w", "-x", "c"]


# ---- numbers -------------------------------------------------------------------
def big(n):
    m = abs(n)
    return {"neg": n < 0, "mag": list(m.to_bytes((m.bit_length() + 7) // 8, "little"))}


def f64(x):
    b = struct.unpack("<Q", struct.pack("<d", x))[0]
    neg, b = bool(b >> 63), b & (2 ** 63 - 1)
    if b == 0:
        neg = False
    return {"neg": neg, "mag": list(b.to_bytes((b.bit_length() + 7) // 8, "little"))}


def f32(x):
    try:
        return list(struct.pack("<f", x))
    except OverflowError:
        return [0, 0, 0, 0]


ZERO = big(0)


def number(tok):
    """a literal of an artefact as [k, int, f64]"""
    try:
        n = int(tok, 0)
        try:
            return {"k": "int", "int": big(n), "f64": f64(float(n))}
        except OverflowError:
            return {"k": "int", "int": big(n), "f64": f64(math.inf)}
    except ValueError:
        pass
    try:
        return {"k": "real", "int": ZERO, "f64": f64(float(tok))}
    except ValueError:
        return {"k": "other", "int": ZERO, "f64": ZERO}


# ---- C -------------------------------------------------------------------------
class Compiler:
    def __init__(self, outdir, tmp):
        self.outdir, self.tmp, self.n = outdir, tmp, 0

    def _source(self, text):
        self.n += 1
        p = os.path.join(self.tmp, "tu%d.c" % self.n)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)
        return p

    def syntax(self, text):
        p = self._source(text)
        r = subprocess.run(GCC + ["-fsyntax-only", "-I", self.outdir, p],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return r.returncode == 0

    def compile(self, path):
        o = os.path.join(self.tmp, "o%d.o" % self.n)
        self.n += 1
        r = subprocess.run(GCC + ["-gdwarf-5", "-fcommon", "-fno-eliminate-unused-debug-types", "-I", self.outdir,
                                  "-c", path, "-o", o],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return o if r.returncode == 0 else None

    def compile_text(self, text):
        return self.compile(self._source(text))


def inc(names):
    return "".join('#include "%s"\n' % n for n in names)


def strip_type(dw, die):
    """through qualifiers and typedefs of base types; returns (die, typedef name)"""
    name = ""
    while die is not None and die.tag in ("typedef", "const", "volatile"):
        if die.tag == "typedef":
            name = die.at.get("name", "")
        die = dw.type_of(die)
    return die, name


def classify(dw, die):
    base, name = strip_type(dw, die)
    if base is None:
        return "void", "", 0
    bits = 8 * base.at.get("byte_size", 0)
    if base.tag == "struct":
        return "struct", name or base.at.get("name", ""), bits
    if base.tag == "union":
        return "union", name or base.at.get("name", ""), bits
    if base.tag == "enum":
        return "enum", name or base.at.get("name", ""), bits
    if base.tag == "base":
        enc = base.at.get("encoding")
        if base.at.get("name") == "char":
            return "char", "", bits
        if enc in (7, 8, 2):
            return "uint", "", bits
        if enc in (5, 6):
            return "int", "", bits
        if enc == 4:
            return "float", "", bits
    return "other", "", bits


def member(dw, m):
    t = dw.type_of(m)
    base, _ = strip_type(dw, t)
    n = 0
    if base is not None and base.tag == "array":
        dims = []
        for k in base.kids:
            if k.tag == "subrange":
                if "count" in k.at:
                    dims.append(k.at["count"])
                elif "upper_bound" in k.at:
                    dims.append(k.at["upper_bound"] + 1)
                else:
                    dims.append(0)
        n = dims[0] if len(dims) == 1 else -len(dims)
        if n == 0:
            n = -1
        t = dw.type_of(base)
    cls, ref, bits = classify(dw, t)
    if "bit_size" in m.at:
        bits, off = m.at["bit_size"], m.at.get("bit_offset", 0)
        if "location" in m.at:
            off = 8 * m.at["location"]
    else:
        off = 8 * (m.at.get("location") or 0)
    return {"name": m.at.get("name", "?"), "off": off, "bits": bits, "cls": cls, "ref": ref, "n": n}


def c_definitions(dw):
    """file -> (structs, enums) declared in it (by typedef or by tag)"""
    res = {}
    named = set()
    for td in dw.top("typedef") + dw.top("struct") + dw.top("enum") + dw.top("union"):
        if td.tag == "typedef":
            base = dw.type_of(td)
            name = td.at.get("name", "?")
            if base is None or base.tag not in ("struct", "enum", "union"):
                continue
            named.add(base.off)
        else:
            base, name = td, td.at.get("name")
            if name is None or td.off in named:
                continue
        structs, enums = res.setdefault(dw.file(td), ([], []))
        if base.tag == "enum":
            enums.append({"name": name,
                          "items": [{"name": k.at.get("name", "?"), "val": clamp(k.at.get("const_value", 0))}
                                    for k in base.kids if k.tag == "enumerator"]})
        else:
            structs.append({"name": name, "bytes": base.at.get("byte_size", 0),
                            "members": [member(dw, k) for k in base.kids if k.tag == "member"]})
    return res


def clamp(v):
    return max(-2 ** 31 + 1, min(2 ** 31 - 1, int(v)))


def decomment(text):
    return re.sub(r"/\*.*?\*/|//[^\n]*", " ", text, flags=re.S)


def macros(text):
    res = []
    for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]+(.+?)[ \t]*$", decomment(text), re.M):
        name, val = m.group(1), m.group(2).strip()
        while val.startswith("(") and val.endswith(")"):
            val = val[1:-1].strip()
        if val in ("true", "false"):
            res.append({"name": name, "k": "bool", "bool": val == "true"})
            continue
        num = number(val)
        if num["k"] == "int":
            res.append({"name": name, "k": "int", "int": num["int"]})
        elif num["k"] == "real":
            res.append({"name": name, "k": "real", "f64": num["f64"]})
        else:
            res.append({"name": name, "k": "other"})
    return res


# ---- documentation in headers ------------------------------------------------------
COMMENT = re.compile(r"/\*(.*?)\*/|//([^\n]*)", re.S)


def tokens(text):
    """code lines and comments in order: ('code', str, line) / ('cmt', str, first line, last line)"""
    out, pos, line = [], 0, 1
    for m in COMMENT.finditer(text):
        for piece in re.split(r"(\n)", text[pos:m.start()]):
            if piece == "\n":
                line += 1
            elif piece.strip():
                out.append(("code", piece.strip(), line, line))
        body = m.group(1) if m.group(1) is not None else m.group(2)
        n = m.group(0).count("\n")
        # a text may go on on the next line; blanks inside a line count
        out.append(("cmt", re.sub(r"\s*\n\s*", " ", body.strip()), line, line + n))
        line += n
        pos = m.end()
    for piece in re.split(r"(\n)", text[pos:]):
        if piece == "\n":
            line += 1
        elif piece.strip():
            out.append(("code", piece.strip(), line, line))
    return out


def docs(text):
    """documentation of typedefs and their members: preceding adjacent or trailing comments"""
    toks = tokens(text)
    res = []
    moddoc = ""
    for t in toks:
        if t[0] == "cmt" and t[1].startswith("This file was autogenerated from ASN.1 model."):
            moddoc = t[1][len("This file was autogenerated from ASN.1 model."):].strip()
            break
    i = 0
    while i < len(toks):
        t = toks[i]
        if t[0] == "code" and t[1].startswith("typedef"):
            lead, j, at = [], i - 1, t[2]
            while j >= 0 and toks[j][0] == "cmt" and toks[j][3] >= at - 1:
                lead.insert(0, toks[j][1])
                at = toks[j][2]
                j -= 1
            items, pend, last = [], [], None
            i += 1
            name = "?"
            opened = "{" in t[1]
            while i < len(toks):
                u = toks[i]
                if u[0] == "cmt":
                    if last is not None and u[2] == last[1]:
                        last[0]["doc"] = (last[0]["doc"] + " " + u[1]).strip()
                    elif not opened:
                        lead.append(u[1])
                    else:
                        pend.append(u[1])
                elif u[1] == "{":
                    opened = True
                elif u[1].startswith("}"):
                    m = re.search(r"(\w+)\s*;$", u[1])
                    name = m.group(1) if m else "?"
                    break
                else:
                    code = re.sub(r"=.*|:.*|\[.*|;.*|,.*", "", u[1]).strip()
                    key = re.search(r"(\w+)$", code)
                    item = {"name": key.group(1) if key else "?", "doc": " ".join(pend).strip()}
                    items.append(item)
                    pend, last = [], (item, u[2])
                i += 1
            if pend and items:
                items[-1]["doc"] = (items[-1]["doc"] + " " + " ".join(pend)).strip()
            res.append({"name": name, "doc": " ".join(lead).strip(), "items": items})
        i += 1
    return res, moddoc


# ---- COSMOS --------------------------------------------------------------------------
LEX = re.compile(r'"([^"]*)"|(\S+)')


def cosmos(text):
    packets, ok = [], True
    for raw in text.split("\n"):
        line = raw.strip()
        if not line or line.startswith("#"):
            continue
        toks = [m.group(2) if m.group(2) is not None else '"' + m.group(1) for m in LEX.finditer(line)]
        kw = toks[0]
        try:
            if kw == "TELEMETRY":
                if len(toks) != 5 or not toks[4].startswith('"'):
                    ok = False
                    continue
                packets.append({"name": toks[2], "target": toks[1], "endian": toks[3],
                                "descr": toks[4][1:], "items": []})
            elif kw in ("APPEND_ITEM", "APPEND_ID_ITEM", "APPEND_ARRAY_ITEM"):
                it = {"name": toks[1], "kw": {"APPEND_ITEM": "ITEM", "APPEND_ID_ITEM": "ID",
                                              "APPEND_ARRAY_ITEM": "ARRAY"}[kw],
                      "bits": clamp(toks[2]), "type": toks[3], "total": 0,
                      "val": {"k": "none", "int": ZERO, "f64": ZERO}, "descr": "", "little": False,
                      "states": [], "limits": [], "units": []}
                rest = toks[4:]
                if kw == "APPEND_ID_ITEM":
                    it["val"] = number(rest.pop(0))
                elif kw == "APPEND_ARRAY_ITEM":
                    it["total"] = clamp(rest.pop(0))
                if not rest or not rest[0].startswith('"'):
                    ok = False
                    continue
                it["descr"] = rest.pop(0)[1:]
                if rest == ["LITTLE_ENDIAN"]:
                    it["little"] = True
                elif rest:
                    ok = False
                packets[-1]["items"].append(it)
            elif kw == "STATE":
                if len(toks) != 3:
                    ok = False
                packets[-1]["items"][-1]["states"].append({"name": toks[1], "val": clamp(toks[2])})
            elif kw == "LIMITS":
                if toks[1:4] != ["DEFAULT", "5", "ENABLED"] or len(toks) != 8:
                    ok = False
                packets[-1]["items"][-1]["limits"] += [number(x)["f64"] for x in toks[4:]]
            elif kw == "UNITS":
                packets[-1]["items"][-1]["units"] += toks[1:]
            else:
                ok = False
        except (IndexError, ValueError):
            ok = False
    return packets, ok


# ---- the whole directory ----------------------------------------------------------------
def observe(outdir, names, want, tmproot):
    """names: the files to look at; want: set of aspects
    {"c", "compile", "macros", "docs", "vars", "cosmos", "bin"}"""
    files, allok = [], True
    with tempfile.TemporaryDirectory(dir=tmproot) as tmp:
        comp = Compiler(outdir, tmp)
        headers = sorted(n for n in names if n.endswith(".h"))
        defs, good = {}, {}
        need_c = want & {"c", "compile", "vars"}
        if need_c and headers:
            if "compile" in want:
                allok = comp.syntax(inc(headers)) and comp.syntax(inc(reversed(headers)))
            o = None if "compile" in want else comp.compile_text(inc(headers))
            if o:
                defs = c_definitions(dwarf.Dwarf(dwarf.Elf(o)))
                good = {h: True for h in headers}
            else:
                for h in headers:
                    o = comp.compile_text(inc([h]))
                    good[h] = o is not None
                    if o:
                        defs[h] = c_definitions(dwarf.Dwarf(dwarf.Elf(o))).get(h, ([], []))
        for n in sorted(names):
            path = os.path.join(outdir, n)
            if n.endswith(".bin"):
                files.append({"kind": "bin", "name": n, "bytes": list(open(path, "rb").read())})
                continue
            try:
                text = open(path, encoding="utf-8", newline="").read()
            except UnicodeDecodeError:
                files.append({"kind": "other", "name": n})
                continue
            if n.endswith(".h"):
                s, e = defs.get(n, ([], []))
                d, md = docs(text) if "docs" in want else ([], "")
                files.append({"kind": "h", "name": n, "ok": good.get(n, not need_c),
                              "ok2": comp.syntax(inc([n, n])) if "compile" in want else True,
                              "structs": s, "enums": e,
                              "macros": macros(text) if "macros" in want and n.endswith("_msgids.h") else [],
                              "docs": d, "moddoc": md})
            elif n.endswith(".c"):
                ok, variables = True, []
                if want & {"vars", "compile"}:
                    o = comp.compile(path)
                    ok = o is not None
                    if ok and "vars" in want:
                        variables = c_variables(comp, o, n, headers)
                files.append({"kind": "c", "name": n, "ok": ok, "vars": variables})
            elif n.endswith(".txt"):
                pk, ok = cosmos(text) if "cosmos" in want else ([], True)
                files.append({"kind": "cosmos", "name": n, "ok": ok, "packets": pk})
            else:
                files.append({"kind": "other", "name": n})
    return files, allok


def c_variables(comp, obj, name, headers):
    elf = dwarf.Elf(obj)
    dw = dwarf.Dwarf(elf)
    data = elf.variables()
    header = name[:-2] + ".h"
    res = []
    dies = {v.at.get("name"): v for v in dw.top("variable") if "name" in v.at}
    for vn in sorted(data):
        t = dw.type_of(dies[vn]) if vn in dies else None
        res.append({"name": vn, "type": t.at.get("name", "?") if t is not None else "?", "bytes": list(data[vn])})
    if res:
        use = inc([header]) + "const void *apg_probe[] = {%s};\n"
        all_ok = comp.syntax(use % ", ".join("&" + v["name"] for v in res))
        for v in res:
            v["declared"] = all_ok or comp.syntax(use % ("&" + v["name"]))
    return res
