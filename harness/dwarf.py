"""Minimal ELF64/DWARF reader for relocatable objects written by gcc on x86-64.

Only what the observation of generated C needs: typedefs of structures and
enumerations with the file that declares them, variables, symbol contents.
"""
import struct


class Elf:
    def __init__(self, path):
        data = open(path, "rb").read()
        self.data = data
        (shoff,) = struct.unpack_from("<Q", data, 0x28)
        shentsize, shnum, shstrndx = struct.unpack_from("<HHH", data, 0x3A)
        raw = []
        for i in range(shnum):
            raw.append(struct.unpack_from("<IIQQQQIIQQ", data, shoff + i * shentsize))
        strtab = raw[shstrndx]
        self.sections = []
        for r in raw:
            name = self._cstr(data, strtab[4] + r[0])
            body = bytearray(data[r[4]:r[4] + r[5]]) if r[1] != 8 else bytearray(r[5])
            self.sections.append({"name": name, "type": r[1], "body": body, "link": r[6],
                                  "info": r[7], "entsize": r[9]})
        self.symbols = []
        for s in self.sections:
            if s["type"] == 2:
                names = self.sections[s["link"]]["body"]
                for off in range(0, len(s["body"]), 24):
                    n, info, _, shndx, value, size = struct.unpack_from("<IBBHQQ", s["body"], off)
                    self.symbols.append({"name": self._cstr(names, n), "type": info & 15,
                                         "shndx": shndx, "value": value, "size": size})
        for s in self.sections:
            if s["type"] == 4:
                target = self.sections[s["info"]]["body"]
                for off in range(0, len(s["body"]), 24):
                    at, info, addend = struct.unpack_from("<QQq", s["body"], off)
                    value = self.symbols[info >> 32]["value"] + addend
                    kind = info & 0xFFFFFFFF
                    if kind == 1:
                        struct.pack_into("<Q", target, at, value & (2 ** 64 - 1))
                    elif kind in (10, 11):
                        struct.pack_into("<I", target, at, value & 0xFFFFFFFF)

    @staticmethod
    def _cstr(data, off):
        end = data.index(b"\0", off)
        return bytes(data[off:end]).decode("latin-1")

    def section(self, name):
        for s in self.sections:
            if s["name"] == name:
                return s["body"]
        return bytearray()

    def variables(self):
        """defined data objects: name -> bytes"""
        res = {}
        for s in self.symbols:
            if s["type"] == 1 and s["shndx"] not in (0,):
                # with -fcommon a mere tentative definition is a COMMON symbol (0xFFF2)
                if s["shndx"] < len(self.sections):
                    body = self.sections[s["shndx"]]["body"]
                    res[s["name"]] = bytes(body[s["value"]:s["value"] + s["size"]])
        return res


class Reader:
    def __init__(self, data, pos=0):
        self.d = data
        self.p = pos

    def u(self, n):
        v = int.from_bytes(self.d[self.p:self.p + n], "little")
        self.p += n
        return v

    def uleb(self):
        r = s = 0
        while True:
            b = self.d[self.p]
            self.p += 1
            r |= (b & 127) << s
            s += 7
            if not b & 128:
                return r

    def sleb(self):
        r = s = 0
        while True:
            b = self.d[self.p]
            self.p += 1
            r |= (b & 127) << s
            s += 7
            if not b & 128:
                if b & 64:
                    r -= 1 << s
                return r

    def cstr(self):
        e = self.d.index(b"\0", self.p)
        v = bytes(self.d[self.p:e]).decode("latin-1")
        self.p = e + 1
        return v


AT = {0x03: "name", 0x0B: "byte_size", 0x0D: "bit_size", 0x1C: "const_value", 0x22: "lower_bound",
      0x2F: "upper_bound", 0x37: "count", 0x38: "location", 0x3A: "file", 0x3E: "encoding",
      0x47: "spec", 0x49: "type", 0x6B: "bit_offset", 0x10: "stmt_list", 0x3C: "declaration"}
TAG = {0x01: "array", 0x04: "enum", 0x0D: "member", 0x0F: "pointer", 0x11: "cu", 0x13: "struct",
       0x16: "typedef", 0x17: "union", 0x21: "subrange", 0x24: "base", 0x26: "const",
       0x28: "enumerator", 0x34: "variable", 0x35: "volatile"}


class Die:
    __slots__ = ("tag", "at", "kids", "off")

    def __init__(self, tag, at, off):
        self.tag, self.at, self.kids, self.off = tag, at, [], off


class Dwarf:
    def __init__(self, elf):
        self.str = elf.section(".debug_str")
        self.lstr = elf.section(".debug_line_str")
        self.line = elf.section(".debug_line")
        self.abbrev_data = elf.section(".debug_abbrev")
        self.dies = {}
        self.root = None
        self.files = {}
        info = elf.section(".debug_info")
        if info:
            self._cu(info)

    def _abbrevs(self, off):
        r = Reader(self.abbrev_data, off)
        res = {}
        while True:
            code = r.uleb()
            if code == 0:
                return res
            tag = r.uleb()
            kids = r.u(1)
            specs = []
            while True:
                a, f = r.uleb(), r.uleb()
                c = r.sleb() if f == 0x21 else None
                if a == 0 and f == 0:
                    break
                specs.append((a, f, c))
            res[code] = (tag, kids, specs)

    def _form(self, r, f, c, addr):
        if f == 0x01:
            return r.u(addr)
        if f in (0x0B, 0x0C, 0x11):
            return r.u(1)
        if f in (0x05, 0x12):
            return r.u(2)
        if f in (0x06, 0x13, 0x17):
            return r.u(4)
        if f in (0x07, 0x14, 0x20):
            return r.u(8)
        if f == 0x1E:
            return r.u(16)
        if f == 0x08:
            return r.cstr()
        if f == 0x0E:
            return Reader(self.str, r.u(4)).cstr()
        if f == 0x1F:
            return Reader(self.lstr, r.u(4)).cstr()
        if f == 0x0D:
            return r.sleb()
        if f in (0x0F, 0x15):
            return r.uleb()
        if f == 0x19:
            return 1
        if f == 0x21:
            return c
        if f == 0x18:
            n = r.uleb()
            r.p += n
            return None
        if f == 0x0A:
            n = r.u(1)
            r.p += n
            return None
        raise ValueError("form %x" % f)

    def _cu(self, info):
        r = Reader(info)
        r.u(4)
        version = r.u(2)
        if version >= 5:
            r.u(1)
            addr = r.u(1)
            aoff = r.u(4)
        else:
            aoff = r.u(4)
            addr = r.u(1)
        ab = self._abbrevs(aoff)
        stack = []
        while r.p < len(info):
            off = r.p
            code = r.uleb()
            if code == 0:
                if stack:
                    stack.pop()
                if not stack:
                    break
                continue
            tag, kids, specs = ab[code]
            at = {}
            for a, f, c in specs:
                v = self._form(r, f, c, addr)
                if a in AT:
                    at[AT[a]] = v
            die = Die(TAG.get(tag, "?"), at, off)
            self.dies[off] = die
            if stack:
                stack[-1].kids.append(die)
            else:
                self.root = die
            if kids:
                stack.append(die)
        self._lines(self.root.at.get("stmt_list", 0))

    def _lines(self, off):
        r = Reader(self.line, off)
        r.u(4)
        version = r.u(2)
        if version < 5:
            raise ValueError("line table version")
        r.u(2)
        r.u(4)
        r.p += 5
        base = r.u(1)
        r.p += base - 1

        def table():
            fmt = [(r.uleb(), r.uleb()) for _ in range(r.u(1))]
            res = []
            for _ in range(r.uleb()):
                name = None
                for ct, f in fmt:
                    v = self._form(r, f, None, 8)
                    if ct == 1:
                        name = v
                res.append(name)
            return res
        table()
        for i, n in enumerate(table()):
            self.files[i] = n.rsplit("/", 1)[-1]

    def file(self, die):
        return self.files.get(die.at.get("file"), "?")

    def top(self, tag):
        return [d for d in self.root.kids if d.tag == tag] if self.root else []

    def type_of(self, die):
        return self.dies.get(die.at.get("type"))
