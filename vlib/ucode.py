"""Microcode ROM cases: generation (Hypothesis) and judging.

Runs under /opt/venv/bin/python (Amaranth, m5meta) with the Hypothesis of
python3-vt appended to sys.path.

usage: ucode.py PROPERTY SEED EXAMPLES SECONDS OUT.json
       ucode.py PROPERTY --replay CASE.json
"""
import copy
import enum as pyenum
import hashlib
import io
import json
import os
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

warnings.simplefilter("ignore")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from amaranth.hdl import Shape, signed, unsigned  # noqa: E402
from amaranth.lib import enum as amenum  # noqa: E402
from amaranth.sim import Simulator  # noqa: E402
from sentinel.ucoderom import UCodeROM  # noqa: E402


# ---------------------------------------------------------------- model

def blen(x):
    return x.bit_length()


def field_width(f):
    if f["kind"] == "bool":
        return 1
    if f.get("width") is not None:
        return f["width"]
    vals = [v for _, v in f["enum"]] if f["kind"] == "enum" else []
    if f["default"] is not None:
        vals.append(f["default"])
    return blen(max(vals))


def place(fields):
    """[(name, lsb, width)]: automatic fields follow all preceding ones."""
    used, out = 0, []
    for f in fields:
        w = field_width(f)
        o = used if f["origin"] is None else f["origin"]
        used += w
        out.append((f["name"], o, w))
    return out


def symbols(f):
    if f["kind"] == "bool":
        return {"false": 0, "true": 1}
    return dict(f["enum"]) if f["kind"] == "enum" else {}


def words(spec):
    """{address: word} the source describes."""
    labels, pc = {}, None
    for it in spec["items"]:
        if "origin" in it:
            pc = it["origin"]
        else:
            for lab in it["labels"]:
                labels[lab] = pc
            pc += 1
    pos = {n: (o, w) for n, o, w in place(spec["fields"])}
    fields = {f["name"]: f for f in spec["fields"]}
    mac = {m["name"]: m for m in spec["macros"]}
    out = {}
    for it in spec["items"]:
        if "origin" in it:
            pc = it["origin"]
            continue
        vals = {n: f["default"] for n, f in fields.items()}
        for part in it["parts"]:
            asg = mac[part]["set"] if isinstance(part, str) else [part]
            for n, v in asg:
                if isinstance(v, str):
                    s = symbols(fields[n])
                    v = s[v] if v in s else labels[v]
                vals[n] = v
        word = 0
        for n, v in vals.items():
            word |= v << pos[n][0]
        out[pc] = word
        pc += 1
    return out


def render(spec):
    """Source text of a case."""
    o = []
    if spec.get("comment"):
        o.append("// generated\n")
    sp = spec["space"]
    ws = f"width {spec['width']}", f"size {spec['depth']}"
    o.append(f"space {sp}: {', '.join(ws[::-1] if spec['swap'] else ws)};\n")
    for x in spec.get("spaces_before", []):
        o.insert(0, f"space {x}: width 8, size 16;\n")
    for x in spec.get("spaces_after", []):
        o.append(f"space {x}: width 8, size 16;\n")
    o.append(f"space {sp};\n")

    def fdef(f):
        a = []
        if f["kind"] == "bool":
            a.append("bool")
        elif f["kind"] == "enum":
            its, prev = [], -1
            for k, (n, v) in enumerate(f["enum"]):
                alias = [m for m, x in f["enum"][:k] if x == v]
                if v == prev + 1 and f["implicit"]:
                    its.append(n)
                    prev = v
                elif alias and f["byname"]:
                    its.append(f"{n} = {alias[0]}")
                    prev = -9
                else:
                    its.append(f"{n} = {v}")
                    prev = v
            a.append("enum { " + "; ".join(its)
                     + ("; }" if f["implicit"] else " }"))
        if f.get("width") is not None and f["kind"] != "bool":
            a.append(f"width {f['width']}")
        if f["origin"] is not None:
            a.append(f"origin {f['origin']:#x}" if f["origin"] % 3 == 0
                     else f"origin {f['origin']}")
        if f["default"] is not None:
            back = {v: k for k, v in symbols(f).items()}
            d = f["default"]
            a.append(f"default {back.get(d, d) if f['dname'] else d}")
        return f"  {f['name']}: {', '.join(a)}"

    cut = spec["blocks"]
    fs = spec["fields"]
    for part in ([fs] if not 0 < cut < len(fs) else [fs[:cut], fs[cut:]]):
        o.append(f"fields {sp}: {{\n" + ";\n".join(map(fdef, part))
                 + ";\n};\n")

    def val(v):
        return v if isinstance(v, str) else (hex(v) if v % 5 == 3 else str(v))

    for m in spec["macros"]:
        body = ", ".join(f"{n} => {val(v)}" for n, v in m["set"])
        if m["pre"]:
            o.append(f"#define {m['name']} {body}\n")
        else:
            o.append(f"macro {m['name']}: {{ {body} }};\n")
    for it in spec["items"]:
        if "origin" in it:
            o.append(f"origin {it['origin']};\n")
            continue
        t = "".join(f"{x}:\n" for x in it["labels"])
        t += ", ".join(p if isinstance(p, str) else f"{p[0]} => {val(p[1])}"
                       for p in it["parts"])
        o.append(t + ";" + (" // x\n" if spec.get("comment") else "\n"))
    return "".join(o)


def make_shape(name, s):
    k = s["k"]
    if k == "u":
        return unsigned(s["w"])
    if k == "s":
        return signed(s["w"])
    if k == "r":
        return range(1 << s["w"])
    cls = "".join(x.capitalize() for x in name.split("_"))
    mem = [tuple(x) for x in s["m"]]
    if k == "py":
        return pyenum.Enum(cls, mem)
    if k == "int":
        return pyenum.IntEnum(cls, mem)
    # Amaranth enumeration with an explicit shape
    meta = type(amenum.Enum)
    ns = meta.__prepare__(cls, (amenum.Enum,), shape=unsigned(s["w"]))
    for n, v in mem:
        ns[n] = v
    ns["__module__"] = __name__
    return meta(cls, (amenum.Enum,), ns, shape=unsigned(s["w"]))


def construct(spec, tmp, **kw):
    fm = {n: make_shape(n, s) for n, s in spec["map"].items()}
    if spec.get("prior"):
        # an earlier ROM from the same place in the same process; later
        # results may not depend on it
        try:
            construct(spec["prior"], tmp)
        except Exception:
            pass
    text = render(spec)
    if spec["via"] == "string":
        src = io.StringIO(text)
    else:
        src = Path(tmp) / "case.asm"
        src.write_text(text)
        if spec["via"] == "file":
            src = open(src)
    return UCodeROM(main_file=src, field_map=fm, **kw), fm


# ---------------------------------------------------------------- judging

def judge_rom(rom, depth, width, pos, data, shapes, reads, simulate=True):
    """Compare a constructed ROM with its expected description."""
    if rom.depth != depth or rom.width != width:
        return f"depth/width {rom.depth}/{rom.width}, source says " \
               f"{depth}/{width}"
    alen = blen(depth - 1) if depth > 1 else 0
    if len(rom.addr) != alen:
        return f"address port is {len(rom.addr)} bits, expected {alen}"
    lay = Shape.cast(rom.fields.shape())
    st = rom.fields.shape()
    for n, o, w in pos:
        try:
            f = st[n]
        except KeyError:
            return f"field {n} missing from the layout"
        if Shape.cast(f.shape).width != w or w and f.offset != o:
            return f"field {n} at bit {f.offset} width " \
                   f"{Shape.cast(f.shape).width}, source says {o}/{w}"
        if shapes is not None and f.shape is not shapes[n] and \
                f.shape != shapes[n]:
            return f"field {n} has shape {f.shape}, map says {shapes[n]}"
    if lay.width > width:
        return f"fields are {lay.width} bits wide, word is {width}"
    if len(rom.ucode_contents) != depth:
        return f"{len(rom.ucode_contents)} words for depth {depth}"
    for a in range(depth):
        if rom.ucode_contents[a] != data.get(a, 0):
            return f"word {a} is {rom.ucode_contents[a]:#x}, source says " \
                   f"{data.get(a, 0):#x}"
    if not simulate:
        return None
    bad = []

    async def tb(ctx):
        prev = None
        for a in list(reads) + [reads[-1]]:
            if alen:
                ctx.set(rom.addr, a)
            else:
                a = 0
            # the old word must still be shown until the clock
            if prev is not None:
                compare(ctx, prev, "before the clock")
            await ctx.tick()
            compare(ctx, a, "after the clock")
            prev = a
            if bad:
                return

    def compare(ctx, a, when):
        w = data.get(a, 0)
        got = ctx.get(rom.fields.as_value())
        if got != w & ((1 << lay.width) - 1):
            bad.append(f"reading {a} shows {got:#x} {when}, expected {w:#x}")
            return
        for n, o, fw in pos:
            v = rom.fields[n]
            v = ctx.get(v.as_value() if hasattr(v, "as_value") else v)
            if v & ((1 << fw) - 1) != (w >> o) & ((1 << fw) - 1):
                bad.append(f"field {n} of word {a} reads {v} {when}, "
                           f"expected {(w >> o) & ((1 << fw) - 1)}")
                return

    sim = Simulator(rom)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return bad[0] if bad else None


def judge_hex(path, width, data):
    got, a = {}, 0
    digits = (width + 3) // 4
    for line in Path(path).read_text().split("\n"):
        line = line.split("//")[0]
        for t in line.split():
            if t.startswith("@"):
                a = int(t[1:], 16)
            else:
                if len(t) > digits:
                    return f"hex word {t} too wide"
                got[a] = int(t, 16)
                a += 1
    for k in set(got) | set(data):
        if got.get(k, 0) != data.get(k, 0):
            return f"hex file word {k} is {got.get(k, 0):#x}, ROM word is " \
                   f"{data.get(k, 0):#x}"
    return None


def judge_fdef(path, width, pos, enums):
    """Field-definition side file against the fields."""
    got, ww, cur = {}, None, None
    for line in Path(path).read_text().split("\n"):
        t = line.split()
        if not t:
            continue
        if len(t) == 3 and t[1] == "=" and cur:
            got[cur][2][t[0]] = int(t[2])
        elif t[0] == "word":
            ww = int(t[2])
        elif t[0] == "field":
            cur = t[1]
            got[cur] = [int(t[3]), int(t[5]), {}]
        elif t[0] == "end":
            cur = None
        else:
            return f"unreadable field-definition line {line!r}"
    if ww != width:
        return f"field-definition file says word width {ww}, ROM {width}"
    if set(got) != {n for n, _, _ in pos}:
        return f"field-definition file lists {sorted(got)}"
    for n, o, w in pos:
        if got[n][1] != w or w and got[n][0] != o:
            return f"field-definition file puts {n} at {got[n][:2]}, not " \
                   f"{[o, w]}"
        if enums is not None and got[n][2] != enums[n]:
            return f"field-definition file gives {n} values {got[n][2]}"
    return None


def judge_c22(spec):
    if spec.get("default_source"):
        return judge_default(spec)
    with tempfile.TemporaryDirectory() as tmp:
        kw = {}
        if spec["hex"]:
            kw["hex"] = Path(tmp) / "o.hex"
        if spec["fdef"]:
            kw["field_defs"] = Path(tmp) / "o.fdef"
        for p in kw.values():
            p.write_text("stale " * 50)
        try:
            rom, fm = construct(spec, tmp, **kw)
        except Exception as e:
            return f"consistent source refused: {type(e).__name__}: {e}"
        pos, data = place(spec["fields"]), words(spec)
        try:
            r = judge_rom(rom, spec["depth"], spec["width"], pos, data, fm,
                          spec["reads"])
        except Exception as e:
            return f"ROM unusable: {type(e).__name__}: {e}"
        if r:
            return r
        if spec["hex"]:
            r = judge_hex(kw["hex"], spec["width"], data)
        if not r and spec["fdef"]:
            r = judge_fdef(kw["field_defs"], spec["width"], pos,
                           {f["name"]: symbols(f) for f in spec["fields"]})
        return r


def judge_default(spec):
    """The supplied microcode against the assembler run on its own."""
    from m5meta import M5Meta
    from m5pre import M5Pre
    main = UCodeROM.main_microcode_file()
    with tempfile.TemporaryDirectory() as tmp:
        kw = dict(hex=Path(tmp) / "o.hex", field_defs=Path(tmp) / "o.fdef")
        if spec["via"] == "path":
            kw["main_file"] = main
        elif spec["via"] == "string":
            kw["main_file"] = io.StringIO(main.read_text())
        try:
            rom = UCodeROM(**kw)
        except Exception as e:
            return f"own microcode refused: {type(e).__name__}: {e}"
        with open(main) as f:
            m = M5Meta(f, obj_base_fn="x")
            m.src = M5Pre(f).read()
        for p in (1, 2):
            m.pass_num = p
            m.pass12()
        sp = next(iter(m.spaces.values()))
        sp.generate_object()
        pos = [(f.name, f.origin, f.width) for f in sp.fields.values()]
        r = judge_rom(rom, sp.size, sp.width, pos, sp.data,
                      UCodeROM.field_map, spec["reads"])
        return r or judge_hex(kw["hex"], sp.width, sp.data) or judge_fdef(
            kw["field_defs"], sp.width, pos,
            {f.name: f.enum or {} for f in sp.fields.values()})


def judge_c23(spec):
    with tempfile.TemporaryDirectory() as tmp:
        try:
            construct(spec, tmp)
        except ValueError as e:
            if spec["reject"]:
                return None
            return f"consistent definition refused: ValueError: {e}"
        except Exception as e:
            return (f"{type(e).__name__} ({e}) instead of ValueError"
                    if spec["reject"] else
                    f"consistent definition refused: {type(e).__name__}: {e}")
        if spec["reject"]:
            return f"inconsistent definition accepted ({spec['reject']})"
        return None


JUDGE = {"C22": judge_c22, "C23": judge_c23}


# ------------------------------------------------------------- generation

def strategies():
    from hypothesis import strategies as st

    WORDS = ["foo", "bar", "baz", "qux", "alu_op", "target", "mem_req", "x",
             "y1", "long_field_name", "jmp", "latch_a", "z_z", "csr_sel",
             "pc_action", "A", "Mixed"]
    ITEMS = ["a", "b", "c", "none", "add", "sub", "hold", "zero", "one", "e1",
             "e2", "inc", "load_it", "auto", "k_9"]

    @st.composite
    def spec(draw, distinct=False, single_ok=True):
        b = st.booleans()

        def i(lo, hi):
            return draw(st.integers(lo, hi))

        nf = i(1, 7) if i(0, 7) else i(8, 16)
        names = draw(st.lists(st.sampled_from(WORDS), min_size=nf,
                              max_size=nf, unique=True))
        fields, fmap, used = [], {}, 0
        taken = []        # [(lo, hi)]
        for n in names:
            kind = draw(st.sampled_from(["plain", "plain", "bool", "enum",
                                         "enum"]))
            f = dict(name=n, kind=kind, origin=None, default=None,
                     dname=draw(b), width=None)
            if kind == "enum":
                ni = i(1, 6)
                its = draw(st.lists(st.sampled_from(ITEMS), min_size=ni,
                                    max_size=ni, unique=True))
                mode = draw(st.sampled_from(["seq", "seq", "sparse",
                                             "alias"]))
                en, prev = [], -1
                for it in its:
                    if mode == "seq":
                        v = prev + 1
                    elif mode == "sparse":
                        v = i(0, 12)
                        if distinct and v in [x for _, x in en]:
                            v = max(x for _, x in en) + 1
                    else:
                        v = i(0, 3)
                    en.append([it, v])
                    prev = v
                if max(v for _, v in en) == 0 and not single_ok:
                    en[-1][1] = 1
                f.update(enum=en, implicit=draw(b), byname=draw(b))
                need = blen(max(v for _, v in en))
                if draw(b):
                    f["width"] = need + draw(st.sampled_from([0, 0, 1, 3]))
            elif kind == "plain":
                f["width"] = draw(st.one_of(st.integers(1, 12),
                                            st.just(8), st.integers(1, 32)))
            w = field_width(f)
            if draw(st.integers(0, 3)) > 0:
                f["default"] = (draw(st.sampled_from([v for _, v in
                                                      f["enum"]]))
                                if kind == "enum" else
                                i(0, min((1 << w) - 1, 1 << 16)))
                if kind == "plain" and draw(b) and f["default"]:
                    # width inferred from the default value
                    f["width"] = None
                    w = field_width(f)
            # origin: the assembler only accepts one at or above the sum of
            # the widths so far
            if w and draw(st.integers(0, 2)) == 0:
                for _ in range(3):
                    o = used + i(0, 20)
                    if all(o >= hi or o + w <= lo for lo, hi in taken):
                        f["origin"] = o
                        break
            o = used if f["origin"] is None else f["origin"]
            if any(o < hi and o + w > lo for lo, hi in taken) and w:
                # automatic placement would collide; use a free origin
                o = max(hi for _, hi in taken) + i(0, 2)
                f["origin"] = o
            if w:
                taken.append((o, o + w))
            used += w
            fields.append(f)
            if kind == "enum":
                mem = [[a.upper(), v] for a, v in f["enum"]]
                mem = [m for _, m in sorted(zip(
                    draw(st.permutations(range(len(mem)))), mem))] \
                    if draw(b) else mem
                # (a plain enumeration of just 0 is one bit wide in Amaranth)
                if w and w == blen(max(v for _, v in f["enum"])) and draw(b):
                    k = draw(st.sampled_from(["py", "int"]))
                else:
                    k = "am"
                fmap[n] = dict(k=k, w=w, m=mem)
            else:
                k = draw(st.sampled_from(["u", "u", "u", "s", "r"]))
                fmap[n] = dict(k=k, w=w)
        top = max((hi for _, hi in taken), default=0)
        width = max(1, top + draw(st.sampled_from([0, 0, 1, 7])))
        depth = draw(st.one_of(st.sampled_from([1, 2, 16, 64, 256, 5, 100, 512,
                                                     1024, 1025]),
                               st.integers(1, 300)))
        # instructions in disjoint blocks
        nb = i(1, 3)
        items, addr_used = [], set()
        labels = [f"L{k}_x" for k in range(6)]
        free = list(labels)
        maxlab = depth - 1
        for _ in range(nb):
            a = i(0, depth - 1)
            ln = i(1, 6)
            rng = [x for x in range(a, min(depth, a + ln))]
            rng2 = []
            for x in rng:
                if x in addr_used:
                    break
                rng2.append(x)
            if not rng2:
                continue
            items.append(dict(origin=a))
            for x in rng2:
                addr_used.add(x)
                labs = []
                while free and draw(st.integers(0, 3)) == 0:
                    labs.append(free.pop(0))
                items.append(dict(labels=labs, parts=[]))
        deflabs = [x for it in items for x in it.get("labels", [])]

        def value(f):
            w = field_width(f)
            s = symbols(f)
            ch = draw(st.integers(0, 3))
            if s and ch:
                return draw(st.sampled_from(sorted(s)))
            if f["kind"] == "plain" and not ch and deflabs and \
                    blen(maxlab) <= w:
                return draw(st.sampled_from(deflabs))
            return i(0, (1 << w) - 1)

        macros = []
        for k in range(i(0, 2)):
            sel = draw(st.lists(st.sampled_from(range(nf)), min_size=1,
                                max_size=nf, unique=True))
            macros.append(dict(name=f"MAC_{'PQ'[k]}", pre=draw(b),
                               set=[[fields[q]["name"], value(fields[q])]
                                    for q in sel]))
        for it in items:
            if "origin" in it:
                continue
            have = set()
            if macros and draw(st.integers(0, 2)) == 0:
                m = draw(st.sampled_from(macros))
                it["parts"].append(m["name"])
                have = {n for n, _ in m["set"]}
            for f in fields:
                if f["name"] in have:
                    continue
                if f["default"] is None or draw(b):
                    it["parts"].append([f["name"], value(f)])
            if not it["parts"]:
                f = fields[0]
                it["parts"].append([f["name"], value(f)])
        reads = draw(st.lists(st.one_of(
            st.sampled_from(sorted(addr_used)), st.integers(0, depth - 1)),
            min_size=1, max_size=12))
        return dict(space=draw(st.sampled_from(["block_ram", "rom", "s"])),
                    width=width, depth=depth, swap=draw(b), fields=fields,
                    blocks=i(0, nf), macros=macros, items=items, map=fmap,
                    via=draw(st.sampled_from(["string", "path", "file"])),
                    hex=draw(b), fdef=draw(b), comment=draw(b), reads=reads)

    @st.composite
    def c22(draw):
        if draw(st.integers(0, 60)) == 0:
            return dict(default_source=True,
                        via=draw(st.sampled_from(["none", "path",
                                                  "string"])),
                        reads=draw(st.lists(st.integers(0, 255), min_size=4,
                                            max_size=40)))
        s = draw(spec())
        if draw(st.integers(0, 7)) == 0:
            q = draw(spec())
            if s["via"] != "string" and draw(st.booleans()):
                q = copy.deepcopy(s)      # the same file but for a few words
                q["items"] = [x for x in q["items"]
                              if "parts" not in x or draw(st.booleans())] \
                    or q["items"]
                q["depth"] = draw(st.sampled_from([s["depth"],
                                                   s["depth"] + 1]))
            q["via"] = s["via"]
            s["prior"] = q
        return s

    @st.composite
    def c23(draw):
        s = draw(spec())
        s["reject"] = None
        prior = draw(st.integers(0, 5)) == 0 and copy.deepcopy(s)
        if draw(st.integers(0, 3)) == 0:
            return s
        if prior:      # the consistent definition first
            s["prior"] = prior
        enums = [f for f in s["fields"] if f["kind"] == "enum"
                 and f["enum"] and symbols(f) != {"false": 0, "true": 1}]
        kinds = ["space", "missing", "width", "width"]
        if enums:
            kinds += ["ewidth", "rename", "remove", "add", "value", "swap",
                      "alias", "notenum", "lower", "srcadd"]
        k = draw(st.sampled_from(kinds))
        m = s["map"]
        if k == "space":
            key = draw(st.sampled_from(["spaces_before", "spaces_after"]))
            s[key] = draw(st.lists(st.sampled_from(["other", "aux", "ram2"]),
                                   min_size=1, max_size=2, unique=True))
        elif k == "missing":
            f = draw(st.sampled_from(s["fields"]))
            del m[f["name"]]
            if draw(st.booleans()):
                m[f["name"] + "_other"] = dict(k="u", w=field_width(f))
        elif k == "width":
            pl = [f for f in s["fields"] if f["kind"] != "enum"]
            if not pl:
                k = "missing"
                del m[s["fields"][0]["name"]]
            else:
                f = draw(st.sampled_from(pl))
                w = field_width(f)
                nw = draw(st.integers(0, 40).filter(lambda x: x != w))
                kk = "u" if nw > 16 or not nw else draw(st.sampled_from("usr"))
                m[f["name"]] = dict(k=kk, w=nw)
        else:
            f = draw(st.sampled_from(enums))
            e = m[f["name"]]
            w = field_width(f)
            need = blen(max(v for _, v in f["enum"]))
            used = {v for _, v in f["enum"]}
            names = [n for n, _ in e["m"]]
            fresh = [x for x in ("NEW", "ZZ", "A1", "NONE_2", "FOO")
                     if x not in names]
            j = draw(st.integers(0, len(e["m"]) - 1))
            if k == "ewidth":
                nw = draw(st.integers(need, 40).filter(lambda x: x != w))
                m[f["name"]] = dict(k="am", w=nw, m=e["m"])
            elif k == "rename":
                e["m"][j][0] = draw(st.sampled_from(fresh))
            elif k == "remove":
                if len(e["m"]) > 1:
                    del e["m"][j]
                else:
                    e["m"][j][0] = draw(st.sampled_from(fresh))
                e.update(k="am", w=w)
            elif k == "add":
                free = [v for v in range(1 << min(w, 6)) if v not in used]
                v = draw(st.sampled_from(free)) if free else e["m"][j][1]
                e["m"].insert(draw(st.integers(0, len(e["m"]))),
                              [draw(st.sampled_from(fresh)), v])
                e.update(k="am", w=w)
            elif k == "alias":
                # one more name for an existing value
                e["m"].append([draw(st.sampled_from(fresh)), e["m"][j][1]])
            elif k == "value":
                nv = draw(st.integers(0, (1 << max(w, 1)) - 1).filter(
                    lambda x: x != e["m"][j][1]))
                e["m"][j][1] = nv
                e.update(k="am", w=max(w, 1))
            elif k == "swap":
                vals = sorted(used)
                if len(vals) < 2:
                    e["m"][j][0] = draw(st.sampled_from(fresh))
                    k = "rename"
                else:
                    x, y = draw(st.permutations(vals))[:2]
                    for q in e["m"]:
                        q[1] = {x: y, y: x}.get(q[1], q[1])
            elif k == "notenum":
                m[f["name"]] = dict(k=draw(st.sampled_from("ur")), w=w)
            elif k == "lower":
                e["m"][j][0] = e["m"][j][0].lower()
            elif k == "srcadd":
                nm = draw(st.sampled_from(["extra", "more"]))
                v = draw(st.integers(0, (1 << w) - 1))
                f["enum"].append([nm, v])
        s["reject"] = k
        return s

    return {"C22": c22, "C23": c23}


RULE = {
    "C22": "a source with at least two fields and two programmed words "
           "(or the supplied microcode)",
    "C23": "an inconsistent definition, or a consistent one with an "
           "enumeration",
}


def nontrivial(pid, s):
    if pid == "C22":
        return bool(s.get("default_source")) or (
            len(s["fields"]) > 1 and
            sum("parts" in i for i in s["items"]) > 1)
    return bool(s["reject"]) or any(f["kind"] == "enum"
                                    for f in s["fields"])


def classify(pid, s, h):
    if s.get("default_source"):
        h["supplied microcode"] += 1
        return
    if pid == "C23":
        h["inconsistent: " + s["reject"] if s["reject"]
          else "consistent"] += 1
    h["via " + s["via"]] += 1
    if s.get("prior"):
        h["after another ROM from the same place"] += 1
    pos = sorted(place(s["fields"]), key=lambda x: (x[1], x[2]))
    at, gaps = 0, 0
    for _, o, w in pos:
        gaps += o != at
        at = o + w
    h[f"gaps {min(gaps, 3)}"] += 1
    if [p[0] for p in pos] != [f["name"] for f in s["fields"]]:
        h["origins out of declaration order"] += 1
    if s["macros"]:
        h["macros"] += 1


def run_worker(pid, sd, examples, secs, out):
    from hypothesis import HealthCheck, Phase, given, seed, settings
    judge, strat = JUDGE[pid], strategies()[pid]()
    deadline = time.time() + secs
    st = dict(evals=0, hist=Counter(), seen=set(), samples=[], viol=None,
              err=None)
    last = {}

    @seed(sd)
    @settings(max_examples=examples, deadline=None, database=None,
              print_blob=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink))
    @given(strat)
    def prop(s):
        if time.time() > deadline and not last:
            return
        if time.time() > deadline + 60:
            return
        msg = judge(s)
        st["evals"] += 1
        if msg:
            if len(msg) > 600:
                msg = msg[:600]
            last["spec"], last["msg"] = json.loads(json.dumps(s)), msg
            raise AssertionError(msg.split(":")[0])
        classify(pid, s, st["hist"])
        if nontrivial(pid, s):
            st["seen"].add(hashlib.md5(json.dumps(
                s, sort_keys=True).encode()).hexdigest()[:16])
            if len(st["samples"]) < 2 and st["evals"] % 5 == 0:
                st["samples"].append(
                    dict(reject=s.get("reject"), via=s["via"],
                         source=None if s.get("default_source")
                         else render(s), map=s.get("map")))
    try:
        prop()
    except AssertionError:
        pass
    except Exception:
        if not last:
            st["err"] = traceback.format_exc()
    if last:
        st["viol"] = last
    st["hist"] = dict(st["hist"])
    st["seen"] = sorted(st["seen"])
    Path(out).write_text(json.dumps(st))


def main():
    pid = sys.argv[1]
    if sys.argv[2] == "--replay":
        d = json.loads(Path(sys.argv[3]).read_text())
        s = d["case"]
        if not s.get("default_source"):
            print(render(s))
            print("map:", json.dumps(s["map"]))
        msg = JUDGE[pid](s)
        print("verdict:", msg or "no failure")
        sys.exit(1 if msg else 0)
    run_worker(pid, int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4]),
               sys.argv[5])


if __name__ == "__main__":
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY",
                          tempfile.gettempdir() + "/hyp-unused")
    main()
