"""What the NEON intrinsics do which neither Miri nor a host's back end has, in Rust. `model` gives the body of a
function with such parameters and result, or None; after the Arm architecture's definition of the instructions."""
import re

T = "crate::mem::transmute"


def vec(s):
    m = re.fullmatch(r"v(\d+)i(\d+)", s)
    return m and (int(m[1]), int(m[2]))


def arrays(names, types):
    return "".join("let %s: %s = %s(%s); " % (v, t, T, n) for v, n, t in zip("xyzw", names, types))


def loop(n, out, each):
    return "let mut r: [%s; %d] = [0; %d]; let mut i = 0; while i < %d { r[i] = %s; i += 1; } %s(r)" % (out, n, n, n, each, T)


def low(op):
    """Two values p and q of a type of twice the size to one."""
    return {"abd": "if p > q { p - q } else { q - p }", "hadd": "(p + q) >> 1", "rhadd": "(p + q + 1) >> 1", "hsub": "(p - q) >> 1",
            "add": "p + q", "min": "if p < q { p } else { q }", "max": "if p > q { p } else { q }"}[op]


def elementwise(op, sign, n, b, names):
    t, w = sign + str(b), "i64"
    return arrays(names, ["[%s; %d]" % (t, n)] * 2) + loop(n, t, "{ let (p, q) = (x[i] as %s, y[i] as %s); (%s) as %s }" % (w, w, low(op), t))


def pairwise(op, sign, n, b, names):
    t = sign + str(b)
    both = "let s: [%s; %d] = %s([x, y]); " % (t, 2 * n, T)
    return arrays(names, ["[%s; %d]" % (t, n)] * 2) + both + loop(n, t, "{ let (p, q) = (s[2 * i] as i64, s[2 * i + 1] as i64); (%s) as %s }" % (low(op), t))


def shifted(sign, n, b, names):
    t = sign + str(b)
    return arrays(names, ["[%s; %d]" % (t, n), "[i%d; %d]" % (b, n)]) + loop(
        n, t, "{ let k = y[i] as i8 as i32; if k >= %d { 0 } else if k >= 0 { ((x[i] as i128) << k) as %s } else if k <= -%d { if (x[i] as i128) < 0 { !0 } else { 0 } } else { ((x[i] as i128) >> -k) as %s } }" % (b, t, b, t))


def narrowed(src, dst, n, b, names):
    lo, hi = ("0", (1 << b) - 1) if dst == "u" else (-(1 << b - 1), (1 << b - 1) - 1)
    return arrays(names, ["[%s%d; %d]" % (src, 2 * b, n)]) + loop(
        n, "%s%d" % (dst, b), "{ let v = x[i] as i128; (if v < %s { %s } else if v > %s { %s } else { v }) as %s%d }" % (lo, lo, hi, hi, dst, b))


def table(k, each, n, names, extended):
    """k tables of `each` bytes; n indices"""
    ns = list(names)
    pre = "let f: [u8; %d] = %s(%s); " % (n, T, ns.pop(0)) if extended else ""
    pre += "let t: [u8; %d] = %s([%s]); let c: [u8; %d] = %s(%s); " % (k * each, T, ", ".join(ns[:k]), n, T, ns[k])
    return pre + loop(n, "u8", "if (c[i] as usize) < %d { t[c[i] as usize] } else { %s }" % (k * each, "f[i]" if extended else "0"))


def model(link, names, types, ret):
    p = link.split(".")
    if p[:3] == ["llvm", "aarch64", "neon"]:
        name, rest = p[3], [x for x in p[4:] if x != "p0"]
        ops = {"uabd": "abd", "uhadd": "hadd", "urhadd": "rhadd", "uhsub": "hsub", "sabd": "abd", "shadd": "hadd", "srhadd": "rhadd", "shsub": "hsub"}
        pairs = {"addp": ("add", "u"), "uminp": ("min", "u"), "umaxp": ("max", "u"), "sminp": ("min", "i"), "smaxp": ("max", "i")}
        shifts = {"ushl": "u", "sshl": "i"}
        narrow = {"uqxtn": ("u", "u"), "sqxtn": ("i", "i"), "sqxtun": ("i", "u")}
        long = {"uaddlp": "u", "saddlp": "i"}
        across = {"uaddlv": "u", "saddlv": "i"}
        sign = name[0].replace("s", "i")
        m = re.fullmatch(r"tb([lx])(\d)", name)
        if m and vec(rest[0]):
            return table(int(m[2]), 16, vec(rest[0])[0], names, m[1] == "x")
        m = re.fullmatch(r"st1x(\d)", name)
        if m:
            return "%s.cast::<[%s; %s]>().write_unaligned([%s])" % (names[-1], types[0], m[1], ", ".join(names[:-1]))
        if name == "vsli" and vec(rest[0]):
            n, b = vec(rest[0])
            return arrays(names, ["[u%d; %d]" % (b, n)] * 2) + loop(n, "u%d" % b, "x[i] & ((1u%d << %s) - 1) | y[i] << %s" % (b, names[2], names[2]))
    elif p[:3] == ["llvm", "arm", "neon"]:
        name, rest = p[3], [x for x in p[4:] if x != "p0"]
        ops = {"vabdu": "abd", "vhaddu": "hadd", "vrhaddu": "rhadd", "vhsubu": "hsub", "vabds": "abd", "vhadds": "hadd", "vrhadds": "rhadd", "vhsubs": "hsub"}
        pairs = {"vpadd": ("add", "u"), "vpminu": ("min", "u"), "vpmaxu": ("max", "u"), "vpmins": ("min", "i"), "vpmaxs": ("max", "i")}
        shifts = {"vshiftu": "u", "vshifts": "i"}
        narrow = {"vqmovnu": ("u", "u"), "vqmovns": ("i", "i"), "vqmovnsu": ("i", "u")}
        long = {"vpaddlu": "u", "vpaddls": "i"}
        across = {}
        sign = {"u": "u", "s": "i"}.get(name[-1], "u")
        m = re.fullmatch(r"vtb([lx])(\d)", name)
        if m:
            return table(int(m[2]), 8, 8, names, m[1] == "x")
        if name == "vld1":
            return "{ let _ = %s; %s.cast::<%s>().read_unaligned() }" % (names[1], names[0], ret)
        if name == "vst1":
            return "{ let _ = %s; %s.cast_mut().cast::<%s>().write_unaligned(%s) }" % (names[2], names[0], types[1], names[1])
        m = re.fullmatch(r"vst1x(\d)", name)
        if m:
            return "%s.cast::<[%s; %s]>().write_unaligned([%s])" % (names[0], types[1], m[1], ", ".join(names[1:]))
    else:
        return None
    v = [vec(x) for x in rest]
    if not v or (v[-1] is None):
        return None
    n, b = v[-1]
    if b == 64:
        return None
    if name in ops:
        return elementwise(ops[name], sign, n, b, names)
    if name in pairs:
        return pairwise(pairs[name][0], pairs[name][1], n, b, names)
    if name in shifts:
        return shifted(shifts[name], n, b, names)
    if name in narrow and len(names) == 1:
        return narrowed(narrow[name][0], narrow[name][1], n, b, names)
    if name in long and len(v) == 2 and v[0] and len(names) == 1:
        s = long[name]
        return arrays(names, ["[%s%d; %d]" % (s, b, n)]) + loop(n // 2, "%s%d" % (s, 2 * b), "x[2 * i] as %s%d + x[2 * i + 1] as %s%d" % (s, 2 * b, s, 2 * b))
    if name in across:
        s = across[name]
        w = "%s%s" % (s, rest[0][1:])
        return arrays(names, ["[%s%d; %d]" % (s, b, n)]) + "let mut r: %s = 0; let mut i = 0; while i < %d { r += x[i] as %s; i += 1; } r as _" % (w, n, w)
    return None


def models(text):
    """The source of an architecture's intrinsics with those declared here defined; and how many."""
    count = [0]

    def one(k):
        f = re.search(r"fn (\w+)\s*\((.*?)\)\s*(->\s*[^;]*?)?;", k[1], re.S)
        if not f:
            return k[0]
        names = re.findall(r"(\w+)\s*:", f[2])
        types = [x.strip() for x in re.findall(r":\s*([^,]+)", f[2])]
        for link in re.findall(r'"(llvm\.[^"]+)"', k[1]):
            body = model(link, names, types, (f[3] or "")[2:].strip())
            if body:
                count[0] += 1
                # an intrinsic of both architectures has its name of either
                return "#[inline] unsafe fn %s(%s) %s { %s }" % (f[1], f[2], f[3] or "", body)
        return k[0]

    return re.sub(r'unsafe extern "llvm-intrinsic" \{([^{}]*)\}', one, text), count[0]
