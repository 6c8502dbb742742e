"""C23 wavelength colours."""
from vf import core
from vf.api import harness, meta
from vf.core import Unsupported
from props.common import *
import pvtrace.light.utils as lu

U = "pvtrace.light.utils."
meta("C23", assumptions=["the wavelength is a finite number, taken in whole nanometres (truncated)", "the packed form is given three integers"])


def valid(ctx, c, name="component"):
    ctx.check("three components", len(c) == 3)
    for x in c:
        ctx.check("an integer", isinstance(x, int) or isinstance(x, core.SInt))
        ctx.check("between 0 and 255", ctx.and_(x >= 0, x <= 255))


def nm(ctx):
    return ctx.real("nm", lo=-100, hi=1500, special=(379.999, 380, 419, 420, 439.5, 440, 490, 510, 580, 645, 700, 701, 780, 780.5, 781, 0, -1))


@harness("C23", [U + "wavelength_to_rgb"], conc=4000)
def colour(ctx):
    """every finite wavelength: three integers in 0..255, black exactly outside 380..780"""
    w = ctx.real("nm") if ctx.sym else nm(ctx)
    c = lu.wavelength_to_rgb(w)
    valid(ctx, c)
    black = ctx.and_(*[ctx.eq(x, 0) for x in c]) if ctx.sym else all(x == 0 for x in c)
    outside = ctx.or_(w < 380, w >= 781)
    if bool(outside):
        ctx.check("black outside the visible band", black)
        ctx.cover("outside")
    else:
        ctx.check("a colour inside it", ctx.not_(black))
        ctx.cover("inside")


@harness("C23", [U + "wavelength_to_rgb"], conc=1, note="machine arithmetic: every whole nanometre", executed=True, bound="whole nanometres from -10 to 1500 (the result depends on the whole part only)")
def colour_exact(ctx):
    """the same in machine arithmetic, for each whole nanometre"""
    for w in range(-10, 1501):
        for x in (w, float(w), w + 0.5) if w >= 0 else (w, float(w)):
            c = lu.wavelength_to_rgb(x)
            ctx.check(f"valid at {x}", len(c) == 3 and all(isinstance(k, int) and 0 <= k <= 255 for k in c))
            ctx.check(f"black exactly outside at {x}", (tuple(c) == (0, 0, 0)) == (not 380 <= w <= 780))


class Text:
    """formatting and reading back of symbolic integers: decimal, or hexadecimal with a width"""

    def __init__(self, ctx):
        self.ctx, self.vals = ctx, []

    def fmt(self, v, spec):
        if spec not in ("02x", "02X"):
            raise Unsupported(f"format {spec!r}")
        self.vals.append(v)
        return f"<{len(self.vals) - 1}>"

    def read(self, s, base=10):
        import re
        if not isinstance(s, str):
            raise Unsupported("int of another form")
        m = re.fullmatch(r"(0x|0X|#)?((?:<\d+>|[0-9a-fA-F])*)", s)
        if not m or not ((base == 0 and m.group(1) in ("0x", "0X")) or (base == 16 and m.group(1) != "#")):
            raise Unsupported(f"int({s!r}, {base})")
        out = 0
        for t in re.findall(r"<\d+>|[0-9a-fA-F]", m.group(2)):
            if t[0] == "<":
                v = self.vals[int(t[1:-1])]
                # two digits exactly for 0..255
                self.ctx.check("two hexadecimal digits", self.ctx.and_(v >= 0, v <= 255))
                self.ctx.assume(self.ctx.and_(v >= 0, v <= 255))
                out = out * 256 + v
            else:
                out = out * 16 + int(t, 16)
        return out


def clamp(ctx, v):
    return ctx.ite(v < 0, 0, ctx.ite(v > 255, 255, v)) if ctx.sym else max(0, min(255, v))


def packed(ctx, got, rgb):
    r, g, b = (clamp(ctx, v) for v in rgb)
    ctx.check("red * 65536 + green * 256 + blue", ctx.eq(got, r * 65536 + g * 256 + b) if ctx.sym else got == r * 65536 + g * 256 + b)


def textual(ctx):
    if ctx.sym:
        t = Text(ctx)
        core.INT_FORMAT = t.fmt
        from vf import shim
        real = shim.SymInt
        ctx.stub(lu, "int", lambda x=0, *a: t.read(x, *a) if isinstance(x, str) else real(x, *a))


@harness("C23", [U + "rgb_to_hex_int"], conc=2000, params=["tuple", "list"])
def pack(ctx, form):
    """any three integers: components clamped to 0..255, then packed"""
    rgb = tuple(ctx.int(k, lo=None if ctx.sym else -300, hi=None if ctx.sym else 700) for k in "rgb")
    if not ctx.sym:
        rgb = tuple(ctx.choose(k + "'", [v, v, 0, 1, 15, 16, 255, 256, -1]) for k, v in zip("rgb", rgb))
    textual(ctx)
    try:
        got = lu.rgb_to_hex_int(rgb if form == "tuple" else list(rgb))
    finally:
        core.INT_FORMAT = None
    ctx.cover("packed")
    packed(ctx, got, rgb)


@harness("C23", [U + "wavelength_to_hex_int"], conc=1500)
def hex_of_wavelength(ctx):
    """the packed colour of a wavelength is that of its components"""
    w = ctx.real("nm") if ctx.sym else nm(ctx)
    textual(ctx)
    try:
        got = lu.wavelength_to_hex_int(w)
    finally:
        core.INT_FORMAT = None
    packed(ctx, got, lu.wavelength_to_rgb(w))
    ctx.check("a 24 bit colour", ctx.and_(got >= 0, got <= 0xFFFFFF))
