"""C10, C13..C16: ring operations, key switching, conversions, comparison, selection."""
import core, homlib as H
from core import THOROUGH, build, run_sessions
from checks import check, more, seedn
from oramlib import gather


def judge(c, profile, sessions, label, **kw):
    ev = run_sessions(build(profile), "hom", sessions)
    c.traces("HomTrace", ev, H.norm, cmds=sessions, label=label + "-" + profile, **kw)
    return ev


def mutants(c, *names):
    """Mistakes in the computations which the refinement has to reject."""
    for m in names[: more(1, len(names))]:
        c.mc("HomImplMC", "HomImplMC_x_%s.cfg" % m, expect="Refines")


def programs(profile, shapes, num, depth, k0=0, **kw):
    return gather(lambda k, n, t, *par: H.programs(profile, H.new(n=n, t=t, **kw, **(par[0] if par else {})), num, depth, seedn(k0 + k)), shapes)


def dense(n, t, k):
    return {"e": [(k * 7919 + i * 131 + (i * i * k) % 17) % t for i in range(n)]}


@check("C13")
def c13(c):
    c.mc("HomImplMC", "HomImplMC_ring.cfg")
    mutants(c, "sign")
    shapes = [(8, 16), (8, 2), (8, 256), (16, 16), (16, 2), (32, 4), (8, 1 << 12), (8, 16, dict(bl=8, lv=6)), (8, 16, dict(bl=10, lv=4)), (16, 2, dict(bl=15, lv=2)), (64, 8), (8, 2, dict(bl=3, lv=12)), (8, 16, dict(bl=16, lv=1))]
    S = programs("ring", shapes, more(3, 20), more(30, 45))
    judge(c, "dbg", S, "programs")
    # every message shape through every way of encrypting it; monomials divided all the way round
    S = []
    for n, t in ((8, 2), (8, 16), (16, 256), (32, 2), (64, 16), (8, 1 << 16)):
        h = H.new(n=n, t=t, nr=3, ng=1, nl=1)
        s = [h]
        for k in range(3):
            s += [dict(c="enc", d=0, p=dense(n, t, k)), dict(c="enc", d=1, p={"k": t - 1}), dict(c="triv", d=2, p=dense(n, t, k + 9)), dict(c="add", d=0, a=1), dict(c="sub", d=1, a=2), dict(c="fill", d=2, a=0), dict(c="copy", d=1, a=2)]
        for k in list(range(0, 2 * n + 2)) if n <= 16 else (0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n):
            s += [dict(c="mdiv", d=0, k=k)]
        for sg in (1, -1):
            for f in ("std", "buf"):
                s += [dict(c="mulp", d=0, p={"s": [[0, sg]]} if sg > 0 else {"e": [-1] + [0] * (n - 1)}, form=f), dict(c="mulp", d=0, p={"e": [0] * (n - 1) + [sg]}, form=f)]
        # multipliers of one term, of every size, at the ends and in the middle
        for f in ("buf", "std"):
            for k in (0, 1, n // 2, n - 1):
                for v in (1, 2, 3, -2, -3, 5, -7, 16):
                    s += [dict(c="enc", d=0, p=dense(n, t, 3)), dict(c="mulp", d=0, p={"e": [v if i == k else 0 for i in range(n)]}, form=f)]
            for m in ([2] * n, [3, -1] + [0] * (n - 2), [0] * (n - 2) + [2, 2], [-1] * n):
                s += [dict(c="triv", d=1, p=dense(n, t, 4)), dict(c="mulp", d=1, p={"e": m}, form=f), dict(c="enc", d=0, p=dense(n, t, 5)), dict(c="mulp", d=0, p={"e": m}, form=f)]
        for k in range(3):
            s += [dict(c="tern", p={"e": [((i * (k + 1)) % 3) - 1 for i in range(n)]})]
        if t == 2:
            for f in ("std", "buf", "std", "buf"):
                s += [dict(c="not", d=0, a=1, form=f), dict(c="not", d=1, a=1, form=f)]
        # aliases of a selection
        for bit in (0, 1):
            s += [dict(c="genc", g=0, p={"e": [bit] + [0] * (n - 1)})]
            for d in (0, 1, 2):
                for f in ("std", "buf"):
                    s += [dict(c="enc", d=0, p=dense(n, t, 3)), dict(c="enc", d=1, p=dense(n, t, 4)), dict(c="cmux", d=d, g=0, a=0, b=1, form=f), dict(c="ext", d=2, g=0, a=1, form=f)]
        # what is not a message
        for bad in (t, t + 1, "9223372036854775808", "18446744073709551615"):
            s += [dict(c="enc", d=0, p={"e": [0] * (n - 1) + [bad]}), dict(c="enc", d=0, p={"e": [bad] + [1] * (n - 1)})]
        s += [dict(c="tern", p={"e": [2] + [0] * (n - 1)}), dict(c="tern", p={"e": [0] * (n - 1) + [-2]})]
        S.append(s)
    judge(c, "dbg", S, "forms")
    judge(c, "rel", S[:2] + programs("ring", [(8, 16), (16, 2)], more(2, 10), 30, 500), "programs")
    S = [[H.new(n=2048, t=256, nr=3, ng=1, nl=0, showg=False, cost=50), dict(c="enc", d=0, p=dense(2048, 256, 5)), dict(c="enc", d=1, p=dense(2048, 256, 6)), dict(c="genc", g=0, p={"s": [[0, 1]]}),
          dict(c="cmux", d=2, g=0, a=0, b=1, form="buf"), dict(c="sub", d=2, a=1), dict(c="mdiv", d=0, k=2047), dict(c="add", d=2, a=0)]]
    judge(c, "rel", S, "default-parameters")


KS = [dict(kbl=5, klv=11), dict(kbl=16, klv=1), dict(kbl=12, klv=2), dict(kbl=10, klv=3), dict(kbl=8, klv=4), dict(kbl=7, klv=5), dict(kbl=6, klv=6), dict(kbl=5, klv=7), dict(kbl=4, klv=9), dict(kbl=4, klv=10), dict(kbl=3, klv=13), dict(kbl=20, klv=1), dict(kbl=2, klv=20)]


@check("C14")
def c14(c):
    mutants(c, "odd", "level", "trace")
    c.mc("HomImplMC", "HomImplMC_key.cfg")
    c.mc("HomImplMC", "HomImplMC_key3.cfg")
    S = programs("key", [(8, 16, KS[0]), (16, 4, KS[3]), (8, 2, KS[1]), (32, 16, KS[8]), (8, 256, KS[5]), (16, 16, KS[2])], more(2, 15), more(24, 40), show1=True, nr=5, showg=False)
    judge(c, "dbg", S, "programs")
    # every decomposition, every form, every odd substitution index
    S = []
    for j, ks in enumerate(KS):
        for n in (8, 16) if not THOROUGH else (8, 16, 32, 64, 128):
            t = 2 if ks["klv"] < 3 else 16
            s = [H.new(n=n, t=t, nr=3, ng=1, nl=0, show1=True, showg=False, **ks)]
            for f in ("std", "fft", "gsw", "gswbuf"):
                s += [dict(c="enc", d=0, p=dense(n, t, j + 1), key=1), dict(c="ksw", d=1, a=0, form=f), dict(c="triv", d=0, p=dense(n, t, j)), dict(c="ksw", d=2, a=0, form=f)]
            s += [dict(c="enc", d=0, p=dense(n, t, j + 2), key=0)]
            odd = list(range(1, 2 * n, 2))
            odd = odd if (n <= 8 or THOROUGH) else sorted(c.rng.sample(odd, 4)) + [2 * n + 3]
            for k in odd:
                for f in ("std", "fft"):
                    s += [dict(c="subs", d=1, a=0, k=k, form=f)]
            for f in ("std", "fft"):
                s += [dict(c="trace", d=2, a=0, form=f), dict(c="trace", d=1, a=2, form=f)]
            # of a ciphertext without a mask, into one that is in use
            for f in ("std", "fft"):
                s += [dict(c="triv", d=0, p=dense(n, t, j + 3)), dict(c="subs", d=1, a=0, k=odd[j % len(odd)], form=f), dict(c="trace", d=2, a=0, form=f)]
            S.append(s)
    for n in (32, 64, 128, 256):
        t = 16
        s = [H.new(n=n, t=t, nr=3, ng=1, nl=0, showg=False)]
        for f in ("std", "fft"):
            s += [dict(c="enc", d=0, p=dense(n, t, 2)), dict(c="subs", d=1, a=0, k=n + 1, form=f), dict(c="subs", d=1, a=0, k=2 * n - 1, form=f), dict(c="subs", d=1, a=0, k=3, form=f)]
        # N times the constant vanishes modulo t for large N: use a trivial encryption below the encoding's unit instead
        s += [dict(c="trace", d=2, a=0, form="std"), dict(c="trace", d=2, a=0, form="fft")]
        S.append(s)
    for n, t in ((32, 256), (64, 1 << 10), (16, 1 << 8), (128, 1 << 12)):
        s = [H.new(n=n, t=t, nr=3, ng=1, nl=0, showg=False)]
        for k in range(2):
            s += [dict(c="enc", d=0, p=dense(n, t, k + 3))] + [dict(c="trace", d=2, a=0, form=f) for f in ("std", "fft")]
        s += [dict(c="subs", d=1, a=0, k=2, form="std"), dict(c="subs", d=1, a=0, k=4, form="fft")]
        S.append(s)
    judge(c, "dbg", S, "decompositions")
    judge(c, "rel", S[1::5], "decompositions")


@check("C15")
def c15(c):
    mutants(c, "extract", "order")
    c.mc("HomImplMC", "HomImplMC_conv.cfg")
    S = programs("conv", [(8, 16), (16, 4), (8, 2), (8, 16, dict(bl=8, lv=6, nbl=6, nlv=8)), (16, 2, dict(bl=10, lv=3, kbl=7, klv=5))], more(2, 15), more(24, 40))
    judge(c, "dbg", S, "programs")
    S = []
    for n, t in ((8, 16), (16, 256), (32, 4), (64, 2), (8, 1 << 16)) + (((128, 16), (256, 4)) if THOROUGH else ()):
        s = [H.new(n=n, t=t, nr=2, ng=1, nl=2, showg=False)]
        for k in range(2):
            s += [dict(c="enc", d=0, p=dense(n, t, k + 1))] + [dict(c="sext", l=0, a=0, k=i) for i in range(n)] + [dict(c="sext", l=1, a=0, form="const")]
        for i in sorted({0, 1, n // 2, n - 1} | {c.rng.randrange(n) for _ in range(3)}):
            s += [dict(c="sext", l=0, a=0, k=i), dict(c="lconv", d=1, l=0), dict(c="sext", l=1, a=1, k=c.rng.randrange(n))]
        for v in (0, 1, t - 1, t // 2):
            s += [dict(c="lenc", l=1, k=v), dict(c="lconv", d=1, l=1)]
        # of ciphertexts without a mask too
        s += [dict(c="triv", d=0, p=dense(n, t, 3))] + [x for i in range(n) for x in (dict(c="sext", l=0, a=0, k=i), dict(c="lconv", d=1, l=0))]
        s += [dict(c="lenc", l=1, k=t), dict(c="lenc", l=1, k=t + 1), dict(c="lclear", l=1), dict(c="lconv", d=1, l=1)]
        S.append(s)
    D = [dict(bl=5, lv=9), dict(bl=15, lv=1), dict(bl=8, lv=2), dict(bl=7, lv=3), dict(bl=6, lv=4), dict(bl=8, lv=5), dict(bl=5, lv=6), dict(bl=6, lv=7), dict(bl=10, lv=4)]
    for j, d in enumerate(D):
        for n, ks in ((8, dict(kbl=5, klv=11)), (16, dict(kbl=6, klv=8)), (32, dict(kbl=4, klv=13, nbl=6, nlv=8))) if j < 5 or THOROUGH else ((8, dict(kbl=7, klv=7)),):
            t = 2 if d["lv"] < 3 else 16
            s = [H.new(n=n, t=t, nr=2, ng=1, nl=1, **d, **ks), dict(c="enc", d=0, p=dense(n, t, j + 2))]
            for f in ("std", "fft", "slow", "dec"):
                for bit in (0, 1):
                    s += [dict(c="expand", g=0, bit=bit, form=f), dict(c="clear", d=1), dict(c="ext", d=1, g=0, a=0, form="buf")]
            s += [dict(c="expand", g=0, bit=2, form=f) for f in ("std", "fft", "slow")]
            S.append(s)
    judge(c, "dbg", S, "conversions")
    judge(c, "rel", S[::6], "conversions")


@check("C16")
def c16(c):
    mutants(c, "leq")
    c.mc("HomImplMC", "HomImplMC_cmp.cfg")
    S = []
    def session(n, t, ms, ds, **kw):
        s = [H.new(n=n, t=t, nr=1, ng=0, nl=0, showg=False, **kw)]
        for m in ms:
            for d in ds:
                for op in ("leq", "eq"):
                    s += [dict(c="triv" if (m + d) % 5 == 4 else "enc", d=0, p={"s": [[m, 1]]}), dict(c=op, d=0, k=d)]
        for bad in (n, n + 1, 2 * n, 1 << 40):
            s += [dict(c="enc", d=0, p={"s": [[0, 1]]}), dict(c="leq", d=0, k=bad), dict(c="eq", d=0, k=bad)]
        return s
    for n, t in ((8, 2), (8, 16), (16, 2), (16, 256)):
        for part in range(0, n, 4):
            S.append(session(n, t, range(part, part + 4), range(n)))
    for n, t in ((32, 16), (64, 2), (128, 16)):
        ms = sorted({0, 1, n // 2, n - 1} | {c.rng.randrange(n) for _ in range(more(2, 20))})
        for m in ms:
            ds = sorted({x for x in (0, 1, m - 1, m, m + 1, n - 2, n - 1) if 0 <= x < n} | {c.rng.randrange(n) for _ in range(more(2, 20))})
            S.append(session(n, t, [m], ds))
    judge(c, "dbg", S, "pairs")
    n = 2048
    S = [session(n, 256, [m], sorted({x for x in (0, m - 1, m, m + 1, n - 1) if 0 <= x < n}), cost=5) for m in (0, 1, 1023, 2047) + ((1024, 777, 2046) if THOROUGH else ())]
    judge(c, "rel", S, "default-parameters")


@check("C10")
def c10(c):
    c.loop("DemuxLoop")
    c.mc("DemuxMC", "DemuxMC.cfg")
    S = []
    for n, t, par in ((8, 16, {}), (8, 2, {}), (16, 256, {}), (8, 16, dict(bl=8, lv=6)), (16, 2, dict(bl=15, lv=3))):
        # every mixture of up to four selection bits; every index of every width
        s = [H.new(n=n, t=t, nr=2, ng=0, nl=0, showg=False, **par), dict(c="enc", d=0, p=dense(n, t, 3)), dict(c="triv", d=1, p=dense(n, t, 5))]
        for w in range(1, more(4, 5)):
            for x in range(2 ** w):
                bits = [(x >> i) & 1 for i in range(w)]
                s += [dict(c="demux", a=x % 2, bits=bits, form="with"), dict(c="demux", bits=bits, form="unit")]
        S.append(s)
        s = [s[0], s[1], s[2]]
        for width in (2, 4, 8, 16) + ((32, 64) if THOROUGH else ()):
            for i in range(width):
                s += [dict(c="demux", a=i % 2, k=i, width=width, form="with" if i % 3 else "unit")]
        S.append(s)
    for n, t in ((8, 16), (16, 2)):
        s = [H.new(n=n, t=t, nr=1, ng=0, nl=0, showg=False), dict(c="enc", d=0, p=dense(n, t, 3))]
        for width in (32, 64, 128, 256):
            for i in sorted({0, 1, width - 1, width // 2, width // 2 - 1, c.rng.randrange(width), c.rng.randrange(width)}):
                s += [dict(c="demux", a=0, k=i, width=width, form="with" if i % 2 else "unit")]
        # widths which are not powers of two use the next lower one
        for width in (3, 5, 6, 7, 9, 12, 15, 17, 33):
            s += [dict(c="demux", a=0, k=c.rng.randrange(2 ** (width.bit_length() - 1)), width=width, form="with")]
        S.append(s)
    # wide selections: each takes one request of many outputs
    for n, t in ((8, 2), (8, 16)):
        s = [H.new(n=n, t=t, nr=1, ng=0, nl=0, showg=False), dict(c="enc", d=0, p=dense(n, t, 3))]
        for width in (512, 1024, 2048, 4096) + ((8192, 16384) if THOROUGH else ()):
            for i in sorted({1, width - 1, width // 2, c.rng.randrange(256, width)}) if width < 2048 or THOROUGH else (c.rng.randrange(width // 2, width),):
                s += [dict(c="demux", a=0, k=i, width=width, form="with" if t == 16 else "unit")]
        S.append(s)
    if THOROUGH:
        S.append([H.new(n=8, t=2, nr=1, ng=0, nl=0, showg=False), dict(c="enc", d=0, p=dense(8, 2, 3))] + [dict(c="demux", a=0, k=k, width=1 << 17, form="unit") for k in (65536 + 77, (1 << 17) - 1)])
    judge(c, "dbg", S, "demux")
    judge(c, "rel", S[1::4], "demux")
