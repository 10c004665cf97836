"""Normalisation for the encoding, noise, placement and seeding trace specifications."""
BIG = 1 << 30
M64 = (1 << 64) - 1


def limbs(x):
    x = int(x) & M64
    return [(x >> (16 * k)) & 0xFFFF for k in range(4)]


def norm(e):
    r = dict(ev=e["ev"], out=e["out"], form=e.get("form", "raw"), tern=bool(e.get("tern", False)), kept=bool(e.get("kept", False)), none=bool(e.get("none", False)))
    r["tl"] = limbs(e["t"]) if e["ev"] == "codec" else [1, 0, 0, 0]
    r["b"] = (int(e["t"]).bit_length() - 1) if e["ev"] == "noisectx" else 1
    for k in ("margin", "modulus", "xl", "ys", "ps", "ml", "el", "enc", "pl", "ph", "pow", "rows"):
        r[k] = e.get(k, [])
    r["bits"] = e.get("bits", 0)
    r["bl"] = e.get("bl", 1) if e["ev"] == "gswnoise" else 1
    return r


def pnorm(e):
    r = dict(ev=e["ev"], out=e["out"])
    r["h"], r["dom"], r["d"] = e.get("h", 1), e.get("dom", 0), e.get("d", 1)
    for k in ("raw", "named", "checked", "counts", "tab"):
        r[k] = e.get(k, [])
    r["maps"] = e.get("maps", [])
    return r


PKEYS = ("c", "n", "t", "std", "bl", "lv", "kbl", "klv", "nbl", "nlv", "rows", "cols")


def snorm(e):
    r = dict(ev=e["ev"], out=e.get("out", "ok"), x=e.get("x", 0), f=e.get("f", ""), v=e.get("v", 0), secure=bool(e.get("secure", True)))
    if e["ev"] == "rush":
        r["v"], e = e["k"] * e["each"], dict(e, c="ctx")
    r["par"] = " ".join(str(e.get(k, "")) for k in PKEYS)
    r["near"], r["proc"] = e.get("near", ""), e.get("proc", 0)
    r["key"], r["masks"], r["parts"], r["all"] = e.get("key", []), e.get("masks", []), e.get("parts", []), e.get("all", "")
    return r
