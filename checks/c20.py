"""Configuration files and command lines say what they are read as."""
from vlib import *

codes = lambda s: [len(s.encode()), *s.encode()]


def number(rng, ty):
    if ty in "iIlWqQ":
        return str(rng.choice((0, 1, -1, rng.randint(-9999, 9999), rng.randint(-2000000, 2000000))))
    if ty in "uUV":
        return str(rng.choice((0, rng.randint(0, 2000000))))
    m = str(rng.randint(0, 9999))
    if rng.random() < .6:
        m += "." + str(rng.randint(0, 999))[:rng.randint(1, 3)]
    if rng.random() < .3 and len(m) < 4:
        m += "e" + rng.choice(("", "+")) + str(rng.randint(0, 3))
    elif rng.random() < .2 and "." not in m:
        m += "e-" + str(rng.randint(1, 3))
    return rng.choice(("", "", "-")) + m


def text(rng):
    return "".join(rng.choice("abcXYZ019_./-") for _ in range(rng.randint(1, 9)))


def file(rng):
    dv, cm = rng.choice(("=#", "=#", "=#", ":;", ">%", "=;"))
    keys = list({text(rng).replace("-", "k").lstrip("0123456789./") or "q" for _ in range(rng.randint(1, 6))})
    keys += [keys[0] + "x", keys[0][:1] or "q"]
    ty, out = {}, []
    ws = lambda: rng.choice(("", "", " ", "  ", "\t", " \t"))
    for _ in range(rng.randint(0, 14)):
        r = rng.random()
        if r < .15:
            out.append(ws() + cm + ws() + rng.choice(("", "note", "a" + dv + "1", keys[0] + dv + "7", "a b c", cm)))
        elif r < .25:
            out.append(ws())
        else:
            k = rng.choice(keys)
            t = ty.setdefault(k, rng.choice("siludfL"))
            v = text(rng) + rng.choice(("", "", dv + text(rng), cm + "1")) if t == "s" else number(rng, t)
            if t == "s" and rng.random() < .2:
                v = v[:2] + " " + v[2:]
            out.append(ws() + k + ws() + dv + ws() + v + ws())
    eol = rng.choice(("\n", "\n", "\r\n"))
    body = eol.join(out) + rng.choice(("", eol, eol + eol))
    how = 0 if (dv, cm) == ("=", "#") and rng.random() < .6 else rng.choice((1, 2, 1, 2, 1, 2, 3))
    gets = []
    for k in rng.sample(keys, len(keys)):
        gets += [ty.get(k, "s"), *codes(k)]
    return ["F", ord(dv), ord(cm), how, *codes(body), len(keys), *gets]


def command(rng):
    decl = rng.randint(1, 4)
    argc = decl if rng.random() < .8 else rng.randint(0, 6)
    tys = [rng.choice("sciluUdfLqSDFIWQVEo") for _ in range(decl)]
    args = [text(rng) if i >= decl or tys[i] in "scSo" else number(rng, tys[i]) for i in range(argc)]
    return ["C", decl, argc, *[x for a in args for x in codes(a)], *tys]


def check(c):
    exe = c.build("c20_config.cpp", flags=["-O1"])
    f = os.path.join(c.scratch, "in.txt")
    sc = [file(c.rng) if k % 3 else command(c.rng) for k in range(c.pick(900, 12000))]
    with open(f, "w") as o:
        for s in sc:
            print(*s, file=o)
    tr = lines(c.run(exe, [f, c.scratch], what="configuration", timeout=600))
    if len(tr) != len(sc):
        raise Violation("missing programs", dict(got=len(tr), want=len(sc)))
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(lambda: c.model("ConfigTextMC", workers=3))
        c.validate("ConfigTextTrace", tr, par=5)
        fut.result()
