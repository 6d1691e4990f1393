import itertools, json, math, os
import vf

MC = "model_checking"
CHECKS = {}
def check(prop):
    def deco(f): CHECKS[prop] = (f, MC); return f
    return deco

# ---------------------------------------------------------------- angular grids
def catalogue(c):
    """The catalogue, written by TLC from spec/Catalogue.tla."""
    f = c.path("catalogue.json")
    if not os.path.exists(f): c.tlc("GenCatalogue", {"VF_OUT": f}, count=False)
    return {r["fam"]: [(o, n) for o, n in r["table"]] for r in c.load(f)}

def grid_plan(c):
    cat = catalogue(c)
    return c.write("plan.txt", "".join("%s %d\n" % (f, n) for f in cat for o, n in cat[f]))

def record_grids(c):
    exe = c.cxx("angular")
    d = c.dir("grids")
    c.run(exe, "grids", d, grid_plan(c))
    idx = c.load(os.path.join(d, "index.json"))
    c.traces += len(idx)
    return d, idx

def triples(c, k):
    """Directions: integer triples mapped to rational unit vectors by the specification."""
    out = []
    while len(out) < k:
        t = [c.rng.randrange(1000, 9999) * c.rng.choice((-1, 1)) for _ in range(3)]
        if t not in out: out.append(t)
    return out

def known(c):
    f = os.path.join(vf.VERIF, "known", c.prop + ".json")
    if os.path.exists(f): return f
    return c.write("known.json", [])

@check("P01")
def p01(c):
    d, idx = record_grids(c)
    n = 1 if c.quick else 8
    dirs = triples(c, n)
    r = c.tlc("AngularExact", {"VF_DIR": d, "VF_DIRS": c.write("dirs.json", dirs), "VF_KNOWN": known(c)}, xmx="14g",
              timeout=840 if c.quick else 3400)
    c.samples += [dict(grid=i["file"], order=i["order"]) for i in idx[:3]] + [dict(directions=dirs)]
    c.assumptions += ["A non-zero spherical harmonic moment shows in the sampled directions (it vanishes only on a null set of directions)",
                      "1e-11 absolute is 'near machine precision' for grids of up to 15012 points"]

def scan(c):
    exe = c.cxx("angular")
    f = c.path("scan.json"); c.run(exe, "scan", f); c.traces += 4
    return f

@check("P03")
def p03(c):
    r = c.tlc("AngularLookup", {"VF_LOG": scan(c)})
    c.samples += [dict(family=f, arguments="orders -600..3000, sizes -600..40000, 9 values beyond 32 bits") for f in ("AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley")]
    c.extra["exhaustive"] = True

@check("P02")
def p02(c):
    d, idx = record_grids(c)
    c.tlc("AngularShape", {"VF_DIR": d}, xmx="14g")
    c.samples += [dict(grid=i["file"], n=i["n"]) for i in idx[:4]]
    c.extra["exhaustive"] = True

# ------------------------------------------------------------ one-dimensional rules
def hexf(x): return float(x).hex()
def f32(x):
    import struct as s; return s.unpack('f', s.pack('f', x))[0]

def onedim(c, kinds, nlo, nhi, full, picks, construct=(), traps=(), sums=(), bits=52, defs=(), env=None):
    """Record the rules of `kinds`: in full for n in nlo..nhi and `full`, at a few nodes
    for n in `picks`; then validate the log."""
    L = []
    for k in kinds:
        for n in list(range(nlo, nhi + 1)) + [n for n in full if n > nhi]: L.append("rule %s %d full" % (k, n))
        for n in picks:
            ix = sorted({1, 2, n // 2, n // 2 + 1, n - 1, n, c.rng.randrange(1, n + 1), c.rng.randrange(1, n + 1)})
            L.append("rule %s %d pick %s" % (k, n, " ".join(str(i) for i in ix if 1 <= i <= n)))
    for k, lo, hi in construct: L.append("construct %s %d %d" % (k, lo, hi))
    for k, lo, hi in sums: L.append("moments %s %d %d" % (k, lo, hi))
    for n, lo, up in traps: L.append("trap %d %s %s" % (n, hexf(lo), hexf(up)))
    # spread expensive jobs over the lanes
    L.sort(key=lambda l: -int(l.split()[2]) if l.startswith("rule") else 0)
    plan = c.write("plan.txt", "\n".join(L) + "\n")
    exe = c.cxx("radial", defs=defs, out="radial" + "".join(defs))
    log = c.path("log.json"); c.run(exe, plan, log)
    c.traces += len(L)
    ks = list(kinds) + ["-"] * (3 - len(kinds))
    c.tlc("OneDim", {"VF_LOG": log, "VF_BITS": bits, "VF_KIND1": ks[0], "VF_KIND2": ks[1], "VF_KIND3": ks[2], "VF_NLO": nlo, "VF_NHI": nhi}, xmx="10g",
          timeout=840 if c.quick else 3400)
    c.samples += [dict(request=l) for l in c.rng.sample(L, min(6, len(L)))]

def some(c, lo, hi, k): return sorted(c.rng.sample(range(lo, hi + 1), k))

@check("P05")
def p05(c):
    q = c.quick
    onedim(c, ["gl"], 1, 128 if q else 300, [200, 255, 256, 257] if q else [400, 500, 511, 512, 513, 750, 1000],
           [n for n in range(129 if q else 301, 1101, 3 if q else 1)] + some(c, 1100, 3000, 8 if q else 60) + some(c, 3001, 20000, 2 if q else 12), construct=[("gl", 1, 2000 if q else 4000)], sums=[("gl", 1, 1200 if q else 2500)])

@check("P06")
def p06(c):
    q = c.quick
    onedim(c, ["lobatto"], 2, 128 if q else 300, [200, 255, 256, 257] if q else [400, 500, 511, 512, 513, 750, 1000],
           [n for n in range(129 if q else 301, 1101, 3 if q else 1)] + some(c, 1100, 3000, 8 if q else 60) + some(c, 3001, 4000, 2 if q else 12), construct=[("lobatto", 2, 1200 if q else 2500)], sums=[("lobatto", 2, 1100 if q else 2500)])

@check("P07")
def p07(c):
    q = c.quick
    K = ["gc1", "gc2", "gc3"]
    onedim(c, K, 1, 128 if q else 300, [200, 255, 256, 257] if q else [400, 512, 1000],
           [n for n in range(129 if q else 301, 1101, 5 if q else 1)] + some(c, 1100, 3000, 8 if q else 60) + [4096, 46342, 65537] + some(c, 3001, 40000, 2 if q else 20), construct=[(k, 1, 3000 if q else 5000) for k in K], sums=[(k, 1, 1000 if q else 2500) for k in K])

@check("P08")
def p08(c):
    q = c.quick
    r = c.rng
    tr = [(n, 0., 1.) for n in range(2, 60)] + [(n, -1., 1.) for n in range(2, 30)]
    for i in range(150 if q else 1500):
        lo = r.uniform(-100, 100) * 10 ** r.randrange(-6, 4); up = lo + abs(r.gauss(0, 1)) * 10 ** r.randrange(-2, 5) * max(1, abs(lo)) + 1e-3 * max(1, abs(lo))
        tr.append((r.randrange(2, 200) if i > 5 else r.choice([1000, 1023, 1024, 1025, 2049, 4097]), lo, up))
    onedim(c, ["gc2m"], 1, 128 if q else 300, [199, 200, 1000],
           [n for n in range(129 if q else 301, 1101, 3 if q else 1)] + some(c, 1100, 2000, 14 if q else 120), construct=[("gc2m", 1, 2000)], traps=tr, sums=[("gc2m", 1, 2000)])

# ------------------------------------------------------------------- radial grids
SCHEMES = ["becke", "mk", "mhl", "ta"]
def radial(c, L, cfg, bits=52, defs=()):
    plan = c.write("plan.txt", "\n".join(L) + "\n")
    exe = c.cxx("radial", defs=defs, out="radial" + "".join(defs))
    log = c.path("log.json"); c.run(exe, plan, log)
    c.traces += len(L)
    c.tlc("RadialMap", {"VF_LOG": log, "VF_BITS": bits}, cfg=cfg, xmx="8g", timeout=840 if c.quick else 3400)
    c.samples += [dict(request=l) for l in c.rng.sample(L, min(6, len(L)))]

def rscale(c, wide=True):
    x = c.rng.random()
    return c.rng.choice([1.0, 2.0, 0.5, 1.5, 7.0, 5.0]) if x < .4 else 10 ** c.rng.uniform(-3, 3) if x < .8 or not wide else 10 ** c.rng.uniform(-40, 40)
def xrscale(c): return 10 ** c.rng.uniform(-150, 150) if c.rng.random() < .2 else rscale(c)
def ralpha(c): return c.rng.choice([0.0, 0.6, 1.0, 0.5]) if c.rng.random() < .5 else c.rng.uniform(0, 2) if c.rng.random() < .7 else c.rng.uniform(-.5, 8)

def map_plan(c, ns):
    L = []
    for n in ns:
        for s in SCHEMES:
            L.append("grid %s %d 1.0 %s args" % (s, n, hexf(0.6)))
            L.append("grid %s %d %s %s %s" % (s, n, hexf(xrscale(c)), hexf(ralpha(c)), c.rng.choice(["args", "traits", "base"])))
        # other orders of the MHL map, and maps over another rule
        for s in ("mhl1", "mhl3", "mhl4", "mhl5", "beckeT", "taT"): L.append("grid %s %d %s %s %s" % (s, n, hexf(xrscale(c)), hexf(ralpha(c)), c.rng.choice(["args", "traits"])))
    return L

@check("P09")
def p09(c):
    ns = list(range(1, 41)) + [50, 64, 75, 99, 100] if c.quick else list(range(1, 151)) + [200, 250, 300, 500]
    L = map_plan(c, ns)
    for i in range(240 if c.quick else 2400):                      # larger grids at a few nodes
        n = c.rng.randrange(41, 400) if c.rng.random() < .6 else c.rng.choice([127, 128, 129, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]) if c.rng.random() < .4 else c.rng.randrange(400, 2500)
        if i < 24: n = c.rng.choice([4096, 8191, 16384, 32768, 46342, 65535, 65536, 65537, 70001])
        ix = sorted({1, 2, n // 2, n // 2 + 1, n - 1, n, *(c.rng.randrange(1, n + 1) for _ in range(3))})
        L.append("pgrid %s %d %s %s %s %s" % (SCHEMES[i % 4], n, hexf(xrscale(c)), hexf(ralpha(c)), c.rng.choice(["args", "traits", "base"]), " ".join(map(str, ix))))
    radial(c, L, "RadialMap")

@check("P10")
def p10(c):
    L = []
    q = c.quick
    for n in (list(range(1, 61)) + [75, 100, 128, 150, 200] if q else range(1, 301)):
        for s in SCHEMES:
            L.append("scale %s %d %s %s %s" % (s, n, hexf(xrscale(c)), hexf(c.rng.choice([2.0, 0.25, 3.0, 10 ** c.rng.uniform(-2, 2), 10 ** c.rng.uniform(-2, 2), 10 ** c.rng.uniform(-60, 60)])), hexf(ralpha(c))))
            L.append("same %s %d 1.0 %s args short" % (s, n, hexf(0.6)))
            R, a = hexf(xrscale(c)), hexf(ralpha(c))
            L.append("same %s %d %s %s args base" % (s, n, R, a))
            L.append("same %s %d %s %s args traits" % (s, n, R, a))
            if s == "ta": L.append("same %s %d %s %s args shorter" % (s, n, R, hexf(0.6)))
    for n in (list(range(61, 1000, 7)) + [1500, 2000, 3000, 8192, 32768, 65537] if q else [*range(61, 5000), 8192, 16384, 32767, 32768, 46341, 65535, 65536, 65537, 70000]):
        for s in SCHEMES: L.append("big %s %d %s %s" % (s, n, hexf(xrscale(c)), hexf(ralpha(c))))
    radial(c, L, "RadialShape")

@check("P11")
def p11(c):
    L = []
    r = c.rng
    pts = sorted([0.0, 0.5, -0.5, 0.999999, -0.999999, 1e-9, -1e-9] + [x for k in range(1, 30) for x in (1 - 2.0 ** -k, -1 + 2.0 ** -k)])
    iv = [(0., 1.), (-1., 1.), (0., 5.), (-3., -1.), (-1e6, 1e6), (1e-3, 2e-3), (1000., 1001.), (-1e35, 1e35), (0., 1e100), (-3e200, -1e200), (1e-200, 3e-200), (-1e-250, 1e-250), (-1., 1e31), (-1e31, 1.), (2.0**53, 2.0**54), (-1.7e308, 1.7e308), (1e308, 1.7e308), (-1.6e308, -1e308), (-1.79e308, 1e300), (-9e307, 1.7e308)]
    iv += [(a, float("inf")) for a in (0., 1., -1., 100., -250.5, 1e18, -1e31, 1e100, 1e-100)] + [(float("-inf"), a) for a in (0., 1., -1., 100., -250.5, -1e18, 1e31, -1e100, 1e-100)] + [(float("-inf"), float("inf"))]
    for k in range(40 if c.quick else 400):
        a = r.uniform(-1, 1) * 10 ** r.randrange(-3, 5); b = a + 10 ** r.uniform(-2, 4) * max(1, abs(a))
        iv += [(a, b), (a, float("inf")), (float("-inf"), b), (float("-inf"), float("inf"))]
    for lo, up in iv:
        for t in sorted(pts + [r.uniform(-1, 1) for _ in range(12)]):
            L.append("bt %s %s %s %s" % (lo if lo == float("-inf") else hexf(lo), up if up == float("inf") else hexf(up), hexf(t), hexf(r.uniform(0.01, 3 if abs(up - lo) < 1e308 else .5 if math.isfinite(max(abs(lo), abs(up))) else 3))))
    radial(c, L, "BoundTransform")

# ----------------------------------------------------------- composite structure
def gen(c, module, cfg=None, env=None):
    """Test cases printed by TLC ("@" + JSON) while it explores `module`."""
    r = c.tlc(module, env, cfg=cfg)
    out = []
    for l in r["out"].splitlines():
        if l.startswith('"@'): out.append(json.loads(json.loads(l)[1:]))
    if not out: raise vf.Broken("no cases from " + module)
    return out

def case_line(t):
    L = [*t["c"], len(t["rad"])] + [x for p in t["rad"] for x in p] + [len(t["regions"])]
    for b, e, a in t["regions"]: L += [b, e, len(a)] + [x for p in a for x in p]
    return " ".join(map(str, L))

def random_case(c, nmax, kmax, amax, small=False):
    """A construction of the same machine with bigger rules (integers of bounded size)."""
    r = c.rng; n = r.randrange(1, nmax + 1); k = min(n, r.randrange(1, kmax + 1))
    lim = 6 if small else 30
    rad = [[r.randrange(1, lim), r.randrange(1, lim)] for _ in range(n)]
    cuts = [0] + sorted(r.sample(range(1, n), k - 1)) + [n]
    regs = []
    for i in range(k):
        m = r.randrange(1, amax + 1)
        regs.append([cuts[i], cuts[i + 1], [[r.randrange(-lim, lim + 1) for _ in range(3)] + [r.randrange(-9, lim) or 1] for _ in range(m)]])
    return dict(c=centre(r, lambda: r.randrange(-lim, lim + 1), 1), rad=rad, regions=regs)

def centre(r, val, one):
    """A centre: any, or with zero, equal or opposite coordinates."""
    x = r.random(); v = val()
    if x < .4: return [val() for _ in range(3)]
    if x < .7:
        k = r.randrange(1, 7); return [val() or one if k >> i & 1 else 0 * one for i in range(3)]
    if x < .8: return [v, v, v]
    if x < .9: t = [v, -v, r.choice([0 * one, v, val()])]; r.shuffle(t); return t
    return [0 * one] * 3

def big_cases(c):
    """A few constructions of realistic size: many angular points, many radial points, many regions."""
    r = c.rng; W = lambda: r.randrange(1, 30)
    A = lambda m: [[r.randrange(-30, 31) for _ in range(3)] + [W()] for _ in range(m)]
    rad = lambda n: [[W(), W()] for _ in range(n)]
    cen = lambda: [r.randrange(-30, 31) for _ in range(3)]
    out = [dict(c=cen(), rad=rad(2), regions=[[0, 2, A(9001)]]), dict(c=cen(), rad=rad(3000), regions=[[0, 3000, A(5)]]),
           dict(c=cen(), rad=rad(3), regions=[[0, 1, A(6000)], [1, 2, A(3)], [2, 3, A(5810)]]),
           dict(c=cen(), rad=rad(1400), regions=[[0, 600, A(4)], [600, 601, A(50)], [601, 1400, A(5)]]),
           dict(c=cen(), rad=rad(90), regions=[[k, k + 1, A(1 + k % 3)] for k in range(90)]),
           dict(c=cen(), rad=rad(70001), regions=[[0, 70001, A(2)]]), dict(c=cen(), rad=rad(2), regions=[[0, 2, A(66000)]]),
           dict(c=cen(), rad=rad(70000), regions=[[0, 35000, A(1)], [35000, 35001, A(2)], [35001, 70000, A(2)]])]
    for k in (28, 70, 300):
        cuts = [0]
        for _ in range(k): cuts.append(cuts[-1] + r.randrange(1, 5))
        out.append(dict(c=cen(), rad=rad(cuts[-1]), regions=[[x, y, A(r.randrange(1, 4))] for x, y in zip(cuts, cuts[1:])]))
    for t in out: t["big"] = True
    return out

def struct(c, tests, exe=None):
    plan = c.write("cases.txt", "".join(case_line(t) + "\n" for t in tests))
    exe = exe or c.cxx("struct")
    log = c.path("cases.json"); c.run(exe, "cases", plan, log)
    c.tlc("CompositeTrace", {"VF_LOG": log}, xmx="10g")
    c.traces += sum(len(x["outs"]) for x in c.load(log))
    c.samples += [dict(radial=t["rad"][:4], regions=[[b, e, len(a)] for b, e, a in t["regions"]], centre=t["c"]) for t in c.rng.sample(tests, min(4, len(tests)))]
    return exe

def real_grids(c, exe, kind, count, bits=52):
    cat = catalogue(c); L = []
    for i in range(count):
        big = i >= count - 4                                       # a few with the biggest angular rules, or many radial points
        fam = c.rng.choice(sorted(cat)); sizes = [n for o, n in cat[fam] if n <= 230]
        s = c.rng.choice(SCHEMES); n = c.rng.randrange(1, 24)
        if big and i % 2: sizes = [n for o, n in cat[fam] if n > 2500]; n = c.rng.randrange(1, 4)
        elif big: sizes = [n for o, n in cat[fam]][:3]; n = c.rng.randrange(200, 700)
        R = hexf(rscale(c, bits > 50)); cen = list(map(hexf, centre(c.rng, lambda: c.rng.choice([0.0, 1.5, -3.0, c.rng.uniform(-50, 50), 10 ** c.rng.uniform(-12, 4)]), 1.0)))
        if kind == "sphere": L.append(" ".join(map(str, ["sphere", s, n, R, fam, c.rng.choice(sizes), *cen])))
        else:
            k = min(n, c.rng.randrange(1, 5)); cuts = [0] + sorted(c.rng.sample(range(1, n), k - 1)) + [n]
            L.append(" ".join(map(str, ["pruned", s, n, R, fam, *cen, k] + [x for j in range(k) for x in (cuts[j], cuts[j + 1], c.rng.choice(sizes))])))
    log = c.path("real.json"); c.run(exe, "real", c.write("real.txt", "\n".join(L) + "\n"), log)
    c.tlc("RealComposite", {"VF_LOG": log, "VF_BITS": bits}, xmx="10g")
    c.traces += len(L); c.samples += [dict(request=l) for l in L[:3]]

@check("P12")
def p12(c):
    q = c.quick
    tests = [t for t in gen(c, "GenComposite", None if q else "GenCompositeDeep") if len(t["regions"]) == 1]
    tests += [t for t in big_cases(c) if len(t['regions']) == 1] + [random_case(c, 12, 1, 12) for _ in range(60 if q else 400)] + [random_case(c, 150, 1, 60) for _ in range(6 if q else 40)]
    exe = struct(c, tests)
    real_grids(c, exe, "sphere", 20 if q else 120)

@check("P13")
def p13(c):
    q = c.quick
    tests = gen(c, "GenComposite", None if q else "GenCompositeDeep")
    tests += big_cases(c) + [random_case(c, 14, 6, 8) for _ in range(60 if q else 400)] + [random_case(c, 150, 12, 40) for _ in range(6 if q else 40)]
    exe = struct(c, tests)
    real_grids(c, exe, "pruned", 20 if q else 120)

@check("P27")
def p27(c):
    cat = catalogue(c); L = []; q = c.quick
    for k in ("gl", "gc1", "gc2", "gc3", "gc2m", "trap", "lobatto", "becke", "mk", "mhl", "ta"):
        for n in ([2, 3, 5, 12, 40] if q else list(range(2, 30)) + [64, 100]): L.append("%s %d %d" % (k, n, 1 if n < 20 else 17))
        for n in (150, 300): L.append("%s %d 4999" % (k, n))
        for n in (1000, 3000): L.append("%s %d 0" % (k, n))
    for f in cat:
        for i, (o, n) in enumerate(cat[f]):
            if n <= 110: L.append("%s %d %d" % (f, n, 1 if n < 15 else 97))
            elif n <= 1000 or not q or i % 12 == 0 or n == cat[f][-1][1]: L.append("%s %d %d" % (f, n, 0 if n > 400 else 5003))
    for k in ("sphere", "pruned"):
        for n in (2, 3, 5): L.append("%s %d 7" % (k, n))
    exe = c.cxx("struct"); log = c.path("access.json"); c.run(exe, "access", c.write("access.txt", "\n".join(L) + "\n"), log)
    c.tlc("Access", {"VF_LOG": log}, xmx="10g"); c.traces += len(L); c.samples += [dict(rule=l) for l in L[:4]]

# -------------------------------------------------------- factories and specifications
@check("P04")
def p04(c):
    exe = c.cxx("factory"); log = c.path("reject.json")
    c.run(exe, "reject", log, 16500 if c.quick else 66000, timeout=800)
    c.tlc("Reject", {"VF_LOG": log}, xmx="10g", timeout=840 if c.quick else 3400)
    c.traces += len(c.load(log)); c.extra["exhaustive"] = True
    c.samples += [dict(route=r["route"], family=r["fam"], sizes="0..%d and 14 larger ones" % r["hi"]) for r in c.load(log)[::9]]

@check("P14")
def p14(c):
    q = c.quick; cat = catalogue(c); L = []; r = c.rng
    def add(h, s, n, fam, na, gen): L.append("%s %s %d %s %s %d %d" % (h, s, n, hexf(rscale(c)), fam, na, gen))
    for h in ("robust", "treutler", "unpruned"):
        for fam in cat:
            sizes = [n for o, n in cat[fam]]
            for na in sizes:                                   # every base size
                for n in range(1, 9 if q else 25): add(h, r.choice(SCHEMES), n, fam, na, na <= 200 and n < 7)
                for n in some(c, 9, 400, 3 if q else 12): add(h, r.choice(SCHEMES), n, fam, na, False)
            for n in range(1, 201 if q else 1001):             # every radial size
                na = r.choice(sizes); add(h, r.choice(SCHEMES), n, fam, na, na <= 60 and n <= 60)
            for s in SCHEMES:
                for n in range(1, 14): add(h, s, n, fam, sizes[n % 7], True)
            for i in range(12 if q else 80): add(h, r.choice(SCHEMES), r.randrange(20, 130), fam, r.choice([n for n in sizes if 60 < n < 1000]), True)
            bad = [0, 1, sizes[0] + 1, sizes[-1] + 1, sizes[3] - 1] + [n for f in cat for o, n in cat[f] if n not in sizes][::11 if q else 1]
            for na in bad:
                for n in (1, 2, 3, 7, 12): add(h, r.choice(SCHEMES), n, fam, na, na < 3000)
            for n in [99999, 100000, 65535, 65536, 65537, 2**24 - 1, 2**24, 2**24 + 1, 2**30 + 1, 1999999999] + [r.randrange(200, 10**k) for k in (3, 4, 5, 6, 7, 8, 9)]: add(h, r.choice(SCHEMES), n, fam, r.choice(sizes), False)
    exe = c.cxx("factory"); log = c.path("regions.json"); c.run(exe, "regions", c.write("regions.txt", "\n".join(L) + "\n"), log)
    c.tlc("Pruning", {"VF_LOG": log}, xmx="10g"); c.traces += 2 * len(L); c.samples += [dict(request=l) for l in r.sample(L, 6)]

def grid_requests(c, deep, extra=True):
    """Requests to the runtime factories: all families and sizes, all scheme values and
    parameter objects, region lists, and requests that must be rejected."""
    q = not deep; cat = catalogue(c); r = c.rng; L = []
    P = lambda s, n, ts=None, how=None: "%s %d %s %s %s %s" % (s, n, hexf(rscale(c)), hexf(ralpha(c)), ts or s, how or r.choice(("made", "direct")))
    for fam in cat:
        for o, na in cat[fam]:
            L.append("s2 %s %d" % (fam, na))
            s = r.choice(SCHEMES)
            if na <= 1500 or deep: L.append("unpruned %s %s %d" % (P(s, r.randrange(1, 5)), fam, na))
    for s in SCHEMES:
        for n in list(range(1, 26)) + [50, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025] + r.sample(range(30, 1500), 25 if q else 300): L.append("radial " + P(s, n))
        for n in r.sample(range(16, 1200), 6 if q else 40):
            fam = r.choice(sorted(cat)); sizes = [n for o, n in cat[fam]][:5]; cut = r.randrange(1, n); L.append("unpruned %s %s %d" % (P(s, n), fam, r.choice(sizes)))
            L.append("pruned %s 2 0 %d %s %d %d %d %s %d" % (P(s, n), cut, fam, r.choice(sizes), cut, n, fam, r.choice(sizes)))
            cuts = sorted(r.sample(range(1, n), min(n - 1, 40))); cuts = [0] + cuts + [n]
            L.append("pruned %s %d %s" % (P(s, n), len(cuts) - 1, " ".join("%d %d %s %d" % (cuts[j], cuts[j + 1], fam, r.choice(sizes)) for j in range(len(cuts) - 1))))
        for fam in cat:
            sizes = [n for o, n in cat[fam] if n <= 350]
            for k in range(3 if q else 12): L.append("unpruned %s %s %d" % (P(s, r.randrange(1, 16)), fam, r.choice(sizes)))
            for k in range(5 if q else 20):
                n = r.randrange(1, 14); m = min(n, r.randrange(1, 5)); cuts = [0] + sorted(r.sample(range(1, n), m - 1)) + [n]
                L.append("pruned %s %d %s" % (P(s, n), m, " ".join("%d %d %s %d" % (cuts[j], cuts[j + 1], fam, r.choice(sizes)) for j in range(m))))
            # rejected: parameters of another scheme, no parameters, bad sizes
            for ts in SCHEMES:
                if ts != s:
                    L.append("unpruned %s %s %d" % (P(s, 4, ts), fam, sizes[2]))
                    L.append("pruned %s 1 0 4 %s %d" % (P(s, 4, ts), fam, sizes[2]))
            L.append("unpruned %s %s %d" % (P(s, 4, s, "none"), fam, sizes[2]))
            L.append("pruned %s 1 0 4 %s %d" % (P(s, 4, s, "none"), fam, sizes[2]))
            L.append("unpruned %s %s %d" % (P(s, 4), fam, sizes[2] + 1))
            L.append("pruned %s 2 0 2 %s %d 2 4 %s %d" % (P(s, 4), fam, sizes[2], fam, sizes[2] + 1))
        # rejected: no regions; regions of different families, wherever the odd one is (sizes both families have, and not)
        L.append("pruned %s 0" % P(s, 4))
        for k in range(14 if q else 80):
            m = r.randrange(2, 7); a, b = r.sample(sorted(cat), 2); odd = r.randrange(m) if k % 3 else m - 1
            both = sorted({n for o, n in cat[a]} & {n for o, n in cat[b]} & set(range(400))); sz = lambda f: r.choice(both) if both and k % 2 else r.choice([n for o, n in cat[f] if n < 400])
            L.append("pruned %s %d %s" % (P(s, m + 2), m, " ".join("%d %d %s %d" % (j, j + 1 if j < m - 1 else m + 2, f, sz(f)) for j in range(m) for f in [b if j == odd else a])))
        for ts in SCHEMES:
            if ts != s: L.append("radial " + P(s, 5, ts))
        for bad in ("0", "1", "0x100", "0xffffffff", "0x310", "5"):
            L.append("unpruned %s %s 14" % (P(s, 4), bad))
            L.append("pruned %s 1 0 4 %s 14" % (P(s, 4), bad))
    for bad in ("0", "1", "0x11", "0x50", "0x100", "0xffffffff"):
        for ts in SCHEMES:
            L.append("radial " + P(bad, 4, ts))
            L.append("unpruned %s LebedevLaikov 14" % P(bad, 4, ts))
            L.append("pruned %s 1 0 4 Delley 26" % P(bad, 4, ts))
        L.append("s2 %s 14" % bad)
    return L

@check("P15")
def p15(c):
    L = grid_requests(c, not c.quick)
    exe = c.cxx("factory"); log = c.path("both.json"); c.run(exe, "both", c.write("both.txt", "\n".join(L) + "\n"), log)
    c.tlc("Factory", {"VF_LOG": log}, xmx="10g"); c.traces += len(L); c.samples += [dict(request=l) for l in c.rng.sample(L, 8)]

@check("P16")
def p16(c):
    S = gen(c, "GenNames", None if c.quick else "GenNamesDeep")
    S = sorted(set(tuple(s) for s in S))
    for i in range(2000 if c.quick else 40000): S.append(tuple(c.rng.randrange(1, 256) for _ in range(c.rng.randrange(0, 20))))
    docs = ["Becke", "MuraKnowles", "MK", "MurrayHandyLaming", "MHL", "TreutlerAhlrichs", "TA", "AhrensBeylkin", "AB", "Delley", "LebedevLaikov", "Lebedev", "LL", "Womersley"]
    for nm in docs:
        b = [ord(x) for x in nm]
        for i in range(30 if c.quick else 300):                   # long and padded strings, with any bytes
            junk = [c.rng.choice([0, 32, 9, 255, 128, c.rng.randrange(256)]) for _ in range(c.rng.choice([1, 1, 2, 3, 8, 40, 300]))]
            k = c.rng.randrange(len(b) + 1); S += [tuple(b + junk), tuple(junk + b), tuple(b[:k] + junk + b[k:]), tuple(x ^ 128 if j == k % len(b) else x for j, x in enumerate(b))]
        S += [tuple(b * 2), tuple(b + [0]), tuple(b + [0] + b), tuple([0] + b), tuple(b * 200), tuple(x + 1 if j == len(b) - 1 else x for j, x in enumerate(b))]
        S += [tuple(x if j % 2 else x ^ 32 for j, x in enumerate(b)), tuple(b[i] ^ 64 if i == 1 else b[i] for i in range(len(b)))]
    plan = c.write("names.txt", "".join("x" + "".join("%02x" % k for k in s) + "\n" for s in S))
    exe = c.cxx("factory"); log = c.path("names.json"); c.run(exe, "names", plan, log)
    c.tlc("NamesTrace", {"VF_LOG": log}, xmx="10g"); c.traces += len(S)
    c.samples += [dict(string="".join(map(chr, s))) for s in c.rng.sample(S, 8)]

@check("P17")
def p17(c):
    L = []; r = c.rng; q = c.quick
    Rs = [1.0, 2.0, 0.5] + [rscale(c) for _ in range(2 if q else 8)]
    eps = lambda x: x * (1 + 2.0 ** -52)
    for s in SCHEMES + ["mhl1", "mhl3"]:
        for n in (1, 2, 3, 10, 11) if q else (1, 2, 3, 9, 10, 11, 50):
            for R in Rs + [eps(Rs[0]), eps(Rs[3])]:
                for al in ((0.6, 0.0, 1.0, eps(0.6)) if s == "ta" and n < 11 else (0.6,)):
                    if len(s) > 3: how = "direct"
                    else: how = r.choice(("direct", "made", "clone"))
                    L.append("obj %s %d %s %s %s" % (s, n, hexf(R), hexf(al), how))
        if len(s) < 4:
            for n in (3, 10):
                for how in ("default", "madedefault", "direct", "made", "clone"): L.append("obj %s %d %s %s %s" % (s, n, hexf(1.0), hexf(0.6), how))
            # sizes, scales and exponents that differ only in the last place or beyond 32 bits
            for n in (2 ** 32 + 3, 2 ** 32 + 10, 2 ** 31 + 3, 2 ** 33 + 3, 2 ** 53, 2 ** 53 + 1, 2 ** 64 - 1, 65539, 1001):
                L.append("obj %s %d %s %s %s" % (s, n, hexf(1.0), hexf(0.6), r.choice(("direct", "made", "clone"))))
            for R in (1e-300, 1e300, 1.0 + 1e-7, 1.0 + 1e-12, eps(1e300), 2.0 ** 60, 2.0 ** 60 + 256.): L.append("obj %s 3 %s %s %s" % (s, hexf(R), hexf(0.6), r.choice(("direct", "made", "clone"))))
            if s == "ta":
                for al in (0.6 + 1e-7, 0.6 + 1e-12, 1e-300, 3.5, 0.0, -0.0): L.append("obj ta 3 %s %s %s" % (hexf(1.0), hexf(al), r.choice(("direct", "made", "clone"))))
    exe = c.cxx("factory"); log = c.path("traits.json"); c.run(exe, "traits", c.write("traits.txt", "\n".join(L) + "\n"), log)
    c.tlc("Params", {"VF_LOG": log}, xmx="10g"); c.traces += len(L); c.samples += [dict(object=l) for l in r.sample(L, 6)]

def simulate(c, module, num, depth, cfg=None, env=None, jobs=4):
    """Programs printed by TLC in simulation mode, from `jobs` different seeds (deduplicated)."""
    import concurrent.futures as cf
    c.classes()
    one = lambda k: c.tlc(module, env, cfg=cfg, args=["-simulate", "num=%d" % (num // jobs + 1), "-depth", str(depth), "-seed", str(c.seed * 64 + k)], workers=1)
    with cf.ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, range(jobs)))
    out = sorted({json.loads(l)[1:] for r in rs for l in r["out"].splitlines() if l.startswith('"@')})
    if not out: raise vf.Broken("no programs from " + module)
    return [json.loads(x) for x in out]

def program(ops): return ";".join(" ".join(map(str, o)) for o in ops)

@check("P18")
def p18(c):
    progs = simulate(c, "GenSpecValues", 300 if c.quick else 3000, 40)
    exe = c.cxx("factory"); log = c.path("values.json")
    c.run(exe, "values", c.write("values.txt", "".join(program(p) + "\n" for p in progs)), log)
    c.tlc("SpecValuesTrace", {"VF_LOG": log}, xmx="10g"); c.traces += len(progs)
    c.samples += [dict(program=program(p)) for p in progs[:3]]

@check("P25")
def p25(c):
    import concurrent.futures as cf, glob
    L = grid_requests(c, not c.quick)
    cat = catalogue(c); r = c.rng
    for h in ("robust", "treutler", "plain"):
        for s in SCHEMES:
            for fam in cat:
                for k in range(2): L.append("%s %s %d %s %s %s %s %s %d" % (h, s, r.randrange(1, 12), hexf(rscale(c)), hexf(ralpha(c)), s, "made", fam, r.choice([n for o, n in cat[fam] if n < 400])))
    for nm in ("Becke", "MURAKNOWLES", "mk", "MurrayHandyLaming", "TA", "ahrensbeylkin", "Lebedev", "ll", "AB", "delley", "Womersley", "nonsense", "MH", "BECKE "): 
        if " " not in nm: L.append("name " + nm)
    L = sorted(set(L)); num = {l: i + 1 for i, l in enumerate(L)}
    lib = sorted(glob.glob(os.path.join(vf.REPO, "src", "*.cxx")))
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(c.cxx, "factory", out="factory_h")
        b = ex.submit(c.cxx, "factory", defs=["COMPILED", "NDEBUG"], out="factory_c", srcs=[os.path.join(vf.DRV, "factory.cpp"), *lib])
        exes = [a.result(), b.result()]
    runs = []
    jobs = []
    for k in range(6 if c.quick else 24):
        order = [l for l in L]
        if k >= 2: r.shuffle(order); order += r.choices(L, k=len(L))      # other orders, with repetitions
        if k >= 4: order = [x for l in order for x in ([l] if r.random() < .7 else [l, l])]
        jobs.append((exes[k % 2], c.write("order%d.txt" % k, "\n".join(order) + "\n"), c.path("ans%d.json" % k)))
    with cf.ThreadPoolExecutor(6) as ex: list(ex.map(lambda j: c.run(j[0], "requests", j[1], j[2]), jobs))
    for e, p, o in jobs: runs.append([[num[x["line"]], [x["f"]["ok"], x["f"]["np"], x["f"]["nw"], x["f"]["h"]]] for x in c.load(o)])
    c.tlc("Reproducible", {"VF_LOG": c.write("runs.json", runs), "VF_NREQ": len(L)}, xmx="10g", workers=1)
    c.traces += sum(map(len, runs)); c.samples += [dict(request=l) for l in r.sample(L, 6)] + [dict(runs=len(runs), requests=len(L))]

# ------------------------------------------------------------------ batching
def syn_line(c, route, m, pts): return "syn %d %d %d %s" % (route, m, len(pts), " ".join(hexf(x) if isinstance(x, float) else str(x) for p in pts for x in p))

def cloud(c, n, single=False):
    """A finite point set: coincident, collinear, clustered, lattice or generic points over many magnitudes."""
    r = c.rng; kind = r.randrange(8); W = lambda: float(r.randrange(1, 9)) if r.random() < .3 else r.uniform(-2, 2)
    sc = r.choice([1.0, 1.0, 1e-3, 1e3, 1e-15, 1e15, 1e-30] if single else [1.0, 1.0, 1e-3, 1e3, 1e-150, 1e150, 1e-300, 1e10]); off = [r.choice([0.0, 0.0, 1.0, -7.5, 1e6]) * sc for _ in range(3)]
    if kind == 0: P = [[1.5, -2.5, 3.25]] * n
    elif kind == 1: d = [r.choice([0, 1, -2]) for _ in range(3)]; P = [[t * x for x in d] for t in (r.randrange(-20, 20) for _ in range(n))]
    elif kind == 2: P = [[float(r.randrange(-2, 3)) for _ in range(3)] for _ in range(n)]
    elif kind == 3: P = [[float(r.randrange(-2, 3)), 0.5, float(r.randrange(2))] for _ in range(n)]
    elif kind == 4:
        cl = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]; P = [[x * (1 + r.randrange(-3, 4) * 2.0 ** -52) for x in r.choice(cl)] for _ in range(n)]
    elif kind == 5: P = [[r.gauss(0, 1) * 10 ** r.uniform(-8, 0) for _ in range(3)] for _ in range(n)]
    elif kind == 6: P = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(n)]
    else: P = [[math.copysign(0.0, r.randrange(-1, 2)) for _ in range(3)] if r.random() < .3 else [r.choice([-0.0, 0.0, 1.0]), r.uniform(-1, 1), 2.0] for _ in range(n)]
    out = [[x * sc + o for x, o in zip(p, off)] + [W()] for p in P]
    for _ in range(n // 5): out[r.randrange(n)] = list(r.choice(out))          # coincident points, some with the same weight
    return out

def batch_exes(c, defs=(), names=("batch_syn", "batch_real")):
    """The batch driver over synthetic rules (with the address sanitizer), and with the library's rules too."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        fa = ex.submit(c.cxx, "batch", defs=["SYN_ONLY", *defs], san=True, out=names[0])
        fb = ex.submit(c.cxx, "batch", defs=["NDEBUG", "INTEGRATORXX_VERBOSITY_LEVEL=1", *defs], out=names[1])   # as in a release build, and tracing
        return fa.result(), fb.result()

def batching(c, cfg, what=("auto", "explicit"), bits=52, defs=(), scale=1.0, deep=False, timeout=100, exes=None):
    r = c.rng; q = not deep; A = []; B = []
    if "auto" in what:
        for i, t in enumerate(gen(c, "GenBatching", "GenBatchingDeep" if deep else None)):
            A.append(syn_line(c, i % 7 + (100 if i % 3 == 0 else 0), t["m"], t["p"]))
        for i in range(int((260 if q else 1500) * scale)):
            n = r.choice([1, 2, 3, 5, 8, 13, 30, 60, 100]) if r.random() < .95 else r.randrange(100, 600)
            A.append(syn_line(c, r.randrange(7) + r.choice((0, 100)), r.choice([0, 1, 2, 3, 4, 5, 7, 10, 16, n, n + 1, 10 ** 6]), cloud(c, n, bits < 52)))
        for i in range(4 if q else 16):                            # thousands of points, few or many batches
            n = r.choice([1500, 2047, 2048, 2049, 3000, 4097]); A.append(syn_line(c, i % 7 + 100 * (i // 2 % 2), r.choice([3, 17, 64, 100, 512, 1000, 1025, n - 1, n]), cloud(c, n, bits < 52)))
        for i in range(int((30 if q else 200) * scale)):           # extents that a number cannot hold
            big = 3.4e38 if bits < 52 else 1.79e308; n = r.choice([2, 3, 5, 12, 40, 100]); axes = r.choice([(1, 1, 1), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)])
            lat = r.random() < .4; co = lambda a: (r.choice([-1., 1., -.5, .75, 0.]) if lat else r.uniform(-1, 1)) * big if a else r.choice([0., 0., 1., -2.])
            A.append(syn_line(c, r.randrange(7) + 100 * (i % 2), r.choice([0, 1, 1, 2, 3, 7, 50]), [[*(co(a) for a in axes), float(j + 1)] for j in range(n)]))
        # one crowded cell among sparse ones: everything but one part of some subdivision is within the maximum already
        for i in range(int((90 if q else 600) * scale)):
            k, m, e = r.choice([3, 3, 3, 2, 4, 6, 9 if i % 10 == 0 else 3]), r.randrange(1, 6), r.choice([1e-3, 1e-3, .3, 1e-9]); P = [[0.0, 0.0, 0.0, 1.0], [1.0, 1.0, 1.0, 2.0]]
            hot = r.choice([(0, 0, 0), (k - 1,) * 3, (k - 1,) * 3, tuple(r.randrange(k) for _ in range(3))])
            for cell in itertools.product(range(k), repeat=3):
                ends = cell in ((0, 0, 0), (k - 1,) * 3)
                s = m + r.randrange(1, 4) - ends if cell == hot else r.randrange(0, m + 1 - ends)
                for _ in range(s):
                    u = [r.uniform(.2, .8) for _ in range(3)]
                    if cell == hot: u = [1 - e * x if h == k - 1 else e * x if h == 0 else .5 + e * (x - .5) for x, h in zip(u, hot)]
                    P.append([(h + x) / k for h, x in zip(cell, u)] + [r.uniform(-2, 2)])
            r.shuffle(P); A.append(syn_line(c, r.randrange(7), m, P))
        # ever closer to a point, a line or a plane: each refinement takes off a few points only
        for i in range(int((24 if q else 160) * scale)):
            lim = 30 if bits < 52 else 240; rho = r.choice([.5, .5, .45, .34, .3, .1, .8]); n = max(3, min(r.choice([20, 40, 80, 160, 320]), int(lim / -math.log10(rho)))); P = []
            dirs = r.choice([[(1, 0, 0)], [(0, -1, 0)], [(0, 0, 1)], [(1, 1, 1)], [(1, -2, 0)], [(1, 0, 0), (0, 1, 0), (0, 0, -1)], [(1, 1, -1), (-1, 1, 1)]])
            base = r.choice([(0., 0., 0.), (0., 0., 0.), (0., 1., 1.), (3., 0., 0.)])
            for k in range(n):
                d = dirs[k % len(dirs)]; P.append([b if b else e * rho ** k for b, e in zip(base, d)] + [float(k + 1)])
            r.shuffle(P); A.append(syn_line(c, i % 7, r.choice([0, 1, 1, 2, 3, 5]), P))
        A.append("syn 0 18446744073709551615 3 1 2 3 4 1 2 4 5 0 0 0 1")
        for i, m in enumerate((65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 2, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 3, 2 ** 33 + 2, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 2)):
            for j in (0, 3): A.append(syn_line(c, (i + j) % 7 + 100 * (i % 2), m, cloud(c, r.choice([4, 12, 30]), bits < 52)))
    if "explicit" in what:
        for n in range(1, 6 if q else 9):
            for mask in range(2 ** (n - 1)):
                ix = [0] + [i + 1 for i in range(n - 1) if mask >> i & 1] + [n]
                for route in (0, 1, 2): A.append("exp %d %d %s %d %s" % (route + r.choice((0, 100)), len(ix), " ".join(map(str, ix)), n, " ".join(hexf(x) for p in cloud(c, n, bits < 52) for x in p)))
        for i in range(40 if q else 300):
            n = r.randrange(2, 120); ix = [0] + sorted(r.sample(range(1, n), r.randrange(0, min(n - 1, 20) + 1))) + [n]
            A.append("exp %d %d %s %d %s" % (i, len(ix), " ".join(map(str, ix)), n, " ".join(hexf(x) for p in cloud(c, n, bits < 52) for x in p)))
    cat = catalogue(c)
    for i in range(int((16 if q else 120) * scale)):
        fam = r.choice(sorted(cat)); sizes = [n for o, n in cat[fam] if n <= 230]; n = r.randrange(1, 14 if q else 40)
        cen = [hexf(r.choice([0.0, 0.0, 1.5, -3.0, r.uniform(-50, 50)])) for _ in range(3)]; m = r.choice([1, 2, 7, 16, 64, 100, 512]) if n < 6 else r.choice([5, 16, 33, 64, 100, 512, 5000])
        if i % 2: B.append("grid %d %d %s %d %s %s %d %s" % (i, m, r.choice(SCHEMES), n, hexf(rscale(c, bits > 50)), fam, r.choice(sizes), " ".join(cen)))
        else:
            k = min(n, r.randrange(1, 4)); cuts = [0] + sorted(r.sample(range(1, n), k - 1))
            B.append("pruned %d %d %s %d %s %s %s %d %s" % (i, m, r.choice(SCHEMES), n, hexf(rscale(c, bits > 50)), fam, " ".join(cen), k, " ".join("%d %d" % (x, r.choice(sizes)) for x in cuts)))
    for i in range(max(2, int((4 if q else 16) * scale))):         # grids of realistic size
        fam = r.choice(sorted(cat)); na = r.choice([n for o, n in cat[fam] if 250 <= n <= 800]); n = r.choice([20, 35, 50, 75]); m = r.choice([64, 256, 512, 1024, 5000])
        L = [r.choice(SCHEMES), n, hexf(r.uniform(.3, 3)), fam]; cen = [hexf(r.uniform(-9, 9)) for _ in range(3)]
        B.append("grid %d %d %s %d %s" % (i, m, " ".join(map(str, L)), na, " ".join(cen)) if i % 2 else
                 "pruned %d %d %s %s 3 0 %d %d %d %d %d" % (i, m, " ".join(map(str, L)), " ".join(cen), [x for o, x in cat[fam]][1], n // 4 + 1, na, n // 2 + 1, na))
    if "auto" in what and scale == 1.0:                            # more points than fit in sixteen bits
        B.append("grid %d 1024 ta 86 1.0 LebedevLaikov 770 1 0 -2" % r.randrange(7))
        if deep: B.append("pruned %d 300 becke 150 1.0 LebedevLaikov 0 0 0 2 0 770 75 974" % r.randrange(7))
    syn, real = exes or batch_exes(c, defs)
    la, lb = c.path("syn.json"), c.path("real.json")
    c.lanes(syn, "cases", A, la, timeout=timeout)
    c.lanes(real, "cases", B, lb, n=3, timeout=timeout, mem=8 << 30)
    for f in (la, lb): c.tlc("BatchTrace", {"VF_LOG": f, "VF_BITS": bits}, cfg=cfg, xmx="14g")
    c.traces += len(A) + len(B); c.samples += [dict(request=l[:200]) for l in r.sample(A, 5) + r.sample(B, 3)]
    return syn, real

@check("P21")
def p21(c): batching(c, "BatchP21", what=("auto",), deep=not c.quick)
@check("P22")
def p22(c): batching(c, "BatchP22", what=("auto",), deep=not c.quick)

@check("P23")
def p23(c):
    syn, _ = batching(c, "BatchP23", deep=not c.quick, scale=.5)
    life(c, "LifeP23", 60 if c.quick else 600, exe=syn)
@check("P24")
def p24(c):
    syn, _ = batching(c, "BatchP24", deep=not c.quick, scale=.5)
    life(c, "LifeP24", 60 if c.quick else 600, exe=syn)

# ---------------------------------------------------------------- life cycles
def flat(t):
    """The templates as numbers, for the driver."""
    out = [len(t)]
    for R in t:
        out.append(len(R))
        for rad, ang in R: out += [len(rad), *(x for p in rad for x in p), len(ang), *(x for p in ang for x in p)]
    return " ".join(map(str, out))

def life(c, cfg, num, defs=(), exe=None):
    """Programs over grids, handles and batchers, simulated from Lifecycle, replayed under the address sanitizer."""
    T = gen(c, "GenTemplates")[0]
    progs = simulate(c, "GenLifecycle", num, 60)
    exe = exe or c.cxx("batch", defs=["SYN_ONLY", *defs], san=True, out="life")
    log = c.path("life.json")
    c.run(exe, "life", c.write("life.txt", flat(T) + "\n" + "".join(program(p) + "\n" for p in progs)), log, timeout=300)
    c.tlc("LifecycleTrace", {"VF_LOG": log}, cfg=cfg, xmx="14g")
    c.traces += len(progs); c.samples += [dict(program=program(p)) for p in progs[:3]]

def recentrings(c, exe, count, bits=52):
    """Recentring histories of real grids, through the grid, a batcher and the batcher's grid."""
    r = c.rng; cat = catalogue(c); L = []
    val = lambda: r.choice([0.0, -0.0, 1.0, -3.5, r.uniform(-5, 5), r.uniform(-1, 1) * 10 ** r.uniform(-8, 6)])
    for i in range(count):
        fam = r.choice(sorted(cat)); kind = ("sphere", "pruned", "batch", "clone")[i % 4]; cur = centre(r, val, 1.0)
        l = [kind, r.choice(SCHEMES), r.randrange(1, 14), hexf(rscale(c, bits > 50)), fam, r.choice([n for o, n in cat[fam] if n <= 230]), *map(hexf, cur)]
        K = r.randrange(1, 13) if i % 50 else r.randrange(200, 700); steps = []; seen = [cur]
        for _ in range(K):
            x = r.random()
            if x < .2: nxt = list(cur)                                             # stay
            elif x < .35: nxt = list(r.choice(seen))                               # go back
            elif x < .65: nxt = list(cur); nxt[r.randrange(3)] = val()             # one coordinate
            elif x < .75: nxt = [v if r.random() < .5 else math.nextafter(v, 9e9) for v in cur]
            elif x < .8: nxt = [0.0] * 3
            else: nxt = centre(r, val, 1.0)
            steps += [r.choice("gbq"), *map(hexf, nxt)]; cur = nxt; seen.append(nxt)
        L.append(" ".join(map(str, l + [K] + steps)))
    log = c.path("recentre.json"); c.run(exe, "recentre", c.write("recentre.txt", "\n".join(L) + "\n"), log)
    c.tlc("Recentre", {"VF_LOG": log, "VF_BITS": bits}, xmx="10g")
    c.traces += len(L); c.samples += [dict(request=l) for l in L[:3]]

@check("P19")
def p19(c):
    recentrings(c, c.cxx("batch", out="batch_real"), 400 if c.quick else 2000)
    life(c, "LifeP19", 200 if c.quick else 2000)

@check("P20")
def p20(c): life(c, "LifeP20", 400 if c.quick else 4000)

# ---------------------------------------------------------------- single precision
@check("P26")
def p26(c):
    import concurrent.futures as cf
    F = ["WITH_FLOAT"]; q = c.quick; c.classes()
    with cf.ThreadPoolExecutor(3) as ex:
        fa = ex.submit(c.cxx, "angular", defs=F, out="angular_f"); fs = ex.submit(c.cxx, "struct", defs=F, out="struct_f"); fb = ex.submit(batch_exes, c, F)
        ang, st, exes = fa.result(), fs.result(), fb.result()
    d = c.dir("floats"); c.run(ang, "float", d, grid_plan(c))
    c.tlc("FloatAgree", {"VF_DIR": d}, xmx="10g"); c.traces += len(c.load(os.path.join(d, "index.json")))
    # the structure of composite grids and batches, with single-precision rounding
    tests = gen(c, "GenComposite", None if q else "GenCompositeDeep") + [random_case(c, 14, 6, 8) for _ in range(40 if q else 300)]
    struct(c, tests, exe=st)
    for kind in ("sphere", "pruned"): real_grids(c, st, kind, 10 if q else 80, bits=23)
    batching(c, "BatchAll", bits=23, scale=.4, deep=not q, exes=exes)
    recentrings(c, exes[1], 60 if q else 600, bits=23)
    life(c, "LifeAll", 40 if q else 400, exe=exes[0])

@check("P28")
def p28(c):
    q = c.quick; F = dict(bits=23, defs=["WITH_FLOAT"])
    for K, lo, top, big in ((["gl"], 1, 1500, 700), (["lobatto"], 2, 1000, 700), (["gc1", "gc2", "gc3"], 1, 1500, 700), (["gc2m"], 1, 30, 30)):
        N = 30 if K == ["gc2m"] else 50 if q else 150
        tr = [(n, -1., 1.) for n in range(2, 40)] + [(c.rng.randrange(2, 150), round(c.rng.uniform(-9, 9), 2), 10. + c.rng.uniform(0, 50)) for _ in range(40 if q else 400)] if K == ["gc2m"] else ()
        tr = [(n, *(float(f32(x)) for x in (lo2, up2))) for n, lo2, up2 in tr]
        onedim(c, K, lo, N, [] if big == 30 else [64, 100, 128, 200], some(c, N, big, 12 if q else 60) if big > N else [], construct=[(k, lo, top) for k in K], sums=[(k, lo, big) for k in K], traps=tr, **F)
    L = []
    for n in list(range(1, 41 if q else 61)):
        for s in SCHEMES:
            for k in range(1 if q else 4): L.append("grid %s %d %s %s %s" % (s, n, hexf(10 ** c.rng.uniform(-2, 2)), hexf(c.rng.choice([0.6, 0.0, 1.0, c.rng.uniform(0, 2)])), c.rng.choice(["args", "traits", "base"])))
    radial(c, L, "RadialMap", **F)
    L = []
    for n in list(range(1, 60)) + some(c, 60, 100, 10):
        for s in SCHEMES:
            R, a = hexf(10 ** c.rng.uniform(-2, 2)), hexf(c.rng.uniform(0, 2)); L.append("big %s %d %s %s" % (s, n, R, a)); L.append("same %s %d 1.0 %s args short" % (s, n, hexf(0.6))); L.append("scale %s %d %s %s %s" % (s, n, R, hexf(c.rng.choice([2.0, .25, 3.0])), a))
    radial(c, L, "RadialShape", **F)
    pts = sorted([0.0, .5, -.5] + [x for k in range(1, 12) for x in (1 - 2.0 ** -k, -1 + 2.0 ** -k)])
    iv = [(0., 1.), (-1., 1.), (0., 5.), (-3., -1.), (1000., 1001.), (-1e6, 1e6), (-3e38, 3e38), (2e38, 3e38)] + [(a, float("inf")) for a in (0., 1., -250.5)] + [(float("-inf"), a) for a in (0., 1., -250.5)] + [(float("-inf"), float("inf"))]
    L = ["bt %s %s %s %s" % (lo if lo == float("-inf") else hexf(lo), up if up == float("inf") else hexf(up), hexf(t), hexf(w)) for lo, up in iv for t in pts for w in (1.0, 0.375)]
    radial(c, L, "BoundTransform", **F)
    # only the points, or only the weights, in single precision
    for k, D in enumerate(("FLOAT_WEIGHTS", "FLOAT_POINTS")):
        G = dict(bits=23, defs=[D])
        onedim(c, ["gl", "lobatto"], 2, 24 if q else 100, [], some(c, 30, 400, 6), sums=[("gl", 1, 200), ("lobatto", 2, 200)], **G)
        onedim(c, ["gc1", "gc2", "gc3"], 1, 24 if q else 100, [], some(c, 30, 400, 6), sums=[(s, 1, 200) for s in ("gc1", "gc2", "gc3")] + [("gc2m", 1, 30)], traps=[(n, -1., 3.) for n in range(2, 30)], **G)
        radial(c, ["grid %s %d %s %s %s" % (s, n, hexf(f32(10 ** c.rng.uniform(-2, 2))), hexf(c.rng.choice([0.6, 0.0, 1.0])), c.rng.choice(["args", "traits", "base"])) for n in range(1, 25) for s in SCHEMES], "RadialMap", **G)

# ------------------------------------------------------------ partitions and rules as values
@check("P29")
def p29(c):
    progs = simulate(c, "GenPartition", 400 if c.quick else 4000, 40)
    exe = c.cxx("values", san=True, out="parts"); log = c.path("parts.json")
    c.run(exe, "parts", c.write("parts.txt", "".join(program(p) + "\n" for p in progs)), log, timeout=300)
    c.tlc("PartitionTrace", {"VF_LOG": log}, xmx="12g"); c.traces += len(progs)
    c.samples += [dict(program=program(p)) for p in progs[:3]]

@check("P31")
def p31(c):
    T = gen(c, "GenPlugin", None if c.quick else "GenPluginDeep"); r = c.rng
    for i in range(100 if c.quick else 800):                       # the same machine with bigger and lopsided rules
        n, k = r.choice([(r.randrange(7, 40), r.randrange(1, 12)), (r.randrange(30, 130), r.randrange(1, 4)), (r.randrange(1, 4), r.randrange(10, 60))])
        T.append(dict(incl=r.random() < .5, n=n, k=k, a=r.randrange(-3, 4), b=r.randrange(-5, 6), c=r.randrange(-9, 10), cen=[r.randrange(-9, 10) for _ in range(3)], d=r.choice([1, 2, 16, 64])))
    exe = c.cxx("plug", san=True); log = c.path("plug.json")
    L = ["%d %d %d %d %d %d %d %d %d %d" % (t["incl"], t["n"], t["k"], t["a"], t["b"], t["c"], *t["cen"], t["d"]) for t in T]
    c.run(exe, c.write("plug.txt", "\n".join(L) + "\n"), log); c.tlc("PluginTrace", {"VF_LOG": log}, xmx="12g")
    c.traces += len(L); c.samples += [dict(request=t) for t in c.rng.sample(T, 4)]

RULEKINDS = ["gl", "lobatto", "gc1", "gc2", "gc3", "gc2m", "trap", "becke", "mk", "mhl", "ta", "AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley", "subgl", "subll", "synrad", "synang", "sphere", "pruned"]
@check("P32")
def p32(c):
    progs = simulate(c, "GenRuleValues", 420 if c.quick else 4200, 40)
    L = ["%s|%s" % (RULEKINDS[i % len(RULEKINDS)], program(p)) for i, p in enumerate(progs)]
    exe = c.cxx("values", san=True, defs=["RULES"], out="rules"); log = c.path("rules.json")
    c.run(exe, "rules", c.write("rules.txt", "\n".join(L) + "\n"), log, timeout=300)
    c.tlc("RuleValuesTrace", {"VF_LOG": log}, xmx="12g"); c.traces += len(L)
    c.samples += [dict(program=l) for l in L[:3]]

def tsan(c):
    """How to build and start a program under the thread sanitizer here, if at all."""
    import subprocess
    src = c.write("tsanprobe.cpp", "#include <thread>\nint x; int main(){ std::thread t([]{ x = 1; }); t.join(); return x - 1; }\n"); exe = c.path("bin", "tsanprobe")
    if subprocess.run(["g++", "-fsanitize=thread", "-pthread", src, "-o", exe], capture_output=True).returncode: return None
    for pre in ([], ["setarch", "-R"]):
        if all(subprocess.run([*pre, exe], capture_output=True).returncode == 0 for _ in range(3)): return pre
    return None

@check("P30")
def p30(c):
    waves = gen(c, "GenConcurrent"); pre = tsan(c)
    if pre is None: c.assumptions.append("the thread sanitizer does not start here: races were not observed, only answers")
    exe = c.cxx("threads", extra=[] if pre is None else ["-fsanitize=thread", "-g1"]); pre = pre or []
    alone = c.path("alone.json"); c.run(exe, "alone", alone, pre_cmd=pre); c.once = True
    same = [w for w in waves if len({k for k, v in w}) == 1]; mixed = [w for w in waves if len({k for k, v in w}) > 1]
    runs = 6 if c.quick else 24; log = []
    for r in range(runs):
        # every process meets each kind for the first time in four threads at once
        c.rng.shuffle(same); c.rng.shuffle(mixed)
        W = same + mixed[: 600 if c.quick else len(mixed)]
        if r % 2: c.rng.shuffle(W)
        f = c.path("waves%d.json" % r)
        c.run(exe, "waves", c.write("waves.txt", "".join(" ".join("%d %d" % tuple(x) for x in c.rng.sample(w, 4)) + "\n" for w in W)), f, pre_cmd=pre, attempts=1,
              env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4"})
        log += c.load(f)
    c.tlc("Concurrent", {"VF_LOG": c.write("waves.json", log), "VF_ALONE": alone}, xmx="12g"); c.traces += len(log)
    c.samples += [dict(wave=w) for w in c.rng.sample(waves, 4)]

# technique and level note per property, for MANIFEST.json
TRUST = " Trusted: TLC, its module override for exact dyadic arithmetic (cross-checked against a pure TLA+ definition by DyadicCheck), g++, and the logging driver."
NOTES = {
 "P01": ("every catalogued grid's recorded points and weights checked against the harmonic-moment machine AngularExact (addition theorem, exact dyadic arithmetic)",
         "All 148 catalogued grids, all degrees up to the stated order, in the sampled directions (1 quick, 8 thorough); two grids are known findings." + TRUST),
 "P02": ("AngularShape over every recorded grid", "Exhaustive over the catalogue: unit norm, distinctness, weight signs and equal weights." + TRUST),
 "P03": ("the look-up machine AngularLookup, exhaustively explored against logged look-ups", "Exhaustive for orders -600..3000 and sizes -600..40000 plus 64-bit extremes." + TRUST),
 "P05": ("OneDim recurrence machine, node by node, against recorded Gauss-Legendre rules", "All n to 128 (300 thorough) in full, sampled n and nodes to 3000, construction to 2000 (4000)." + TRUST),
 "P06": ("OneDim recurrence machine against recorded Gauss-Lobatto rules", "All n from 2 to 128 (300 thorough) in full, sampled n and nodes to 3000." + TRUST),
 "P07": ("OneDim recurrence machine against recorded Gauss-Chebyshev rules", "All n to 128 (300 thorough) in full for the three kinds, sampled beyond." + TRUST),
 "P08": ("OneDim machine against recorded trapezoid and modified Chebyshev rules", "All n to 128 (300 thorough) in full, sampled intervals and sizes." + TRUST),
 "P09": ("RadialMap: the recorded radial grids as images of the recorded one-dimensional rules", "All n to 40 (150 thorough), sampled scales and exponents over six decades." + TRUST),
 "P10": ("RadialShape invariants over recorded radial grids", "Shape for n to 3000 (5000 thorough), scaling and defaults for sampled parameters." + TRUST),
 "P11": ("RadialMap's transform machine (exact maps and Jacobians) against recorded transforms", "Sampled intervals of all five kinds, points down to 2^-29 from the ends." + TRUST),
 "P12": ("constructions enumerated by GenComposite, executed through every API route and validated by CompositeTrace; real rules by RealComposite",
         "All products of small integer rules (exact), random larger ones, sampled real radial x angular rules to a few ulps." + TRUST),
 "P13": ("all behaviours of the AddRegion machine (GenComposite) executed through every API route and validated step by step by CompositeTrace",
         "Every partition of up to 4 (5 thorough) radial points with every choice of angular rules, random partitions to 150 points, one of 70001 points, one of 300 regions." + TRUST),
 "P27": ("Access machine over recorded bulk, element, pointer and sub-range reads, bit-exact",
         "All sub-ranges of small rules, sampled ones of bigger rules, every element and nine out-of-range indices per rule." + TRUST),
 "P04": ("Reject machine asking every construction route for sizes 0, 1, 2, ... against the logged answers", "Exhaustive to size 16500 (66000 thorough) for twelve routes per family, plus 14 sizes up to 2^64." + TRUST),
 "P14": ("Pruning machine (cuts consuming the radial range) against logged region lists and generated grids", "Every catalogued base size, every radial size to 200 (1000 thorough), all radial schemes; generation for small sizes." + TRUST),
 "P15": ("Factory request machine against recorded factory and direct answers, bit-exact", "Every family and size, every scheme, unknown values, absent and foreign parameters, sampled region lists." + TRUST),
 "P16": ("strings reached by GenNames (case flips and edits of the documented names) replayed and validated by NamesTrace", "All case patterns of names up to 8 letters, single edits of all names, random strings." + TRUST),
 "P17": ("Params value machine against recorded comparisons, clones, casts and constructions", "Every ordered pair of ~400 parameter objects of six types." + TRUST),
 "P18": ("programs simulated from SpecValues replayed on real specifications, every state validated by SpecValuesTrace", "Some 300 (3000 thorough) random programs of 30 operations over five specifications." + TRUST),
 "P25": ("Reproducible oracle over request histories of the header-only and the compiled build", "Six (24 thorough) histories over all requests of the factory interface, bit-exact." + TRUST),
 "P19": ("Recentre machine (rigid exact motion) against recorded recentring histories of real grids; Lifecycle programs with recentring replayed and validated",
         "400 (2000 thorough) histories of up to 12 moves (every fiftieth of hundreds) on real grids; 200 (2000) programs over integer grids, exact." + TRUST),
 "P20": ("programs simulated from the Lifecycle heap machine replayed under the address sanitizer, every state of every object validated by LifecycleTrace",
         "400 (4000 thorough) random programs of 36 operations over two values, two handles and three batchers, exact." + TRUST),
 "P21": ("all small point sets enumerated by GenBatching, batched by the code through every route and validated by BatchTrace (nothing lost, nothing invented)",
         "Every multiset of up to a few lattice points with every maximum, random clouds to 4097 points (some of overflowing extent), sampled real grids, one of 66220 points." + TRUST),
 "P22": ("the same enumerated batchings validated by BatchTrace (maximum respected unless inseparable)",
         "Every multiset of up to a few lattice points with every maximum, random clouds to 4097 points (some of overflowing extent), sampled real grids, one of 66220 points." + TRUST),
 "P23": ("the same enumerated batchings (tight, separated boxes) and Lifecycle programs (boxes after every change)",
         "Every multiset of up to a few lattice points with every maximum, random clouds (some of overflowing extent), real grids to 66220 points, random programs." + TRUST),
 "P24": ("the same enumerated batchings, all explicit boundary lists of small grids and Lifecycle programs, reached in twelve ways",
         "Every boundary list of up to five (eight) points, with repeated boundaries (empty batches) and with first or last points left out, twelve traversal styles, nine indices beyond the end, const and non-const." + TRUST),
 "P28": ("the machines of P05-P11 (OneDim, RadialMap, RadialShape, transforms) over single-precision instantiations",
         "All n to 50 (150 thorough) in full, sampled n and nodes to 700, construction of every n to 1500, in single and in mixed precision; radial grids to n=40 (60) in full; 11 intervals." + TRUST),
 "P26": ("FloatAgree reads single- and double-precision catalogues in step; the composite, batching, recentring and life-cycle machines over single-precision runs",
         "All catalogued sizes of all families exhaustively; structural checks sampled as in P12, P13, P19-P24." + TRUST),
 "P29": ("programs simulated from the Partition value machine replayed under the address sanitizer, every partition validated by PartitionTrace after each step",
         "400 (4000 thorough) random programs of up to 40 operations over three partitions, exact." + TRUST),
 "P30": ("waves of concurrent requests enumerated by GenConcurrent, run by four threads under the thread sanitizer, the ticketed histories validated by Concurrent against the answers given alone",
         "Every kind of request against itself in every process, every pair of kinds (a sample per process in quick), 6 (24 thorough) processes; schedules are those the machine happened to run, races are found by happens-before." + TRUST),
 "P31": ("requests enumerated by GenPlugin executed with user-defined rules, maps and combinations and validated node by node by PluginTrace",
         "Every size to 6, every small quadratic map and angular size to 3, inclusive or not, on two sizes of interval, and 100 (800) bigger requests, in exact integers." + TRUST),
 "P32": ("programs simulated from the RuleValues value machine replayed on 21 rule types under the address sanitizer, every object validated by RuleValuesTrace after each step",
         "420 (4200 thorough) random programs over two rules, two generic forms and a container, bit-exact." + TRUST),
}
