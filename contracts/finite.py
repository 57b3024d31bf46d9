"""Finite tie points give finite results: every partial operation (division, asin, acos, sqrt) is used inside its domain."""
from fractions import Fraction as F

import contract
import core
from core import PI, Z, add, band, bnot, bor, cmp, div, eq, fresh, inv, ite, mul, neg, sub, sym
import geo
import modis
import simple_modis
import vii
from modis import MI, R_KM, H_KM, SYMMETRIC, coefficient_parts, real
from npmodel import asin, cos, deg2rad, sin, sqrt

HALF = div(PI, F(2))
MAXZEN = F(85)
EMAX = {1: F("1e-6"), 5: F("2.5e-5")}
SINMAX = F("0.9962")      # sin(85 degrees) is smaller
C_EXP, C_ALI = F(2), {1: F(6, 10), 5: F(10)}


# ------------------------------------------------------------------ facts of real trigonometry (lemmas/Trig.lean proves them)
def trig_facts():
    """Given to the solver for every sine, cosine and arc sine that occurs."""
    lim = core.norm(Z(deg2rad(MAXZEN)))
    half = core.norm(Z(HALF))

    def of_sin(x):
        a = x.arg(0)
        return [x <= 1, x >= -1, Z(bor(cmp("<", a, 0), cmp(">", a, lim), band(cmp(">=", x, 0), cmp("<=", x, SINMAX), cmp("<=", x, a)))),
                Z(eq(add(mul(x, x), mul(cos(a), cos(a))), F(1)))]

    def of_cos(x):
        a = x.arg(0)
        return [x <= 1, x >= -1, Z(bor(cmp("<", a, neg(half)), cmp(">", a, half), cmp(">=", x, 0)))]

    def of_asin(x):
        a = x.arg(0)
        return [Z(bor(cmp("<", a, -1), cmp(">", a, 1), band(eq(sin(x), a), cmp("<=", neg(half), x), cmp("<=", x, half), eq(cmp(">=", a, 0), cmp(">=", x, 0)))))]

    def monotone(x, y):
        a, b = x.arg(0), y.arg(0)
        inside = band(cmp("<=", neg(half), a), cmp("<=", a, half), cmp("<=", neg(half), b), cmp("<=", b, half))
        return [Z(bor(bnot(inside), band(eq(cmp("<=", a, b), cmp("<=", x, y)), eq(cmp("<=", b, a), cmp("<=", y, x)))))]
    core._facts_for["sin"], core._facts_for["cos"], core._facts_for["asin"] = of_sin, of_cos, of_asin
    if not any(p[0] == "sin" for p in core.PAIRS):
        core.PAIRS.append(("sin", "sin", monotone))
    core._fact_memo.clear()
    core._symfacts.clear()


TRUSTED = ["facts of real trigonometry: sin^2 + cos^2 = 1, sin and cos within [-1, 1], cos >= 0 and sin strictly increasing on [-pi/2, pi/2], sin(asin x) = x with asin x in [-pi/2, pi/2] "
           "and of the sign of x, 0 <= sin x <= min(x, 0.9962) up to 85 degrees, and for sin p = k sin z: z - p >= (1 - k) sin z and z - p grows with z: proved in lemmas/Trig.lean "
           "(Lean with Mathlib); their transcription as hypotheses is by hand",
           "for the zenith-angle algorithm: neighbouring tie points of a scan are at most 25 km apart in each Cartesian component (positions extrapolated from larger cells may leave "
           "the domain of the conversion back to longitude and latitude); the same for the outermost pixels of the angle-free algorithm"]


def within(view, lo, hi):
    """Every element of the array lies in [lo, hi]."""
    f = view.fn
    core._facts_for[f.name()] = lambda x: [Z(band(cmp("<=", lo, x), cmp("<=", x, hi)))]
    core.INPUT.add(f.name())


def centre_angle(z, p, k):
    """sin p = k sin z: z - p >= (1 - k) sin z"""
    return [cmp(">=", sub(z, p), mul(sub(F(1), k), sin(z)))]


def centre_monotone(z, p, z2, p2):
    """sin p = k sin z, sin p2 = k sin z2: z - p grows with z"""
    return bor(cmp(">", z, z2), cmp("<=", sub(z, p), sub(z2, p2)))


# ------------------------------------------------------------------ the coefficients of a cell
def steps(ex, q, st, node, width):
    """The coefficients are defined and bounded: |c_exp| <= 2, |c_ali| <= 10 (0.6 from 1 km)."""
    s = st.copy()

    def step(goal, text, *using):
        ex.oblige("lemma", goal, s, node, text)
        s.pc.append(Z(goal))
    k = div(R_KM, R_KM + H_KM)
    for z, p in (("za", "pa"), ("zb", "pb")):
        step(band(cmp("<=", 0, q[z]), cmp("<=", q[z], deg2rad(MAXZEN))), "the zenith angle in radians")
        step(eq(sin(q[p]), mul(k, sin(q[z]))), "the sine of phi")
        step(band(cmp("<=", 0, q[p]), cmp("<=", q[p], HALF)), "the range of phi")
    step(eq(sin(q["p"]), mul(k, sin(q["zeta"]))), "the sine of the mean phi")
    step(band(cmp("<=", 0, q["zeta"]), cmp("<=", q["zeta"], HALF), cmp("<=", 0, q["p"]), cmp("<=", q["p"], HALF)), "the range of zeta")
    names = (("za", "pa", "ta"), ("zb", "pb", "tb"), ("zeta", "p", "t"))
    for i, (z, p, t) in enumerate(names):
        s.pc += [Z(x) for x in centre_angle(q[z], q[p], k)]
        for z2, p2, t2 in names[:i] + names[i + 1:]:
            s.pc.append(Z(centre_monotone(q[z], q[p], q[z2], q[p2])))
    for z, p, t in names:
        step(cmp(">=", q[t], mul(sub(F(1), k), sin(q[z]))), "the angle at the Earth's centre is not negative")
    lo, hi = ite(cmp("<=", q["ta"], q["tb"]), q["ta"], q["tb"]), ite(cmp("<=", q["ta"], q["tb"]), q["tb"], q["ta"])
    step(band(cmp("<=", q["za"], HALF), cmp("<=", q["zb"], HALF)), "at most a right angle")

    def between(f, *n):
        return bor(*[band(cmp("<=", f(q[x]), f(q[n[1]])), cmp("<=", f(q[n[1]]), f(q[y]))) for x, y in ((n[0], n[2]), (n[2], n[0]))])
    step(between(lambda x: x, "pa", "p", "pb"), "the mean phi lies between")
    step(between(sin, "pa", "p", "pb"), "its sine lies between")
    step(between(sin, "za", "zeta", "zb"), "the sine of the middle zenith angle lies between")
    step(between(lambda x: x, "za", "zeta", "zb"), "the middle zenith angle lies between")
    step(band(cmp("<=", lo, q["t"]), cmp("<=", q["t"], hi)), "the middle angle lies between the angles")
    step(bounded(q["c_exp"], C_EXP), "the expansion coefficient is bounded")
    step(bor(cmp("<=", sin(q["zeta"]), sin(q["za"])), cmp("<=", sin(q["zeta"]), sin(q["zb"]))), "the middle zenith angle is none above the others")
    step(cmp(">=", cos(q["zeta"]), F("0.087")), "the cosine of the middle zenith angle")
    c = cos(q["zeta"])
    x = core.let(mul((R_KM + H_KM) / R_KM, cos(q["p"])), 0)
    ratio = (R_KM + H_KM) / R_KM
    step(eq(sub(mul(x, x), mul(c, c)), ratio * ratio - 1), "law of cosines")
    step(band(cmp(">=", x, F("0.484")), cmp(">=", sub(x, c), 0)), "the slant range is positive")
    step(cmp("<=", mul(mul(sub(x, c), sub(x, c)), F(1)), mul(F("1.97"), c)), "the slant range")
    step(band(cmp("<=", 0, q["d"]), cmp("<=", mul(q["d"], q["d"]), mul(c, EMAX[width]))), "the distance along track")
    root = sqrt(sub(mul(cos(q["zeta"]), cos(q["zeta"])), mul(q["d"], q["d"])))
    step(band(cmp(">=", root, 0), eq(mul(root, root), sub(mul(c, c), mul(q["d"], q["d"])))), "the root")
    step(eq(mul(q["e"], add(c, root)), mul(q["d"], q["d"])), "the alignment angle and the root")
    step(band(cmp("<=", 0, q["e"]), cmp("<=", q["e"], EMAX[width])), "the alignment angle")
    den, es = q["den"], mul(q["e"], sin(q["zeta"]))
    step(band(cmp("<=", 0, es), cmp("<=", es, EMAX[width])), "the alignment angle times a sine")
    third = band(cmp("<=", 0, den), cmp("<=", mul(sub(F(1), k), sin(q["zeta"])), den))
    step(bor(cmp(">=", den, SYMMETRIC), cmp("<=", den, neg(SYMMETRIC)), third), "the denominator")
    quot = mul(es, inv(den))
    step(bor(eq(den, F(0)), eq(mul(quot, den), es)), "the quotient")
    step(bor(eq(den, F(0)), bounded(quot, C_ALI[width] / 4)), "the quotient is bounded")
    step(eq(q["c_ali"], ite(eq(den, F(0)), F(0), mul(F(4), quot))), "the alignment coefficient and the quotient")
    step(bounded(q["c_ali"], C_ALI[width]), "the alignment coefficient is bounded")
    return s


def bounded(x, b):
    return band(cmp("<=", neg(b), x), cmp("<=", x, b))


class Coefficients(modis.ExpansionAlignment):
    level = "api"
    configs = [{"width": 1}, {"width": 5}]

    def setup(self, s, cfg):
        trig_facts()
        r = super().setup(s, cfg)
        r["scan_width"] = cfg["width"]
        for k in ("satz_a", "satz_b"):
            within(r[k], 0, MAXZEN)
        return r

    def check_return(self, ex, c, val, st, node):
        i, j = fresh("i"), fresh("j")
        s2 = st.copy()
        a, b = c.a.satz_a, c.a.satz_b
        s2.pc += [cmp("<=", 0, i), cmp("<", i, a.shape[0]), cmp("<=", 0, j), cmp("<", j, a.shape[1])]
        q = coefficient_parts(c.reader(a)(s2, i, j), c.reader(b)(s2, i, j), c.a.scan_width)
        steps(ex, q, s2, node, c.a.scan_width)


# ------------------------------------------------------------------ the position of a pixel
RADIUS = modis.R_M
NEAR = F(25000)           # metres, in each Cartesian component, between neighbouring tie points
GROW = F(164, 100)        # squared distance from the centre, in squared radii, up to which the conversion back is defined


class _Lemma:
    """A lemma for arbitrary reals: hypotheses, then steps each of which may use the earlier ones."""

    def __init__(self, ex, st, node):
        self.ex, self.node, self.s = ex, node, st.copy()
        self.s.pc = []

    def reals(self, *names):
        return [fresh(n, core.RL) for n in names]

    def given(self, *facts):
        self.s.pc += [Z(f) for f in facts]

    def step(self, goal, text):
        self.ex.oblige("lemma", goal, self.s, self.node, text)
        self.s.pc.append(Z(goal))


def lemma_sphere(ex, st, node):
    m = _Lemma(ex, st, node)
    lon, lat = m.reals("lon", "lat")
    m.step(eq(sum2([modis.to_xyz(lon, lat, k) for k in range(3)]), mul(RADIUS, RADIUS)), "tie points are on the sphere")


def lemma_weight(ex, st, node, lim, c_ali):
    """The scan weight of a pixel, from the bounds of its position and of the coefficients."""
    m = _Lemma(ex, st, node)
    ss, tt, ce, ca = m.reals("s", "t", "c_exp", "c_ali")
    (slo, shi), (tlo, thi), amax = lim
    m.given(cmp("<=", slo, ss), cmp("<=", ss, shi), cmp("<=", tlo, tt), cmp("<=", tt, thi), bounded(ce, C_EXP), bounded(ca, c_ali))
    top = [max(F(1, 4), abs(lo * (1 - lo)), abs(hi * (1 - hi))) for lo, hi in (lim[0], lim[1])]
    e, f = mul(ss, sub(F(1), ss)), mul(tt, sub(F(1), tt))
    m.step(bounded(e, top[0]), "s (1 - s)")
    m.step(bounded(f, top[1]), "t (1 - t)")
    m.step(bounded(mul(e, ce), top[0] * C_EXP), "s (1 - s) c_exp")
    m.step(bounded(mul(f, ca), top[1] * c_ali), "t (1 - t) c_ali")
    m.step(bounded(modis.scan_weight(ss, tt, ce, ca), amax), "the scan weight is bounded")


def lemma_position(ex, st, node, tmax, amax):
    """A pixel extrapolated from a cell whose tie points are within NEAR of their neighbours is within 1.28 radii of the centre."""
    m = _Lemma(ex, st, node)
    t, w = m.reals("t", "w")
    m.given(band(cmp("<=", sub(F(1), tmax), t), cmp("<=", t, tmax)), bounded(w, amax))
    A, P = [], []
    for k in "xyz":
        a, b, c, d = m.reals(*[k + n for n in "abcd"])
        n = _Lemma(ex, st, node)
        n.given(*m.s.pc[:2])
        n.given(*[bounded(sub(p, q), NEAR) for p, q in ((a, b), (b, c), (c, d), (d, a))])
        u, v, x = sub(b, a), sub(d, a), sub(c, d)
        n.step(band(cmp("<=", neg(tmax), sub(F(1), t)), cmp("<=", add(ite(cmp(">=", t, 0), t, neg(t)), ite(cmp("<=", t, 1), sub(F(1), t), sub(t, F(1)))), 2 * tmax - 1)),
               "weights along the track")
        row = core.let(add(mul(sub(F(1), t), u), mul(t, x)), 0)
        n.step(bounded(row, NEAR * (2 * tmax - 1)), "the sides along the scan")
        n.step(bounded(mul(w, row), NEAR * amax * (2 * tmax - 1)), "along the scan")
        n.step(bounded(mul(t, v), NEAR * tmax), "along the track")
        p = modis.bilinear(t, w, a, b, c, d)
        n.step(eq(sub(p, a), add(mul(w, row), mul(t, v))), "deviation")
        lim = NEAR * (amax * (2 * tmax - 1) + tmax)
        o = _Lemma(ex, st, node)
        x, y, z = o.reals("x", "y", "z")
        o.given(bounded(x, NEAR * amax * (2 * tmax - 1)), bounded(y, NEAR * tmax), eq(z, add(x, y)))
        o.step(bounded(z, lim), "the pixel is near the tie point")
        pp, = m.reals("p" + k)
        m.given(bounded(sub(pp, a), lim))
        A.append(a)
        P.append(pp)
    m.given(eq(sum2(A), mul(RADIUS, RADIUS)))
    for a in A:
        m.step(bounded(a, RADIUS), "components of a point on the sphere")
    m.step(cmp("<=", sum2(P), mul(GROW, mul(RADIUS, RADIUS))), "the pixel is within 1.28 radii")


def sum2(v):
    return add(add(mul(v[0], v[0]), mul(v[1], v[1])), mul(v[2], v[2]))


class Finite(modis.Interpolate):
    configs = modis.CONFIGS

    def setup(self, s, cfg):
        trig_facts()
        r = super().setup(s, cfg)
        within(r["satz1"], 0, MAXZEN)
        return r

    def check_return(self, ex, c, val, st, node):
        contract.compare(ex, c, val, c.ret, st, node, "result")
        g = modis.G(c.cfg)
        i, j = fresh("i"), fresh("j")
        s = st.copy()
        n = c.a.satz1.shape[0]
        s.pc += [cmp("<=", 0, i), cmp("<", i, g.rows), cmp("<=", 0, j), cmp("<", j, g.fw)]
        slo, shi = min(g.s_s(0), F(0)), max(g.s_s(g.fw - 1), F(1))
        tmax = max(g.s_t(g.rows - 1), 1 - g.s_t(0))
        amax = F(16) if not g.km1 else F(5)
        lim = (slo, shi), (1 - tmax, tmax)
        for x, (lo, hi), text in ((g.s_s(j), lim[0], "scan"), (g.s_t(i), lim[1], "track")):
            ex.oblige("lemma", band(cmp("<=", lo, x), cmp("<=", x, hi)), s, node, "the %s weight of a pixel" % text)
        lemma_sphere(ex, st, node)
        lemma_weight(ex, st, node, lim + (amax,), C_ALI[g.p])
        lemma_position(ex, st, node, tmax, amax)


def lemma_convex(ex, st, node):
    """A point between two points within the radius is within the radius (used along rows, then across)."""
    m = _Lemma(ex, st, node)
    s, q = m.reals("s", "q")
    A, B = m.reals("ax", "ay", "az"), m.reals("bx", "by", "bz")
    a2, b2, d2 = sum2(A), sum2(B), sum2([sub(x, y) for x, y in zip(A, B)])
    e = [add(mul(sub(F(1), s), x), mul(s, y)) for x, y in zip(A, B)]
    m.step(eq(sum2(e), sub(add(mul(sub(F(1), s), a2), mul(s, b2)), mul(mul(s, sub(F(1), s)), d2))), "distance of a point of a segment")
    g = _Lemma(ex, st, node)
    u, v, w, s, q = g.reals("a2", "b2", "d2", "s", "q")
    g.given(cmp("<=", 0, s), cmp("<=", s, 1), cmp("<=", u, q), cmp("<=", v, q), cmp(">=", w, 0))
    g.step(cmp("<=", mul(sub(F(1), s), u), mul(sub(F(1), s), q)), "first end")
    g.step(cmp("<=", mul(s, v), mul(s, q)), "second end")
    g.step(cmp(">=", mul(s, sub(F(1), s)), 0), "weights")
    g.step(cmp(">=", mul(mul(s, sub(F(1), s)), w), 0), "the chord lies inside")
    g.step(cmp("<=", sub(add(mul(sub(F(1), s), u), mul(s, v)), mul(mul(s, sub(F(1), s)), w)), q), "a point of a segment is within the radius of its ends")


# ------------------------------------------------------------------ conversion back, up to 1.28 radii
class DefinedCompiled(geo.InsideCompiled):
    configs = [{}]

    def setup(self, s, cfg):
        n, m = s.int("n", 0, 2**31), s.int("m", 0, 2**31)
        v = s.array("xyz_near", [n, m, 3])
        f, r2 = v.fn, GROW * RADIUS * RADIUS
        core._facts_for[f.name()] = lambda x: [Z(cmp("<=", sum2([f(x.arg(0), x.arg(1), core.Z(k)) for k in range(3)]), r2))]
        core.INPUT.add(f.name())
        return {"xyz": v, "lons": s.array("lon", [n, m], uninit=True), "lats": s.array("lat", [n, m], uninit=True), "low_lat_z": True, "thr": F(4, 5)}


# ------------------------------------------------------------------ the angle-free interpolation
class FiniteSimple(simple_modis.Simple):
    configs = simple_modis.CONFIGS

    def setup(self, s, cfg):
        trig_facts()
        return super().setup(s, cfg)

    def check_return(self, ex, c, val, st, node):
        contract.compare(ex, c, val, c.ret, st, node, "result")
        f = 1000 // c.cfg["fine"]
        n = c.a.lon_array.shape[1]
        i, j = fresh("i"), fresh("j")
        s = st.copy()
        s.pc += [cmp("<=", 0, i), cmp("<", i, 10 * f), cmp("<=", 0, j), cmp("<", j, mul(n, f))]
        zr, zc, t, w = simple_modis.cell_weights(f, n, i, j)
        tmax, amax = F(3, 2), F(7, 4)
        for x, lo, hi, text in ((t, 1 - tmax, tmax, "track"), (w, F(0), amax, "scan")):
            ex.oblige("lemma", band(cmp("<=", lo, x), cmp("<=", x, hi)), s, node, "the %s weight of a pixel" % text)
        inside = s.copy()
        inside.pc += [cmp(">=", i, f // 2), cmp("<", i, 10 * f - f // 2), cmp("<=", j, mul(sub(n, 1), f))]
        for x, text in ((t, "track"), (w, "scan")):
            ex.oblige("lemma", band(cmp("<=", F(0), x), cmp("<=", x, F(1))), inside, node, "the %s weight of a pixel among the tie points" % text)
        lemma_sphere(ex, st, node)
        lemma_convex(ex, st, node)
        lemma_position(ex, st, node, tmax, amax)


# ------------------------------------------------------------------ VII
class FiniteVii(vii.GeoInterpolation):
    """Between tie points on the sphere: within the radius, where the conversion back is defined for any threshold."""

    def setup(self, s, cfg):
        trig_facts()
        return super().setup(s, cfg)

    def check_return(self, ex, c, val, st, node):
        contract.compare(ex, c, val, c.ret, st, node, "result")
        n, ts, act, f = self.sizes
        k = fresh("k")
        s = st.copy()
        s.pc += [cmp("<=", 0, k), cmp("<", k, f)]
        x = div(real(k), real(f))
        ex.oblige("lemma", band(cmp("<=", F(0), x), cmp("<=", x, F(1))), s, node, "the weight of a pixel")
        m = _Lemma(ex, st, node)
        lon, lat = m.reals("lon", "lat")
        m.step(eq(sum2([vii.xyz_of(lon, lat, q) for q in range(3)]), mul(vii.R_VII, vii.R_VII)), "tie points are on the sphere")
        lemma_convex(ex, st, node)


API = [Finite()]
SIMPLE = [FiniteSimple()]
VII = [FiniteVii()]
CONVERSIONS = [DefinedCompiled()] + geo.DOMAIN
COEFFICIENTS = [Coefficients()]
