"""C05: a crater's formation record never changes; its measured properties stay valid and round trip."""
from cratermaker import Crater
from cratermaker.components import crater as CM
from cratermaker.components.crater import CraterVariable
from contracts.C04_crater_size import CONTRACTS, LOG, mkscaling
from pyvc.kit import need, scenario

C = "cratermaker.components.crater:"
FIXED = ["id", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter",
         "projectile_velocity", "projectile_angle", "projectile_mass", "location", "morphology_type", "time", "radius",
         "diameter", "transient_radius", "projectile_radius", "projectile_density", "projectile_vertical_velocity",
         "projectile_direction"]
SETTERS = ["measured_diameter", "measured_radius", "measured_semimajor_axis", "measured_semiminor_axis"]


def pos(k, n, hi=1e6):
    return k.real(n, 0, lo_open=True, sample=(1e-2, hi))


def mk(k, **extra):
    a, b = pos(k, "a"), pos(k, "b")
    kw = dict(semimajor_axis=a, semiminor_axis=b, orientation=k.real("az", 0, 360, hi_open=True), transient_diameter=pos(k, "td"),
              projectile_diameter=pos(k, "pd"), projectile_velocity=pos(k, "v"), projectile_angle=k.real("ang", 0, 90),
              projectile_mass=pos(k, "pm", 1e12), location=(k.real("lon", -180, 180, hi_open=True), k.real("lat", -90, 90)),
              morphology_type="simple", time=k.real("t", 0, sample=(0, 4500)), id=7)
    kw.update(extra)
    return k.call(Crater, **kw), kw


def snap(k, c):
    return {n: k.get(c, n) for n in FIXED}


def same(k, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return k.and_(*[same(k, x, y) for x, y in zip(a, b, strict=True)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or a == b
    return k.eq(a, b, rtol=0, atol=0)


def unchanged(k, s0, s1):
    return k.and_(*[same(k, s0[n], s1[n]) for n in FIXED])


def measured_ok(k, c):
    """The data invariant of the measured shape."""
    a, b, r, d = (k.get(c, "measured_" + n) for n in ("semimajor_axis", "semiminor_axis", "radius", "diameter"))
    if a is None or b is None:
        return k.and_(r is None, d is None, True if a is None else a > 0, True if b is None else b > 0)
    return k.and_(a >= b, b > 0, k.eq(r * r, a * b), k.eq(d, 2 * r))


@scenario("C05", "formation_record_is_read_only", functions=[C + "Crater.__setattr__", C + "Crater.__init__", C + "CraterFixed"])
def s1(k):
    c, kw = mk(k)
    s0 = snap(k, c)
    name = k.choice("name", FIXED)
    o = k.set_outcome(c, name, k.real("new", sample=(-10, 1e6)))
    k.ensure("rejected-with-AttributeError", o.raised(AttributeError), lambda: (name, o))
    k.ensure("record-unchanged", unchanged(k, s0, snap(k, c)))
    for n, v in kw.items():
        k.ensure("record-as-given", same(k, s0[n], v), lambda n=n: n)


@scenario("C05", "measurements_never_touch_the_record", functions=[C + "Crater.__setattr__", C + "CraterVariable"])
def s2(k):
    c, _ = mk(k)
    s0 = snap(k, c)
    for i in range(2):
        n = k.choice(f"n{i}", SETTERS + ["measured_orientation", "measured_location", "measured_rim_height", "measured_floor_depth",
                                         "degradation_state", "production_time", "production_ND", "production_sequence", "name"])
        v = pos(k, f"x{i}")
        w = k.real(f"y{i}", -90, 90)
        val = {"measured_location": (w, w), "production_time": (v, v), "production_ND": (v, v), "production_sequence": 3, "name": "n"}.get(n, v)
        k.set(c, n, val)
        k.ensure("record-unchanged", unchanged(k, s0, snap(k, c)), lambda n=n: n)
        k.ensure("measured-shape-valid", measured_ok(k, c), lambda n=n: (n, c))


@scenario("C05", "measured_setters_hold_the_invariant", functions=[C + "CraterVariable." + n for n in SETTERS],
          assumes=["data invariant: proved to hold initially and to be kept by each setter from every valid state, hence by "
                   "every sequence of assignments"])
def s3(k):
    v = k.call(CraterVariable)
    st = k.choice("state", ["empty", "both", "major only", "minor only"])
    a, b = pos(k, "a"), pos(k, "b")
    k.assume(a >= b)
    if st in ("both", "major only"):
        k.set(v, "measured_semimajor_axis", a)
    if st in ("both", "minor only"):
        k.set(v, "measured_semiminor_axis", b)
    k.ensure("invariant-before", measured_ok(k, v))
    n = k.choice("n", SETTERS)
    x = k.real("x", sample=(-10, 1e6), hints=(0.0,))
    bad = k.truth(x <= 0)
    none = k.bool("none")
    o = k.set_outcome(v, n, None if none else x)
    if not none and bad:
        k.ensure("non-positive-rejected", o.raised(ValueError), lambda: (n, x, o))
        k.ensure("nothing-changed", k.and_(same(k, k.get(v, "measured_semimajor_axis"), a if st in ("both", "major only") else None),
                                           same(k, k.get(v, "measured_semiminor_axis"), b if st in ("both", "minor only") else None)))
        return
    k.ensure("accepted", o.ok, lambda: o)
    k.ensure("invariant-after", measured_ok(k, v), lambda: v)
    if none:
        k.ensure("cleared", k.get(v, n) is None)
    elif n in ("measured_diameter", "measured_radius"):
        k.ensure("reads-back", k.eq(k.get(v, n), x), lambda: (n, x, v))
        k.ensure("circular", k.eq(k.get(v, "measured_semimajor_axis"), k.get(v, "measured_semiminor_axis")))
    else:
        A, B = k.get(v, "measured_semimajor_axis"), k.get(v, "measured_semiminor_axis")
        other = b if n.endswith("major_axis") else a
        have_other = st == "both" or st == ("minor only" if n.endswith("major_axis") else "major only")
        if have_other:
            k.ensure("axes-are-the-two-values", k.or_(k.and_(k.eq(A, x), k.eq(B, other)), k.and_(k.eq(A, other), k.eq(B, x))),
                     lambda: (x, other, v))
        else:
            k.ensure("reads-back", k.eq(k.get(v, n), x))


@scenario("C05", "other_measurements", functions=[C + "CraterVariable." + n for n in (
    "measured_orientation", "measured_location", "production_time", "production_ND", "degradation_state", "measured_rim_height",
    "measured_floor_depth", "production_sequence")])
def s4(k):
    v = k.call(CraterVariable)
    x = k.real("x", sample=(-1000, 1000))
    y = k.real("y", sample=(-1000, 1000))
    z = k.real("z", sample=(-1000, 1000))
    n = k.choice("n", ["ori", "time1", "time2", "time3", "nd2", "nd3", "nd1", "deg", "rim", "floor", "seq"])
    if n[:4] == "time" and n != "time3" and k.bool("again"):
        k.set(v, "production_time", (z, z))        # an earlier value is replaced altogether
    if n in ("nd2", "nd3") and k.bool("again"):
        k.set(v, "production_ND", (z, z, z))
    if n == "ori":
        k.set(v, "measured_orientation", x)
        m = k.get(v, "measured_orientation")
        k.ensure("orientation-in-range", k.and_(m >= 0, m < 360 if k.sym else m <= 360))
        k.ensure("orientation-same-direction", k.is_integer((m - x) / 360))
    elif n == "time1":
        k.set(v, "production_time", x)
        k.ensure("time", same(k, k.get(v, "production_time"), (x, 0.0)))
    elif n == "time2":
        k.set(v, "production_time", (x, y))
        k.ensure("time", same(k, k.get(v, "production_time"), (x, y)))
    elif n in ("time3", "nd1"):
        nm = "production_time" if n == "time3" else "production_ND"
        o = k.set_outcome(v, nm, (x, y, z) if n == "time3" else (x,))
        k.ensure("wrong-length-rejected", o.raised(ValueError) and k.get(v, nm) is None)
    elif n == "nd2":
        k.set(v, "production_ND", (x, y))
        k.ensure("ND", same(k, k.get(v, "production_ND"), (x, y, 0.0)))
    elif n == "nd3":
        k.set(v, "production_ND", (x, y, z))
        k.ensure("ND", same(k, k.get(v, "production_ND"), (x, y, z)))
    else:
        nm = {"deg": "degradation_state", "rim": "measured_rim_height", "floor": "measured_floor_depth", "seq": "production_sequence"}[n]
        val = k.int("i", 0, 1000) if n == "seq" else x
        k.set(v, nm, val)
        k.ensure("reads-back", k.eq(k.get(v, nm), val))
        if n != "seq":
            k.set(v, nm, None)
            k.ensure("cleared", k.get(v, nm) is None)


@scenario("C05", "measurements_start_from_the_formation", functions=[C + "Crater.maker", C + "Crater.__init__", C + "CraterVariable.__init__"], contracts=CONTRACTS, budget=120,
          assumes=["scaling relations enter through their contract (a positive function of the size; see C06)"])
def s4b(k):
    """A new crater measures what it was formed with, except where measurements are given with it."""
    LOG.clear()
    a, b = pos(k, "a"), pos(k, "b")
    k.assume(b <= a)
    kw = dict(semimajor_axis=a, semiminor_axis=b) if k.bool("ellipse") else dict(diameter=2 * a)
    kw.update(projectile_direction=k.real("az", 0, 360, hi_open=True), location=(k.real("lon", -180, 180, hi_open=True), k.real("lat", -90, 90)))
    m = k.choice("measured", ["none", "diameter", "radius", "major", "minor", "axes", "place"])
    x, y = pos(k, "x"), pos(k, "y")
    k.assume(y <= x)
    mk_ = {"none": {}, "diameter": {"measured_diameter": 2 * x}, "radius": {"measured_radius": x}, "major": {"measured_semimajor_axis": x}, "minor": {"measured_semiminor_axis": x},
           "axes": {"measured_semimajor_axis": x, "measured_semiminor_axis": y},
           "place": {"measured_location": (k.real("mlon", -180, 180, hi_open=True), k.real("mlat", -90, 90)), "measured_orientation": k.real("mo", 0, 360, hi_open=True)}}[m]
    r = k.outcome(Crater.maker, scaling=mkscaling(), **kw, **mk_)
    if m in ("major", "minor"):
        k.ensure("one-axis-alone-is-not-enough", r.raised(ValueError), lambda: r)
        return
    if not r.ok:
        raise r.exc
    c = r.value
    A, B, O, L = (k.get(c, "measured_" + n) for n in ("semimajor_axis", "semiminor_axis", "orientation", "location"))
    want = {"none": (k.get(c, "semimajor_axis"), k.get(c, "semiminor_axis")), "axes": (x, y)}
    want["place"] = want["none"]
    wa, wb = want.get(m, (x, x))
    k.ensure("shape", k.and_(k.eq(A, wa), k.eq(B, wb)), lambda: (m, A, B, wa, wb))
    az = mk_.get("measured_orientation", kw["projectile_direction"])
    k.ensure("orientation", k.and_(k.eq(O, az), k.eq(k.get(c, "orientation"), kw["projectile_direction"])), lambda: (O, az, k.get(c, "orientation")))
    loc = mk_.get("measured_location", kw["location"])
    for v, w in ((L, loc), (k.get(c, "location"), kw["location"])):
        k.ensure("location", k.and_(k.or_(k.eq(v[0], w[0], atol=1e-9), k.eq(v[0] - w[0], -360.0)), k.eq(v[1], w[1])), lambda: (v, w))


VARS = ["measured_semimajor_axis", "measured_semiminor_axis", "measured_radius", "measured_orientation", "measured_location",
        "measured_rim_height", "measured_floor_depth", "degradation_state", "production_time", "production_ND", "production_sequence", "name"]


@scenario("C05", "description_round_trip", functions=[C + "CraterVariable.as_dict", C + "CraterVariable.__init__", C + "Crater.as_dict",
          C + "Crater.__init__", C + "Crater.maker"])
def s5(k):
    """A crater rebuilt from its own description, or copied, is the same crater."""
    opt = {}
    ell = k.choice("shape", ["default", "circle", "ellipse"])
    if ell == "circle":
        opt["measured_diameter"] = pos(k, "md")
    elif ell == "ellipse":
        opt["measured_semimajor_axis"], opt["measured_semiminor_axis"] = pos(k, "ma"), pos(k, "mb")
    if k.bool("more"):
        opt.update(measured_orientation=k.real("mo", 0, 360, hi_open=True), measured_rim_height=k.real("rim", sample=(-10, 100)),
                   measured_floor_depth=k.real("fl", sample=(-1000, 10)), degradation_state=k.real("K", 0, sample=(0, 1e4)),
                   measured_location=(k.real("mlon", -180, 180, hi_open=True), k.real("mlat", -90, 90)),
                   production_time=(k.real("pt", 0, sample=(0, 4500)), k.real("pts", 0, sample=(0, 100))),
                   production_ND=(pos(k, "D"), pos(k, "N"), pos(k, "Ns")), production_sequence=4, name="Tycho")
    c, _ = mk(k, **opt)
    for n, v in opt.items():
        if not n.startswith("measured_") or n in ("measured_rim_height", "measured_floor_depth"):
            k.ensure("keeps-what-it-is-given", close(k, k.get(c, n), v), lambda n=n, v=v: (n, getattr(c, n), v))
    how = k.choice("how", ["as_dict", "copy", "maker"])
    if how == "as_dict":
        d = k.call(c.as_dict)
        e = k.call(Crater, **{n: v for n, v in d.items() if n not in ("radius", "diameter", "transient_radius", "projectile_radius",
                                                                     "projectile_density", "projectile_vertical_velocity", "projectile_direction")})
    elif how == "copy":
        e = k.call(Crater, crater=c)
    else:
        e = k.call(Crater.maker, crater=c)
    k.ensure("not-the-same-object", e is not c)
    s0, s1_ = snap(k, c), snap(k, e)
    if how == "maker":
        s0.pop("id"), s1_.pop("id")   # the identity is recomputed; it agrees for craters the maker made (C04)
    k.ensure("record-equal", k.and_(*[same(k, s0[n], s1_[n]) for n in s0]), lambda: {n: (s0[n], s1_[n]) for n in s0})
    for n in VARS:
        x, y = k.get(c, n), k.get(e, n)
        if how == "maker" and x is None and n in ("measured_semimajor_axis", "measured_semiminor_axis", "measured_radius",
                                                  "measured_orientation", "measured_location"):
            continue    # the maker fills missing measurements from the record
        k.ensure("variable-equal:" + n, close(k, x, y), lambda n=n, x=x, y=y: (how, n, x, y))


def close(k, x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
        return k.and_(*[close(k, p, q) for p, q in zip(x, y, strict=True)])
    if x is None or y is None or isinstance(x, str) or isinstance(y, str):
        return x is y or x == y
    return k.eq(x, y) or (not k.sym and abs((x - y + 180) % 360 - 180) < 1e-9)


@scenario("C05", "copy_with_a_new_measurement", functions=[C + "Crater.__init__", C + "Crater._scrub_measured_input_size", C + "CraterVariable.__init__"])
def s5b(k):
    """A copy made with one property given anew has that property, and everything else of the original."""
    opt = {}
    if k.bool("measured"):
        opt.update(measured_semimajor_axis=pos(k, "ma"), measured_semiminor_axis=pos(k, "mb"), name="Tycho", production_sequence=4,
                   measured_orientation=k.real("mo", 0, 360, hi_open=True), degradation_state=k.real("K", 0, sample=(0, 1e4)))
    c, _ = mk(k, **opt)
    before = {n: k.get(c, n) for n in VARS}
    n = k.choice("n", SETTERS + ["both axes", "measured_orientation", "degradation_state", "name", "production_sequence"])
    x, y = pos(k, "x"), pos(k, "y")
    if n == "measured_orientation":
        k.assume(x < 360)
    kw = {"both axes": {"measured_semimajor_axis": x, "measured_semiminor_axis": y}, "name": {"name": "Copernicus"},
          "production_sequence": {"production_sequence": 9}}.get(n, {n: x})
    e = k.call(Crater, crater=c, **kw)
    k.ensure("record-equal", unchanged(k, snap(k, c), snap(k, e)))
    k.ensure("measured-shape-valid", measured_ok(k, e), lambda: (n, e))
    if n in ("measured_diameter", "measured_radius"):
        k.ensure("as-given", k.eq(k.get(e, n), x), lambda: (n, x, k.get(e, n)))
    elif n == "both axes":
        A, B = k.get(e, "measured_semimajor_axis"), k.get(e, "measured_semiminor_axis")
        k.ensure("as-given", k.or_(k.and_(k.eq(A, x), k.eq(B, y)), k.and_(k.eq(A, y), k.eq(B, x))), lambda: (x, y, A, B))
    elif n not in SETTERS:
        k.ensure("as-given", same(k, k.get(e, n), kw[n]), lambda: (n, k.get(e, n)))
    shape = ("measured_semimajor_axis", "measured_semiminor_axis", "measured_radius")
    for m in VARS:
        if m == n or (m in shape and n in SETTERS + ["both axes"]):
            continue
        k.ensure("rest-kept:" + m, close(k, before[m], k.get(e, m)), lambda m=m: (n, m, before[m], k.get(e, m)))
    k.ensure("original-untouched", k.and_(*[same(k, before[m], k.get(c, m)) for m in VARS]))


@scenario("C05", "tuple_columns_round_trip", functions=[C + "_convert_tuple_vars"])
def s6(k):
    """Pair-valued properties written as separate columns come back as the same pairs."""
    d = {"semimajor_axis": pos(k, "a"), "location": (k.real("lon", -180, 180), k.real("lat", -90, 90))}
    if k.bool("mloc"):
        d["measured_location"] = (k.real("mlon", -180, 180), k.real("mlat", -90, 90))
    if k.bool("nd"):
        d["production_ND"] = (pos(k, "D"), pos(k, "N"), k.real("Ns", 0, sample=(0, 10)))
    if k.bool("pt"):
        d["production_time"] = (pos(k, "t"), k.real("ts", 0, sample=(0, 10)))
    flat = k.call(need(CM, "_convert_tuple_vars"), dict(d))
    k.ensure("no-pairs-left", not any(isinstance(v, (tuple, list)) for v in flat.values()), lambda: flat)
    back = k.call(need(CM, "_convert_tuple_vars"), dict(flat), inverse=True)
    for n, v in d.items():
        if isinstance(v, tuple):
            k.ensure("pair-restored:" + n, n in back and isinstance(back[n], (tuple, list)) and len(back[n]) == len(v)
                     and k.and_(*[same(k, p, q) for p, q in zip(back[n], v, strict=True)]), lambda: (d, flat, back))
        else:
            k.ensure("scalar-kept", n in back and same(k, back[n], v))
