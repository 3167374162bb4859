"""C03: randomness is fully determined by the generator, seed or state the user supplied."""
import random as pyrandom

import numpy as np

from cratermaker.core import base as B
from cratermaker.utils import montecarlo_utils as mc
from pyvc.core import SymBase
from pyvc.kit import finding, scenario

BF = "cratermaker.core.base:"


class GhostBits:
    """Ghost bit generator: its state is a token naming where it came from."""
    __pyvc_stub__ = True

    def __init__(self, token):
        self.state = token


class GhostRng(np.random.Generator):
    """Ghost generator standing for numpy.random.default_rng(seed)."""
    __pyvc_stub__ = True

    def __new__(cls, token):
        return super().__new__(cls, np.random.PCG64(0))

    def __init__(self, token):
        super().__init__(np.random.PCG64(0))
        self.bits = GhostBits(token)

    @property
    def bit_generator(self):
        return self.bits


def _default_rng(it, args, kwargs):
    seed = args[0] if args else kwargs.get("seed")
    return GhostRng(("fresh",) if seed is None else ("seed", seed))


MODELS = {np.random.default_rng: _default_rng}


def same_state(k, a, b):
    if k.sym and isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and k.and_(*[x == y if isinstance(x, SymBase) or isinstance(y, SymBase)
                                             else (x is y or x == y) for x, y in zip(a, b, strict=True)], True)
    if k.sym:
        return a is b or (isinstance(a, dict) and isinstance(b, dict) and a == b)
    return a == b


GRID = []


def mkrng(k, seed):
    return GhostRng(("seed", seed)) if k.sym else np.random.default_rng(seed)


@scenario("C03", "generator_seed_state_precedence", functions=[BF + "_rng_init"], models=MODELS)
def s1(k):
    seed = k.int("seed", 0, 2**31)
    oseed = k.int("other_seed", 0, 2**31)
    k.assume(seed != oseed)
    give_rng, give_seed, give_state = k.bool("rng"), k.bool("seedgiven"), k.bool("state")
    if k.sym:
        state = {"token": "user state"}
    else:
        g = np.random.default_rng(oseed)
        g.random(3)
        state = g.bit_generator.state
    user = mkrng(k, oseed) if give_rng else None
    before = user.bit_generator.state if give_rng else None
    kw = {}
    if give_rng:
        kw["rng"] = user
    if give_seed:
        kw["rng_seed"] = seed
    if give_state:
        kw["rng_state"] = state
    r, st = k.call(B._rng_init, **kw)
    now = r.bit_generator.state
    k.ensure("returned-state-is-the-generator's", same_state(k, st, now))
    if give_rng:
        k.ensure("user-generator-used-as-is", r is user)
        k.ensure("user-generator-not-advanced", same_state(k, now, before))
    elif give_state:
        k.ensure("state-restored-exactly", same_state(k, now, state), lambda: (now, state))
    elif give_seed:
        want = ("seed", seed) if k.sym else np.random.default_rng(seed).bit_generator.state
        k.ensure("seeded-exactly", same_state(k, now, want))
    else:
        k.ensure("a-generator", isinstance(r, np.random.Generator))


@scenario("C03", "invalid_generators_rejected", functions=[BF + "_rng_init"], models=MODELS)
def s2(k):
    x = k.int("x", 0, 100)
    bad = k.choice("bad", ["rng_int", "rng_str", "state_int", "state_str", "state_with_seed"])
    kw = {"rng_int": {"rng": x}, "rng_str": {"rng": "x"}, "state_int": {"rng_state": x}, "state_str": {"rng_state": "s"},
          "state_with_seed": {"rng_state": x, "rng_seed": x}}[bad]
    o = k.outcome(B._rng_init, **kw)
    k.ensure("rejected-with-ValueError", o.raised(ValueError), lambda: o)


@scenario("C03", "object_uses_the_supplied_source", functions=[BF + "CratermakerBase.__init__", BF + "CratermakerBase.rng",
          BF + "CratermakerBase.rng_state", BF + "CratermakerBase.common_args"], models=MODELS)
def s3(k):
    seed = k.int("seed", 0, 2**31)
    how = k.choice("how", ["rng", "seed", "state", "seed+state"])
    if k.sym:
        state = {"token": "user state"}
    else:
        g = np.random.default_rng(seed + 1)
        g.random(2)
        state = g.bit_generator.state
    user = mkrng(k, seed)
    kw = {"rng": {"rng": user}, "seed": {"rng_seed": seed}, "state": {"rng_state": state},
          "seed+state": {"rng_seed": seed, "rng_state": state}}[how]
    o = k.call(B.CratermakerBase, ask_overwrite=False, **kw)
    want = state if "state" in how else (("seed", seed) if k.sym else np.random.default_rng(seed).bit_generator.state)
    k.ensure("generator-in-the-requested-state", same_state(k, k.get(o, "rng").bit_generator.state, want))
    k.ensure("reported-state", same_state(k, k.get(o, "rng_state"), want))
    if how == "rng":
        k.ensure("user-generator-used-as-is", k.get(o, "rng") is user)
    ca = k.get(o, "common_args")
    k.ensure("components-share-the-generator", k.get(ca, "rng") is k.get(o, "rng"))
    if "seed" in how:
        k.ensure("seed-recorded", k.eq(k.get(o, "rng_seed"), seed))


@scenario("C03", "seed_validated", functions=[BF + "CratermakerBase.rng_seed"], models=MODELS)
def s4(k):
    o = k.call(B.CratermakerBase, ask_overwrite=False)
    v = k.choice("v", ["int", "float", "neg", "none", "str"])
    n = k.int("n", 0, 2**31)
    f = k.real("f", sample=(-10, 10))
    val = {"int": n, "float": f, "neg": -1 - n, "none": None, "str": "seed"}[v]
    r = k.set_outcome(o, "rng_seed", val)
    if v in ("int", "none"):
        k.ensure("accepted", r.ok, lambda: r)
        k.ensure("stored", k.get(o, "rng_seed") is None if val is None else k.eq(k.get(o, "rng_seed"), val))
    else:
        k.ensure("rejected-with-TypeError", r.raised(TypeError), lambda: r)
        k.ensure("unchanged-after-rejection", k.get(o, "rng_seed") is None)


def _pollute(n):
    np.random.seed(n)
    pyrandom.seed(n)


def _draws(how, seed, pollution, src="seed"):
    """Everything random one component does, as plain numbers."""
    from cratermaker import Crater, Production, Projectile, Scaling
    _pollute(pollution)
    one = np.random.default_rng(seed)

    def kw():
        """The random source in the form asked for; a generator is shared by everything drawn below."""
        if src == "seed":
            return {"rng_seed": seed}
        return {"rng": one} if src == "rng" else {"rng_state": np.random.default_rng(seed).bit_generator.state}
    out = []
    if how == "location":
        for f in (mc.get_random_location, mc.get_random_impact_angle, mc.get_random_impact_direction):
            out.append(np.array(f(size=4, **kw())).tolist())
        out.append(mc.get_random_velocity(1e4, size=3, **kw()).tolist())
        out.append(mc.get_random_velocity(1e4, vescape=5e3, size=3, **kw()).tolist())
        out.append(mc.get_random_velocity(4e3, vescape=5e3, size=3, **kw()).tolist())
        out.append(mc.bounded_norm(1.0, 0.1, size=3, **kw()).tolist())
        out.append(mc.get_random_size(np.array([1.0, 10.0, 100.0]), np.array([100.0, 10.0, 1.0]), size=5, **kw()).tolist())
        out.append(mc.get_random_size(np.array([1.0, 10.0, 100.0]), np.array([100.0, 10.0, 1.0]), mu=5, **kw()).tolist())
    elif how == "projectile":
        p = Projectile.maker("asteroids", target="Moon", **kw())
        for _ in range(3):
            p = p.new_projectile()
            out.append([p.velocity, p.angle, p.direction, list(p.location)])
    elif how == "scaling":
        s = Scaling.maker("montecarlo", target="Moon", **kw())
        out.append([s.transition_diameter, s.simple_enlargement_factor, s.final_exp])
        s.recompute()
        out.append([s.transition_diameter, s.simple_enlargement_factor, s.final_exp])
        out.append([s.transient_to_final(d) for d in (1e3, 1.2e4, 1.5e4, 2e4, 1e5)])
        out.append([s.final_to_transient(d) for d in (1e3, 1.2e4, 1.5e4, 2e4, 1e5)])
    elif how == "production":
        p = Production.maker("neukum", version="Moon", **kw())
        d, t = p.sample(time_start=1000.0, diameter_range=(1e3, 1e5), area=1e12, return_age=True)
        out += [d.tolist(), t.tolist()]
    elif how == "powerlaw":
        p = Production.maker("powerlaw", **kw())
        d, t = p.sample(time_start=1000.0, diameter_range=(1e3, 1e5), area=1e11)
        out += [d.tolist(), t.tolist()]
    else:
        for _ in range(2):
            c = Crater.maker(diameter=2.0e3, **kw())
            out.append([c.diameter, c.projectile_diameter, c.projectile_velocity, c.projectile_angle,
                        list(c.location), c.transient_diameter])
    return repr(out)


@scenario("C03", "components_reproducible_from_seed", functions=[
    "cratermaker.components.projectile:Projectile.new_projectile", "cratermaker.components.scaling.montecarlo:MonteCarloScaling",
    "cratermaker.components.production:Production.sample", "cratermaker.components.crater:Crater.maker"],
    search_only="differential: every component built twice from one seed with the global random state disturbed",
    search_s=12, search_n=60)
def s5(k):
    how = k.choice("how", ["location", "projectile", "scaling", "production", "powerlaw", "crater"])
    seed = k.int("seed", 0, 10**6)
    src = k.choice("source", ["seed", "rng", "state"])
    a = _draws(how, seed, 1, src)
    b = _draws(how, seed, 12345, src)
    k.ensure("same-seed-same-results", a == b, lambda: (src, a[:500], b[:500]))
    c = _draws(how, seed + 1, 1, src)
    k.ensure("other-seed-other-results", a != c)


@scenario("C03", "draws_resume_from_saved_state", functions=["cratermaker.utils.montecarlo_utils:get_random_location"],
          search_only="differential: draws after a saved state against draws of a generator restored from it", search_s=3,
          search_n=300)
def s6(k):
    seed = k.int("seed", 0, 10**6)
    rng = np.random.default_rng(seed)
    rng.random(k.choice("skip", [0, 1, 7]))
    state = rng.bit_generator.state
    a = [mc.get_random_location(size=2, rng=rng).tolist(), mc.get_random_impact_angle(size=2, rng=rng).tolist(),
         mc.get_random_size(np.array([1.0, 10.0]), np.array([10.0, 1.0]), size=2, rng=rng).tolist()]
    o = B.CratermakerBase(rng_state=state, ask_overwrite=False)
    b = [mc.get_random_location(size=2, rng=o.rng).tolist(), mc.get_random_impact_angle(size=2, rng=o.rng).tolist(),
         mc.get_random_size(np.array([1.0, 10.0]), np.array([10.0, 1.0]), size=2, rng=o.rng).tolist()]
    k.ensure("continues-identically", a == b, lambda: (a, b))


@scenario("C03", "every_sampler_uses_the_source_given", functions=["cratermaker.utils.montecarlo_utils:" + n for n in ("get_random_location", "get_random_impact_angle",
          "get_random_impact_direction", "get_random_size", "get_random_velocity", "bounded_norm", "get_random_location_on_face")],
          search_only="draws with a generator, a seed and a saved state compared with those of an equal generator", bounded="generated seeds, states and histories", search_s=15, search_n=300)
def samplers(k):
    n = k.choice("size", [1, 2, 5])
    calls = {"location": lambda **kw: mc.get_random_location(size=n, **kw), "angle": lambda **kw: mc.get_random_impact_angle(size=n, **kw),
             "direction": lambda **kw: mc.get_random_impact_direction(size=n, **kw),
             "size": lambda **kw: mc.get_random_size(np.array([1.0, 10.0, 100.0]), np.array([30.0, 10.0, 1.0]), size=n, **kw),
             "number": lambda **kw: mc.get_random_size(np.array([1.0, 10.0, 100.0]), np.array([30.0, 10.0, 1.0]), mu=7.5, **kw),
             "velocity": lambda **kw: mc.get_random_velocity(2e4, vescape=k_esc, size=n, **kw), "normal": lambda **kw: mc.bounded_norm(1.0, 0.1, size=n, **kw),
             "face": lambda **kw: mc.get_random_location_on_face(GRID[0], [3, 5, 3], **kw)}
    what = k.choice("sampler", sorted(calls))
    k_esc = k.choice("vescape", [None, 2.4e3])
    if what == "face" and not GRID:
        from contracts._sim import simulation
        GRID.append(simulation().surface.uxgrid)
    seed = k.int("seed", 0, 10**6)
    rng = np.random.default_rng(seed)
    rng.random(k.choice("skip", [0, 1, 7]))
    state = rng.bit_generator.state
    def twin():
        g = np.random.default_rng(0)
        g.bit_generator.state = state
        return g
    a, b, c = calls[what](rng=rng), calls[what](rng=twin()), calls[what](rng_state=state)
    k.ensure("same-state-same-draws", np.array_equal(a, b) and np.array_equal(a, c), lambda: (what, a, b, c))
    k.ensure("the-generator-moves-on", not np.array_equal(a, calls[what](rng=rng)) or what == "number", lambda: (what, a))
    other = np.random.default_rng(1)
    k.ensure("a-state-wins-over-a-seed", np.array_equal(a, calls[what](rng_state=state, rng_seed=5)), lambda: (what, a))
    k.ensure("a-seed-alone", np.array_equal(calls[what](rng_seed=seed), calls[what](rng=np.random.default_rng(seed))), lambda: what)
    s0 = other.bit_generator.state
    calls[what](rng=other)
    k.ensure("the-generator-given-is-used", other.bit_generator.state != s0, lambda: what)


@scenario("C03", "every_draw_advances_the_generator", functions=["cratermaker.components.projectile:Projectile.new_projectile",
          "cratermaker.components.crater:Crater.maker", "cratermaker.components.production:Production.sample"],
          search_only="successive draws from one source compared quantity by quantity", search_s=6, search_n=60)
def s7(k):
    """Successive draws from one source are new draws: no quantity repeats (which a generator re-made from the seed would do)."""
    from cratermaker import Crater, Production, Projectile
    seed = k.int("seed", 0, 10**6)
    src = k.choice("source", ["seed", "rng"])
    kw = {"rng_seed": seed} if src == "seed" else {"rng": np.random.default_rng(seed)}
    what = k.choice("what", ["projectile", "crater", "production"])
    if what == "projectile":
        p = Projectile.maker(k.choice("kind", ["asteroids", "comets"]), target="Moon", **kw)
        rows = []
        for _ in range(4):
            p = p.new_projectile()
            rows.append([p.velocity, p.angle, p.direction, *p.location])
    elif what == "crater":
        g = np.random.default_rng(seed)
        rows = []
        for _ in range(4):
            c = Crater.maker(diameter=2.0e3, rng=g)
            rows.append([c.projectile_velocity, c.projectile_angle, c.projectile_direction, *c.location])
    else:
        p = Production.maker(k.choice("model", ["neukum", "powerlaw"]), **kw)
        rows = []
        for _ in range(4):
            d, t = p.sample(time_start=3000.0, diameter_range=(1e3, 1e5), area=1e11)
            if len(d):
                rows.append([float(np.sum(d)), float(np.sum(t))])
    for col in zip(*rows, strict=True):
        k.ensure("no-draw-repeats", len(set(map(float, col))) == len(rows), lambda: rows)


@finding("C03", "assigning_rng_state_is_ignored")
def f1(k):
    o = B.CratermakerBase(rng_seed=5, ask_overwrite=False)
    saved = o.rng_state
    o.rng.random(3)
    o.rng_state = saved
    k.ensure("restored", o.rng.bit_generator.state == saved)
