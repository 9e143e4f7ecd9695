"""Entry points of the package and the calling contexts they are analysed in.

Every public function and method is analysed with symbolic data arguments; only options
that select code (field names, coordinate system, flags) are concrete.
"""

import pathlib

from .interp import Interp, Obj
from .project import AnalysisBroken, Project
from .terms import FALSE, NONE, TRUE, const, mk


SCALARS = {
    "damping", "depth", "block_size", "relative_depth", "random_state", "window_size", "window_size_",
    "eta", "eta1", "eta2", "eta3", "maxit", "tol", "bal", "a", "b", "c", "yaw", "pitch", "roll",
    "order", "h", "wavelength", "inc", "dec", "minc", "mdec", "rc", "rw", "rm", "ref", "nmin", "nmax",
    "n_max", "x", "thr", "dname", "method", "date", "fname", "spacing", "radial", "n_lat", "n_lon",
    "regw", "rege", "regs", "regn", "rw", "re", "rs", "rn", "Fe", "Fn", "Fu", "ce", "cn", "cu", "dtype",
    "i", "j", "level", "adjust", "w0", "w1", "w2", "w3",
}
SCALARS |= {n + t for n in ("a", "b", "c", "yaw", "pitch", "roll", "ce", "cn", "cu") for t in ("_2", "_3")}
SCALARS |= {"c" + t + n for n in "enu" for t in ("_2", "_3")}


def p(name):
    if name in SCALARS:
        return mk("param", name, "scalar")
    return mk("param", name)


def tup(*xs):
    return mk("tuple", *xs)


def triple(prefix, names="enu"):
    return tup(*(p(prefix + n) for n in names))


COORDS = tup(p("E"), p("N"), p("U"))
POINT_FIELDS = {
    "cartesian": [
        "potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz",
    ],
    "spherical": ["potential", "g_z"],
}
PRISM_FIELDS = [
    "potential", "g_e", "g_n", "g_z", "g_ee", "g_nn", "g_zz", "g_en", "g_ez", "g_nz",
]
MAG_FIELDS = ["b", "b_e", "b_n", "b_u"]
TESS_FIELDS = ["potential", "g_z"]


class NoSpec(Exception):
    """There is no reference for this call."""


class Case:
    """One analysed call: the API, a label and the result."""

    def __init__(self, drv, api, label, thunk, **info):
        self.drv, self.api, self.label, self._thunk, self.info = drv, api, label, thunk, info
        self._res = self._spec = None

    @property
    def res(self):
        if self._res is None:
            self._res = self._thunk()
        return self._res

    @property
    def spec(self):
        """The same call on the reference value graph, or None when there is none."""
        if self._spec is None:
            self.drv.spec_mode = True
            try:
                self._spec = self._thunk()
            except NoSpec:
                self._spec = False
            finally:
                self.drv.spec_mode = False
        return self._spec or None

    def __repr__(self):
        return f"{self.api}[{self.label}]"


class Driver:
    def __init__(self, project=None):
        self.project = project or Project(spec_dir=pathlib.Path(__file__).parent / "spec")
        self.I = Interp(self.project)
        self.I.load("harmonica")
        for m in ("harmonica.filters", "harmonica.visualization"):
            if m in self.project.modules:
                self.I.load(m)
        self._cache = {}
        self.spec_mode = False
        self.specs = {}
        for m in self.project.modules.values():
            if m.name.startswith("spec."):
                self.I.load(m.name)
                for k, v in self.I.base.frames[m.fid].items():
                    if v.op in ("func", "cls", "lazy"):
                        v = self.I.force(v)
                        if v.op in ("func", "cls") and v.args[0].mod is m:
                            self.specs[k] = v

    def spec_fn(self, name):
        if name not in self.specs:
            raise NoSpec(name)
        return self.specs[name]

    # ---------------------------------------------------------------- calling

    def unspecified(self, why):
        if self.spec_mode:
            raise NoSpec(why)

    def fn(self, dotted):
        if self.spec_mode:
            return self.spec_fn(dotted.rsplit(".", 1)[1])
        return self.I.public(dotted)

    def call(self, dotted, *args, st=None, pc=(), **kwargs):
        return self.I.run(self.fn(dotted), args, self.kw(kwargs), st=st, pc=pc)

    def kw(self, kwargs):
        return {k: (v if hasattr(v, "op") else const(v)) for k, v in kwargs.items()}

    def new(self, dotted, st, **kwargs):
        self.I.events = []
        return self.I.instance(self.fn(dotted), st, **self.kw(kwargs))

    def method(self, obj, name, *args, st, pc=(), **kwargs):
        self.I.stack = []
        rec, self.I.recording = self.I.recording, False
        from .interp import Ctx

        self.I.stack = [Ctx(None, None, next(iter(self.project.modules.values())))]
        m = self.I.getattr(obj, name, st)
        self.I.recording = rec
        if m.op not in ("bound", "func", "ite"):
            raise AnalysisBroken(f"method {name} is gone")
        return self.I.run(m, args, self.kw(kwargs), st=st, pc=pc)

    def mkdict(self, st, **items):
        return self.I.alloc(st, Obj("dict", fields={const(k): v for k, v in items.items()}))

    def cached(self, key, thunk):
        if key not in self._cache:
            self._cache[key] = thunk()
        return self._cache[key]

    # ---------------------------------------------------------------- cases

    def cases(self, *apis):
        out = []
        for name in dir(self):
            if name.startswith("c_") and (not apis or name[2:] in apis):
                out.extend(self.cached(name, lambda n=name: list(getattr(self, n)())))
        return out

    def _case(self, api, label, thunk, **info):
        return Case(self, api, label, thunk, **info)

    def c_point_gravity(self):
        for cs, fields in POINT_FIELDS.items():
            for f in fields:
                for par in (True, False):
                    yield self._case(
                        "point_gravity", f"{cs},{f},parallel={par}",
                        lambda cs=cs, f=f, par=par: self.call(
                            "harmonica.point_gravity", COORDS, triple("P"), p("M"), const(f),
                            coordinate_system=cs, parallel=par, dtype=p("dtype")),
                        field=f, parallel=par, cs=cs,
                    )

    def c_dipole_magnetic(self):
        for f in MAG_FIELDS:
            for par in (True, False):
                for bar in (False, True):
                    yield self._case(
                        "dipole_magnetic", f"{f},parallel={par},progressbar={bar}",
                        lambda f=f, par=par, bar=bar: self.call(
                            "harmonica.dipole_magnetic", COORDS, triple("D"), triple("M"),
                            const(f), parallel=par, progressbar=bar, dtype=p("dtype")),
                        field=f, parallel=par, bar=bar,
                    )

    def c_prism_gravity(self):
        for f in PRISM_FIELDS:
            for par in (True, False):
                for bar in (False, True):
                    yield self._case(
                        "prism_gravity", f"{f},parallel={par},progressbar={bar}",
                        lambda f=f, par=par, bar=bar: self.call(
                            "harmonica.prism_gravity", COORDS, p("prisms"), p("rho"), const(f),
                            parallel=par, progressbar=bar, dtype=p("dtype")),
                        field=f, parallel=par, bar=bar,
                    )

    def c_prism_magnetic(self):
        for f in MAG_FIELDS:
            for par in (True, False):
                for bar in (False, True):
                    yield self._case(
                        "prism_magnetic", f"{f},parallel={par},progressbar={bar}",
                        lambda f=f, par=par, bar=bar: self.call(
                            "harmonica.prism_magnetic", COORDS, p("prisms"), triple("M"), const(f),
                            parallel=par, progressbar=bar, dtype=p("dtype")),
                        field=f, parallel=par, bar=bar,
                    )

    def c_tesseroid_gravity(self):
        for f in TESS_FIELDS:
            for par in (True, False):
                for bar in (False, True):
                    for var in (False, True):
                        yield self._case(
                            "tesseroid_gravity",
                            f"{f},parallel={par},progressbar={bar},variable={var}",
                            lambda f=f, par=par, bar=bar, var=var: (
                                self.unspecified("variable density") if var else None) or self.call(
                                "harmonica.tesseroid_gravity", COORDS, p("tesseroids"),
                                mk("param", "rho_r", "callable") if var else p("rho"), const(f),
                                parallel=par, progressbar=bar, dtype=p("dtype"),
                                radial_adaptive_discretization=p("radial")),
                            field=f, parallel=par, bar=bar, variable=var,
                        )

    def c_layers(self):
        for kind in ("prism_layer", "tesseroid_layer"):
            for props in (False, True):
                def make(kind=kind, props=props):
                    st = self.I.new_state()
                    d = self.mkdict(st, density=p("rho")) if props else NONE
                    return self.call(
                        "harmonica." + kind, tup(p("E"), p("N")), p("surface"), p("reference"),
                        properties=d, st=st)

                yield self._case(kind, f"properties={props}", make)

    def layer(self, kind, st):
        return self.I.getattr(p("L"), kind, st)

    def layer_method(self, kind, name, *args, prop=False, **kwargs):
        from .interp import Ctx

        st = self.I.new_state()
        if self.spec_mode:
            return self.I.run(self.spec_fn(f"{kind}_{name}"), (p("L"), *args), self.kw(kwargs), st=st)
        self.I.stack = [Ctx(None, None, next(iter(self.project.modules.values())))]
        self.I.events = []
        acc = self.layer(kind, st)
        if acc.op != "obj":
            raise AnalysisBroken(f"dataset accessor {kind} is gone")
        if prop:
            o = self.I.obj(acc, st)
            f, _ = self.I.class_lookup(o.cls, name)
            if f is None:
                raise AnalysisBroken(f"{kind}.{name} is gone")
            return self.I.run(f, [acc], {}, st=st)
        return self.method(acc, name, *args, st=st, **kwargs)

    def c_layer_gravity(self):
        for f in PRISM_FIELDS:
            for par in (True, False):
                for bar in (False, True):
                    for thr in (None, "thr"):
                        yield self._case(
                            "prism_layer.gravity", f"{f},parallel={par},progressbar={bar},threshold={thr}",
                            lambda f=f, par=par, bar=bar, thr=thr: self.layer_method(
                                "prism_layer", "gravity", COORDS, const(f), density_name=p("dname"),
                                thickness_threshold=p(thr) if thr else NONE, parallel=par, progressbar=bar),
                            field=f, parallel=par, bar=bar,
                        )
        for f in TESS_FIELDS:
            for bar in (False, True):
                for thr in (None, "thr"):
                    yield self._case(
                        "tesseroid_layer.gravity", f"{f},progressbar={bar},threshold={thr}",
                        lambda f=f, bar=bar, thr=thr: self.layer_method(
                            "tesseroid_layer", "gravity", COORDS, const(f), density_name=p("dname"),
                            thickness_threshold=p(thr) if thr else NONE, progressbar=bar),
                        field=f, bar=bar,
                    )

    def c_layer_other(self):
        for kind, short in (("prism_layer", "prism"), ("tesseroid_layer", "tesseroid")):
            for prop in ("dims", "spacing", "boundaries", "size", "shape"):
                yield self._case(
                    kind + "." + prop, "",
                    lambda kind=kind, prop=prop: self.layer_method(kind, prop, prop=True))
            yield self._case(
                kind + ".update_top_bottom", "",
                lambda kind=kind: self.layer_method(
                    kind, "update_top_bottom", p("surface"), p("reference")))
            yield self._case(
                kind + ".get_" + short, "",
                lambda kind=kind, short=short: self.layer_method(
                    kind, "get_" + short, tup(p("i"), p("j"))))
        for drop in (True, False):
            yield self._case(
                "prism_layer.to_pyvista", f"drop={drop}",
                lambda drop=drop: self.layer_method("prism_layer", "to_pyvista", drop_null_prisms=drop))

    # equivalent sources ------------------------------------------------------

    EQS_ARGS = {
        "EquivalentSources": dict(damping=p("damping"), points=p("points"), depth=p("depth"),
                                  block_size=p("block_size"), dtype=p("dtype")),
        "EquivalentSourcesGB": dict(damping=p("damping"), points=p("points"), depth=p("depth"),
                                    block_size=p("block_size"), window_size=p("window_size"),
                                    random_state=p("random_state"), dtype=p("dtype")),
        "EquivalentSourcesSph": dict(damping=p("damping"), points=p("points"),
                                     relative_depth=p("relative_depth")),
    }

    def eqs(self, name, st, fitted=False, parallel=True, **over):
        kw = dict(self.EQS_ARGS[name])
        kw.update(over)
        g = self.new("harmonica." + name, st, parallel=parallel, **kw)
        if fitted:
            o = self.I.obj(g, st)
            f = dict(o.fields)
            f["coefs_"] = p("coefs_")
            f["points_"] = triple("S")
            f["region_"] = tup(*(p("reg" + c) for c in "wesn"))
            if name == "EquivalentSourcesGB":
                f["window_size_"] = p("window_size_")
            self.I.setobj(g, st, o.but(fields=f))
        return g

    def eqs_call(self, name, method, *args, fitted=False, parallel=True, over=None, **kwargs):
        st = self.I.new_state()
        g = self.eqs(name, st, fitted=fitted, parallel=parallel, **(over or {}))
        r = self.method(g, method, *args, st=st, **kwargs)
        r.self_obj = g
        return r

    def c_eqs(self):
        for name in self.EQS_ARGS:
            for par in (True, False):
                for pts in (False, True):
                    over = {"points": triple("Q") if pts else NONE}
                    for w in (False, True):
                        yield self._case(
                            name + ".fit", f"points={pts},weights={w},parallel={par}",
                            lambda name=name, par=par, over=over, w=w: self.eqs_call(
                                name, "fit", COORDS, p("data"), p("weights") if w else NONE,
                                parallel=par, over=over),
                            parallel=par, points=pts, weights=w)
                    yield self._case(
                        name + ".estimate_required_memory", f"points={pts},parallel={par}",
                        lambda name=name, par=par, over=over: self.eqs_call(
                            name, "estimate_required_memory", COORDS, parallel=par, over=over),
                        parallel=par, points=pts)
                yield self._case(
                    name + ".predict", f"parallel={par}",
                    lambda name=name, par=par: self.eqs_call(
                        name, "predict", COORDS, fitted=True, parallel=par),
                    parallel=par)
                yield self._case(
                    name + ".jacobian", f"parallel={par}",
                    lambda name=name, par=par: self.eqs_call(
                        name, "jacobian", COORDS, triple("S"), parallel=par),
                    parallel=par)
            yield self._case(
                name + ".grid", "",
                lambda name=name: self.eqs_call(name, "grid", COORDS, fitted=True))

    def eqs_estimates(self):
        """Estimates of fitted estimators."""
        for name in self.EQS_ARGS:
            for pts in (False, True):
                for par in (True, False):
                    made = dict(parallel=par, points=triple("Q") if pts else NONE)
                    yield self._case(
                        name + ".estimate_required_memory", f"fitted,points={pts},parallel={par}",
                        lambda name=name, made=made: self.eqs_call(
                            name, "estimate_required_memory", COORDS, fitted=True, parallel=made["parallel"],
                            over={"points": made["points"]}), name=name, made=made)

    def eqs_fields(self, name, **made):
        """Fields of a fitted estimator before any call."""
        st = self.I.new_state()
        o = self.eqs(name, st, fitted=True, **made)
        return {k: self.I.freeze(v, st) for k, v in self.I.obj(o, st).fields.items() if isinstance(k, str)}

    # euler -----------------------------------------------------------------

    def c_euler(self):
        g4 = tup(p("f"), p("fe"), p("fn"), p("fu"))

        def deconv():
            st = self.I.new_state()
            o = self.new("harmonica.EulerDeconvolution", st, structural_index=p("eta"))
            r = self.method(o, "fit", COORDS, g4, st=st)
            r.self_obj = o
            return r

        yield self._case("EulerDeconvolution.fit", "", deconv)

        def inv(seq, most):
            st = self.I.new_state()
            si = p("eta") if not seq else tup(p("eta1"), p("eta2"))
            o = self.new("harmonica.EulerInversion", st, structural_index=si, max_iterations=most,
                         tol=p("tol"), euler_misfit_balance=p("bal"))
            r = self.method(o, "fit", COORDS, g4, st=st, weights=tup(*(p(f"w{k}") for k in range(4))))
            r.self_obj = o
            return r

        # the iteration is followed for a few fixed limits, and for any limit for other properties
        for n in (0, 1, 2):
            yield self._case("EulerInversion.fit", f"iterations={n}", lambda n=n: inv(False, const(n)))
        yield self._case("EulerInversion.fit", "sequence, iterations=1", lambda: inv(True, const(1)))
        yield self._case("EulerInversion.fit", "single", lambda: inv(False, p("maxit")))
        yield self._case("EulerInversion.fit", "sequence", lambda: inv(True, p("maxit")))

    # ellipsoids --------------------------------------------------------------

    def ellipsoid(self, st, density=True, susceptibility=True, remanent=True, tag=""):
        for n in "abc":
            st.assume(mk("<", const(0), p(n + tag)))
        return self.new(
            "harmonica.Ellipsoid", st, a=p("a" + tag), b=p("b" + tag), c=p("c" + tag), yaw=p("yaw" + tag),
            pitch=p("pitch" + tag), roll=p("roll" + tag), center=triple("c" + tag),
            density=p("rho" + tag) if density else NONE,
            susceptibility=p("chi" + tag) if susceptibility else NONE,
            remanent_mag=p("rem" + tag) if remanent else NONE)

    def c_ellipsoid(self):
        def grav(*density):
            st = self.I.new_state()
            es = [self.ellipsoid(st, density=d, tag=t) for d, t in zip(density, ("", "_2", "_3"))]
            return self.call("harmonica.ellipsoid_gravity", COORDS, es[0] if len(es) == 1 else tup(*es), st=st)

        def mag(*kinds):
            st = self.I.new_state()
            es = [self.ellipsoid(st, susceptibility=s, remanent=r, tag=t) for (s, r), t in zip(kinds, ("", "_2"))]
            return self.call("harmonica.ellipsoid_magnetic", COORDS, es[0] if len(es) == 1 else tup(*es),
                             triple("F"), st=st)

        yield self._case("ellipsoid_gravity", "", lambda: grav(True))
        yield self._case("ellipsoid_gravity", "no density", lambda: grav(False))
        yield self._case("ellipsoid_gravity", "two", lambda: grav(True, True), several=True)
        yield self._case("ellipsoid_gravity", "first without density", lambda: grav(False, True), several=True)
        for s in (True, False):
            for r in (True, False):
                yield self._case("ellipsoid_magnetic", f"susceptibility={s},remanent={r}",
                                 lambda s=s, r=r: mag((s, r)))
        yield self._case("ellipsoid_magnetic", "two", lambda: mag((True, False), (False, True)), several=True)
        yield self._case("ellipsoid_magnetic", "first without", lambda: mag((False, False), (True, True)), several=True)

        def meth(name):
            st = self.I.new_state()
            e = self.ellipsoid(st)
            return self.method(e, name, st=st)

        yield self._case("Ellipsoid.to_pyvista", "", lambda: meth("to_pyvista"))
        yield self._case("Ellipsoid.get_surface", "", lambda: meth("get_surface"))

        for n in ("a", "b", "c", "density", "susceptibility", "remanent_mag"):
            yield self._case("Ellipsoid." + n, "assigned", lambda n=n: self._ellipsoid_attribute("assigned_" + n))
            yield self._case("Ellipsoid." + n, "created", lambda n=n: self._ellipsoid_attribute("created_" + n))
        for n in ("rotation_matrix", "others"):
            yield self._case("Ellipsoid", n, lambda n=n: self._ellipsoid_attribute("created_" + n))

    def _ellipsoid_attribute(self, harness):
        """The attribute of an ellipsoid read back after construction or assignment."""
        st = self.I.new_state()
        return self.I.run(self.spec_fn(harness), [self.fn("harmonica.Ellipsoid"), p("value")], {}, st=st)

    # grids -----------------------------------------------------------------

    TRANSFORMS = {
        "derivative_upward": dict(order=p("order")),
        "derivative_easting": dict(order=p("order")),
        "derivative_northing": dict(order=p("order")),
        "upward_continuation": dict(height_displacement=p("h")),
        "gaussian_lowpass": dict(wavelength=p("wavelength")),
        "gaussian_highpass": dict(wavelength=p("wavelength")),
        "reduction_to_pole": dict(inclination=p("inc"), declination=p("dec"),
                                  magnetization_inclination=p("minc"),
                                  magnetization_declination=p("mdec")),
        "total_gradient_amplitude": {},
        "tilt_angle": {},
    }

    def c_transforms(self):
        for name, kw in self.TRANSFORMS.items():
            variants = [{}]
            if name in ("derivative_easting", "derivative_northing"):
                variants = [{"method": "finite-diff"}, {"method": "fft"}, {"method": p("method")}]
            if name == "reduction_to_pole":
                variants.append({"magnetization_inclination": NONE, "magnetization_declination": NONE})
                variants.append({"magnetization_inclination": NONE})
                variants.append({"magnetization_declination": NONE})
            for v in variants:
                for pad in (True, False):
                    for pk in (None, "mode", "pad_width", "constant_values", "other", "mode+pad_width",
                               "other+constant_values+pad_width", "constant_values+mode+other+pad_width"):
                        if pk and not pad:
                            continue

                        def run(name=name, kw=kw, v=v, pad=pad, pk=pk):
                            st = self.I.new_state()
                            k = dict(kw)
                            k.update(v)
                            k["pad_kwargs"] = NONE
                            if pk is not None:
                                k["pad_kwargs"] = self.mkdict(st, **{n: p("pad_" + n) for n in pk.split("+")})
                            return self.call("harmonica." + name, p("grid"), pad=pad, st=st, **k)

                        yield self._case(name, f"{','.join(f'{a}={b}' for a, b in v.items())},pad={pad},pad_kwargs={pk}",
                                         run, pad=pad, variant=v, pad_kwargs=pk)

    KERNELS = {
        "derivative_upward_kernel": dict(order=p("order")),
        "derivative_easting_kernel": dict(order=p("order")),
        "derivative_northing_kernel": dict(order=p("order")),
        "upward_continuation_kernel": dict(height_displacement=p("h")),
        "gaussian_lowpass_kernel": dict(wavelength=p("wavelength")),
        "gaussian_highpass_kernel": dict(wavelength=p("wavelength")),
        "reduction_to_pole_kernel": dict(inclination=p("inc"), declination=p("dec"),
                                         magnetization_inclination=p("minc"),
                                         magnetization_declination=p("mdec")),
    }

    def c_kernels(self):
        for name, kw in self.KERNELS.items():
            yield self._case("filters." + name, "",
                             lambda name=name, kw=kw: self.internal(name, p("fft_grid"), **kw))

    def internal(self, name, *args, st=None, pc=(), **kwargs):
        """Call a helper found by its name anywhere in the package."""
        if self.spec_mode:
            return self.I.run(self.spec_fn(name), args, self.kw(kwargs), st=st, pc=pc)
        return self.I.run(self.find(name), args, self.kw(kwargs), st=st, pc=pc)

    def find(self, name, hint=None):
        hits = []
        for m in self.project.modules.values():
            if m.name.startswith("spec.") or m.name.startswith("harmonica") is False:
                continue
            self.I.load(m.name)
            fr = self.I.base.frames[m.fid]
            v = fr.get(name)
            if v is not None:
                v = self.I.force(v)
                if v.op in ("func", "cls") and v not in hits:
                    hits.append(v)
        if hint:
            hits = [h for h in hits if hint in h.args[0].mod.name] or hits
        if not hits:
            raise AnalysisBroken(f"{name} is gone from the package")
        return hits[0]

    def c_simple(self):
        yield self._case("bouguer_correction", "", lambda: self.call(
            "harmonica.bouguer_correction", p("topo"), density_crust=p("rc"), density_water=p("rw")))

        def iso(layers):
            st = self.I.new_state()
            lay = NONE
            if layers:
                lay = self.mkdict(st, l1=tup(p("t1"), p("d1")), l2=tup(p("t2"), p("d2")))
            return self.call("harmonica.isostatic_moho_airy", p("basement"), layers=lay,
                             density_crust=p("rc"), density_mantle=p("rm"), reference_depth=p("ref"), st=st)

        yield self._case("isostatic_moho_airy", "no layers", lambda: iso(False))
        yield self._case("isostatic_moho_airy", "layers", lambda: iso(True))
        yield self._case("magnetic_angles_to_vec", "", lambda: self.call(
            "harmonica.magnetic_angles_to_vec", p("F"), p("inc"), p("dec")))
        for d in (True, False):
            yield self._case("magnetic_vec_to_angles", f"degrees={d}", lambda d=d: self.call(
                "harmonica.magnetic_vec_to_angles", p("me"), p("mn"), p("mu"), degrees=d))
        yield self._case("total_field_anomaly", "", lambda: self.call(
            "harmonica.total_field_anomaly", triple("B"), p("inc"), p("dec")))
        yield self._case("load_icgem_gdf", "", lambda: self.call("harmonica.load_icgem_gdf", p("fname")))
        yield self._case("load_oasis_montaj_grid", "", lambda: self.call(
            "harmonica.load_oasis_montaj_grid", p("fname")))
        yield self._case("prism_to_pyvista", "", lambda: self.call(
            "harmonica.visualization.prism_to_pyvista", p("prisms"), p("properties")))
        for cs in ("cartesian", "spherical", "geodetic"):
            yield self._case("distance", cs, lambda cs=cs: self.internal(
                "distance", triple("P"), triple("Q"), coordinate_system=cs, ellipsoid=p("ell")))

    # IGRF ------------------------------------------------------------------

    def igrf(self, st, **kw):
        k = dict(date=p("date"), min_degree=p("nmin"), max_degree=p("nmax"), ellipsoid=p("ell"))
        k.update(kw)
        return self.new("harmonica.IGRF14", st, **k)

    def stubbed(self, stubs, thunk):
        """Run with some helpers replaced by unknowns; without reference when the package has no such helper."""
        self.I.stubs, self.I.stub_hits = stubs, set()
        try:
            r = thunk()
        finally:
            self.I.stubs = {}
        if self.I.stub_hits != set(stubs):
            self.unspecified("helper not used")
            r.unspecified = True
        return r

    IGRF_TABLE = {"load_igrf": tup(p("igrf_years"), p("igrf_g"), p("igrf_h"), p("igrf_g_sv"), p("igrf_h_sv"))}

    def c_igrf(self):
        def m(name, *args, init=(), **kw):
            def run():
                st = self.I.new_state()
                o = self.igrf(st, **dict(init))
                r = self.method(o, name, *args, st=st, **kw)
                r.self_obj = o
                return r

            return self.stubbed(self.IGRF_TABLE, run)

        text = (("date", const("2003-05-17")),)
        yield self._case("IGRF14.__init__", "", lambda: self._igrf_init())
        for label, init in (("", ()), ("ISO date", text)):
            yield self._case("IGRF14.predict", label, lambda init=init: m(
                "predict", tup(p("lon"), p("lat"), p("alt")), init=init))
        for kw in ({"shape": tup(p("n_lat"), p("n_lon"))}, {"spacing": p("spacing"), "adjust": p("adjust")}, {}):
            yield self._case("IGRF14.grid", str(kw), lambda kw=kw: m(
                "grid", tup(*(p("r" + c) for c in "wesn")), p("level"), **kw))

    def _igrf_init(self):
        st = self.I.new_state()
        return self.I.run(self.fn("harmonica.IGRF14"), [p("date")],
                          self.kw(dict(min_degree=p("nmin"), max_degree=p("nmax"), ellipsoid=p("ell"))), st=st)

    def c_legendre(self):
        at = (p("x"), p("n_max"), p("i"), p("j"))
        for kind in ("", "_schmidt", "_full"):
            name = "associated_legendre" + kind
            yield self._case(name, "", lambda n=name: self._legendre("legendre_entry", n, at=at))
            yield self._case(name + "_derivative", "", lambda n=name: self._legendre(
                "derivative_entry", n, n + "_derivative", at=at))

    def _legendre(self, harness, *names, at):
        if self.spec_mode:
            return self.I.run(self.spec_fn(names[-1]), at, {})
        return self.I.run(self.spec_fn(harness), [self.find(n) for n in names] + list(at), {})


# --------------------------------------------------------------------------- valuations


def _prism_profile(v, ix):
    """Bounds of a prism: west <= east, south <= north, bottom <= top, some degenerate."""
    from .gvn import _u

    k, c = (ix[0], ix[1]) if len(ix) > 1 else (ix[0], 0)
    if not isinstance(c, int) or isinstance(c, bool):
        return v._draw(("prisms", ix))
    pair = c // 2
    lo = v._draw(("prisms", k, pair, "lo"))
    if c % 2 == 0:
        return lo
    u = _u(v.seed, "prism-size", k, pair)
    if u < 0.08:
        return lo
    return lo + abs(v._draw(("prisms", k, pair, "size")))


def _far_prisms(v, ix):
    """Now and then, bodies much smaller than their coordinates."""
    from .gvn import _u

    k, c = (ix[0], ix[1]) if len(ix) > 1 else (ix[0], 0)
    if isinstance(c, int) and _u(v.seed, "far", k) < 0.15:
        lo = 1e6 * (1 + int(9 * _u(v.seed, "far", k, c // 2)))
        if c % 2 == 0 or _u(v.seed, "prism-size", k, c // 2) < 0.08:
            return lo
        return lo + 0.25 + 8 * _u(v.seed, "narrow", k, c // 2)
    return _prism_profile(v, ix)


def _tess_profile(v, ix):
    from .gvn import _u

    k, c = (ix[0], ix[1]) if len(ix) > 1 else (ix[0], 0)
    if not isinstance(c, int) or isinstance(c, bool):
        return v._draw(("tess", ix))
    pair = c // 2
    if pair == 0 and _u(v.seed, "beyond") < 0.35:
        lo = 170.0 + 150.0 * _u(v.seed, "beyond", k)
        return lo if c == 0 else lo + 30.0 * _u(v.seed, "beyond", k, "size")
    u, w = _u(v.seed, "tess", k, pair, 0), _u(v.seed, "tess", k, pair, 1)
    if _u(v.seed, "tess-null", k, pair) < 0.08:
        w = 0.0
    lo, span, size = ((-100.0, 100.0, 14.0), (-60.0, 100.0, 12.0), (5.5e6, 6.0e5, 4.0e5))[pair % 3]
    kind = _u(v.seed, "tess-kind", k)
    if kind < 0.15:
        size = (2e-4, 2e-4, 8.0)[pair % 3]  # much smaller than its coordinates
    elif kind < 0.3 and pair == 2:
        lo, size = 2.5e6, 3.5e6  # thick
    a = lo + span * u
    return a if c % 2 == 0 else a + size * w


def _lon(v, ix):
    from .gvn import _u

    lon = -140.0 + 340.0 * _u(v.seed, "lon", ix)
    # any number of turns away
    turns = _u(v.seed, "turns", ix)
    return lon - 360.0 if turns < 0.1 else lon + 360.0 if turns < 0.2 else lon + 720.0 if turns < 0.25 else lon


def _lat(v, ix):
    from .gvn import _u

    return -80.0 + 160.0 * _u(v.seed, "lat", ix)


def _radius(v, ix):
    from .gvn import _u

    return 6.2e6 + 4.0e5 * _u(v.seed, "radius", ix)


def _around(v, y, wraps, ix, name=None):
    """Longitudes whose cells may cover the whole globe, or just do."""
    from .gvn import _u

    u = _u(v.seed, "around step")
    step = (60.0, 90.0, 120.0, 180.0, 240.0)[int(10 * u)] if u < 0.5 else 90.0 + 140.0 * (u - 0.5)
    return round(-100.0 + 200.0 * _u(v.seed, "around start")) + step * ix[0]


def _axis(lo, hi, dlo, dhi, bend=0.0):
    def f(v, y, wraps, ix, name=None):
        from .gvn import _u

        k = ix[0] if isinstance(ix[0], int) else v.pos[0]
        sg = -1 if _u(v.seed, "axis-sign", lo, hi, dlo) < 0.25 else 1
        if bend and _u(v.seed, "axis-bend", lo, hi, dlo) < bend and k == 1 + int(
                2 * _u(v.seed, "axis-bend-at", lo, hi, dlo)):
            k = k + 0.3
        return lo + (hi - lo) * _u(v.seed, "axis", lo, hi, dlo) + sg * k * (
            dlo + (dhi - dlo) * _u(v.seed, "axis-step", lo, hi, dlo))

    return f


def _surface(which, lo, span, size):
    def f(v, y, wraps, ix):
        from .gvn import _u

        k = (repr(wraps), repr(ix))
        # whole numbers: a thickness can be exactly the threshold
        b = lo + round(span * _u(v.seed, "bottom", k))
        if which == "bottom":
            return b
        return b + (0.0 if _u(v.seed, "thin", k) < 0.1 else size / 5 * int(6 * _u(v.seed, "thick", k)))

    return f


def _threshold(size):
    def f(v, ix):
        from .gvn import _u

        u = _u(v.seed, "threshold")
        return size / 5 * int(5 * u) if u > 0.4 else size * u

    return f


LAYER_P = dict(
    vars={"easting": _axis(-50.0, 50.0, 0.5, 7.0), "northing": _axis(-60.0, 60.0, 0.6, 8.0),
          "bottom": _surface("bottom", -40.0, 30.0, 50.0), "top": _surface("top", -40.0, 30.0, 50.0)},
    strings={"dname": ["density"]}, profile={"thr": _threshold(50.0)},
    var_dims={"easting": ("easting",), "northing": ("northing",), "bottom": ("northing", "easting"),
              "top": ("northing", "easting"), "density": ("northing", "easting")},
)
LAYER_T = dict(
    vars={"longitude": _axis(-100.0, 300.0, 0.5, 6.0), "latitude": _axis(-70.0, 70.0, 0.4, 5.0),
          "bottom": _surface("bottom", 6.0e6, 3e5, 3e5), "top": _surface("top", 6.0e6, 3e5, 3e5)},
    strings={"dname": ["density"]},
    var_dims={"longitude": ("longitude",), "latitude": ("latitude",), "bottom": ("latitude", "longitude"),
              "top": ("latitude", "longitude"), "density": ("latitude", "longitude")},
)
def _surface_dims(share):
    """Surface and reference as large as the grid, or the reference a number."""
    def reference(v):
        from .gvn import _u

        u = _u(v.seed, "scalar reference")
        return () if u < 0.4 else (None,) if not share and u < 0.6 else (None, None)

    return {"surface": (None, None), "reference": reference}


def _tied(*names):
    return {(s, k): ("coordinate", n) for s in ("surface", "reference") for k, n in enumerate(names)}


MAKE_P = dict(LAYER_P, dims=_surface_dims(1), lengths=_tied("northing", "easting"))
MAKE_T = dict(LAYER_T, dims=_surface_dims(1), lengths=_tied("latitude", "longitude"))
SPHERICAL = {"E": _lon, "N": _lat, "U": _radius}
def _aimed(lo, hi, pair, tess):
    """Positions of points: anywhere, or inside a tesseroid, on its boundary, or any number of turns away."""
    def f(v, ix):
        from .gvn import _u

        u = _u(v.seed, "aim", ix)
        if u < 0.7:
            x = lo + (hi - lo) * _u(v.seed, "near", pair, ix)
        else:
            k = int(2 * _u(v.seed, "aim at", ix))
            a, b = tess(v, (k, 2 * pair)), tess(v, (k, 2 * pair + 1))
            w = _u(v.seed, "within", pair, ix)
            x = a if w < 0.1 else b if w > 0.9 else a + (b - a) * w
        if pair == 0:
            turns = _u(v.seed, "turns", ix)
            x += -360.0 if turns < 0.2 else 360.0 if turns < 0.4 else 720.0 if turns < 0.45 else 0.0
        return x

    return f


def _splitting(v, k):
    """A tesseroid about as large as its distance to the points, in every direction: one that is split once or twice."""
    from .gvn import _u

    def u(n):
        return _u(v.seed, "splitting", k, n)

    distance = (2e5, 5e5, 1e6)[int(3 * u("distance"))]
    about = distance / (1.0, 2.5, 2.5, 2.5)[int(4 * u("ratio"))]
    lon, lat, r = -60 + 120 * u("lon"), -50 + 100 * u("lat"), 6.0e6
    size = [about * (0.9 + 0.25 * u(n) if u("close call") < 0.6 else 0.4 + 0.8 * u(n)) for n in ("w", "s", "bottom")]
    deg = 57.29577951308232 / r
    h = size[0] * deg / max(0.3, 1 - (lat / 90) ** 2), size[1] * deg, size[2]
    return (lon, lat, r), h, (deg * distance, deg * distance, distance)


def _split_tess(v, ix):
    from .gvn import _u

    k, c = (ix[0], ix[1]) if len(ix) > 1 else (ix[0], 0)
    if not isinstance(c, int) or isinstance(c, bool) or _u(v.seed, "split") > 0.6:
        return _tess_profile(v, ix)
    centre, size, _ = _splitting(v, 0)
    if k != 0:
        return centre[c // 2] + (20.0, 20.0, 1e5)[c // 2] * (1 + 1e-4 * (c % 2))
    return centre[c // 2] + (c % 2 - 0.5) * size[c // 2]


def _close(pair):
    """Points close to a tesseroid: above it when they fall on it."""
    anywhere = (_lon, _lat, _radius)[pair]

    def f(v, ix):
        from .gvn import _u

        u = _u(v.seed, "close", pair, ix)
        if _u(v.seed, "split") <= 0.6:
            centre, size, distance = _splitting(v, 0)
            if pair == 2:
                return centre[2] + size[2] / 2 + distance[2] * (0.8 + 0.2 * u)
            return centre[pair] + 0.2 * distance[pair] * (u - 0.5)
        return anywhere(v, ix)

    return f


PRISMS = dict(dims={"prisms": (None, 6)}, profile={"prisms": _far_prisms})
TESS = dict(dims={"tesseroids": (None, 6)}, profile={"tesseroids": _split_tess, "E": _close(0), "N": _close(1),
                                                          "U": _close(2)})


def _with_zeros(scale, name=""):
    def f(v, ix):
        from .gvn import _u

        if name and _u(v.seed, "all zero", ix) < 0.1:
            return 0.0
        u = _u(v.seed, "height", name, ix)
        return 0.0 if u < 0.2 else scale * (u - 0.55)

    return f




def _frequency(name):
    def f(v, y, wraps, ix):
        from .gvn import _u

        u = _u(v.seed, "frequency", name, ix)
        return 0.0 if u < 0.25 else v.H("frequency", name, v.fp(y), ix)

    return f


def _order(v, ix):
    from .gvn import _u

    return 1 + int(4 * _u(v.seed, "order"))


FREQ = dict(
    vars={"freq_east": _frequency("east"), "freq_north": _frequency("north")},
    var_dims={"freq_east": ("freq_east",), "freq_north": ("freq_north",)},
    grid_dims={"fft_grid": ("freq_north", "freq_east")},
    profile={"order": _order},
)
GRID = dict(
    FREQ,
    grid_dims={"grid": ("north", "east"), "coords:grid": ("north", "extra", "east"), "var:north": ("north",),
               "var:east": ("east",), "var:extra": ("north", "east")},
)
def _semiaxis(k, tag):
    """Semi-axes: spheres, spheroids, nearly so, and triaxial, in any order."""
    def draw(v, ix):
        from .gvn import _h, _u

        s = v.seed
        size = (1.0, 40.0)[_h(s, "size", tag) % 2]
        near = (0.0, 1e-9, 1e-6, 2e-3)[_h(s, "near", tag) % 4]
        q, r = 0.35 + 0.5 * _u(s, "q", tag), 0.3 + 0.5 * _u(s, "r", tag)
        axes = [
            (1.0, 1.0 - near, 1.0 - 1.3 * near),
            (1.0, q, q * (1 - near)),
            (1.0, 1 - near, q),
            (1.0, q, q * r),
            (1.0, q, q * r),
        ][_h(s, "form", tag) % 5]
        order = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))[_h(s, "order", tag) % 6]
        return size * axes[order[k]]

    return draw


def _near_body(axis):
    """Observation points around the first ellipsoid, some along its axes."""
    def draw(v, ix):
        from .gvn import _h, _u

        center = v.leaf("c" + axis, (), True)
        size = (1.0, 40.0)[_h(v.seed, "size", "") % 2]
        t = _u(v.seed, "near", axis, ix)
        return center + (0.0 if t < 0.1 else size * (2.6 * t - 1.4))

    return draw


def _near_center(axis, tag):
    """Center of another ellipsoid, some sizes away from the first one."""
    def draw(v, ix):
        from .gvn import _u

        return v.leaf("c" + axis, (), True) + 200 * _u(v.seed, "other center", axis, tag) - 100

    return draw


def _angle(name):
    def draw(v, ix):
        from .gvn import _h, _u

        return (0.0, 90.0, -180.0)[_h(v.seed, "q", name) % 3] if _u(v.seed, "straight", name) < 0.25 else 360 * _u(
            v.seed, "angle", name) - 180

    return draw


FOUR = {n: (4,) for n in "ENU"}
REAL = ("real", {"Real", "float", "Number", "Complex"}, ())
TENSOR = ("matrix", {"ndarray", "Iterable", "Collection", "Sized"}, (3, 3))
ELLIPSOIDS = dict(
    profile={**{n + t: _semiaxis(k, t) for k, n in enumerate("abc") for t in ("", "_2", "_3")},
             **{"ENU"[k]: _near_body(n) for k, n in enumerate("enu")},
             **{f"c{t}{n}": _near_center(n, t) for n in "enu" for t in ("_2", "_3")},
             **{n + t: _angle(n + t) for n in ("yaw", "pitch", "roll") for t in ("", "_2", "_3")}},
    dims=dict(FOUR, rem=(3,), rem_2=(3,), rem_3=(3,)),
    kinds={**{"chi" + t: (REAL, TENSOR) for t in ("", "_2", "_3")}, **{"rho" + t: (REAL,) for t in ("", "_2", "_3")},
           **{"rem" + t: (("vector", {"ndarray", "Iterable", "Collection", "Sized"}, (3,)),) for t in ("", "_2", "_3")}},
    positive=False,
    # almost equal semi-axes are taken as equal, and components that vanish are left with rounding errors
    close=3e-5,
)
ANYTHING = (
    REAL,
    ("zero", REAL[1], ()),
    ("int", {"int", "Real", "Integral", "Rational", "Number", "Complex"}, ()),
    ("none", set(), None),
    TENSOR,
    ("rows", {"ndarray", "Iterable", "Collection", "Sized"}, (2, 3)),
    ("vector", {"ndarray", "Iterable", "Collection", "Sized"}, (3,)),
    ("pair", {"ndarray", "Iterable", "Collection", "Sized"}, (2,)),
    ("row", {"ndarray", "Iterable", "Collection", "Sized"}, (1, 3)),
    ("list", {"list", "Sequence", "Iterable", "Collection", "Sized", "MutableSequence"}, (3,)),
    ("tuple", {"tuple", "Sequence", "Iterable", "Collection", "Sized"}, (3,)),
    ("short tuple", {"tuple", "Sequence", "Iterable", "Collection", "Sized"}, (2,)),
    ("nested list", {"list", "Sequence", "Iterable", "Collection", "Sized", "MutableSequence"}, (3, 3)),
    ("text", {"str", "Sequence", "Iterable", "Collection", "Sized"}, ()),
    ("object", set(), ()),
)
ATTRIBUTES = dict(kinds={"value": ANYTHING})
SEMIAXIS = dict(kinds={"value": (REAL, ANYTHING[1])}, positive=False,
                profile={"value": lambda v, ix: (-2.5, -1, 0, 0.0, 1e-3, 1, 40.0)[v.seed % 7]})
EULER = dict(dims={n: (6,) for n in ("E", "N", "U", "f", "fe", "fn", "fu")},
             profile={"tol": lambda v, ix: (1e-3, 0.3, 1.0)[v.seed % 3]})
OPTIONS = {
    "EulerDeconvolution.fit": EULER,
    "EulerInversion.fit": EULER,
    "ellipsoid_gravity": ELLIPSOIDS,
    "ellipsoid_magnetic": ELLIPSOIDS,
    "bouguer_correction": dict(profile={"topo": _with_zeros(5000.0)}),
    "isostatic_moho_airy": dict(profile={"basement": _with_zeros(5000.0)}),
    "prism_gravity": PRISMS,
    "prism_magnetic": PRISMS,
    "prism_to_pyvista": PRISMS,
    "tesseroid_gravity": TESS,
    "magnetic_vec_to_angles": dict(profile={k: _with_zeros(300.0, k) for k in ("me", "mn", "mu")}),
    "tesseroid_layer.gravity": dict(LAYER_T, profile=dict(SPHERICAL, thr=_threshold(3e5))),
    "prism_layer.gravity": LAYER_P,
}
for _k, _o in (("prism_layer", LAYER_P), ("tesseroid_layer", LAYER_T)):
    for _m in ("dims", "spacing", "boundaries", "size", "shape", "update_top_bottom", "get_prism",
               "get_tesseroid", "to_pyvista"):
        OPTIONS[_k + "." + _m] = _o

OPTIONS.update({"Ellipsoid." + k: SEMIAXIS if k in "abc" else ATTRIBUTES
                for k in ("a", "b", "c", "density", "susceptibility", "remanent_mag")})
OPTIONS["Ellipsoid"] = dict(dims={"value": (9,)})
OPTIONS.update({k: GRID for k in Driver.TRANSFORMS})


# every entry of the tables up to this degree is visited
_ENTRIES = [(n, i, j) for n in range(6) for i in range(n + 1) for j in range(i + 1)]


def _entry(which):
    return lambda v, ix: _ENTRIES[v.seed % len(_ENTRIES)][which]


def _cosine(v, ix):
    from .gvn import _u

    u = _u(v.seed, "cosine")
    return (-1.0, 0.0, 1.0)[int(20 * u)] if u < 0.15 else 2 * _u(v.seed, "cosine", 1) - 1


LEGENDRE = dict(profile={"x": _cosine, "n_max": _entry(0), "i": _entry(1), "j": _entry(2)})
for _k in ("", "_schmidt", "_full"):
    for _d in ("", "_derivative"):
        OPTIONS["associated_legendre" + _k + _d] = LEGENDRE


def _date(v, ix):
    import datetime

    from .gvn import _u

    # around the epochs of the table and around its ends
    k = _epochs(v)
    u = _u(v.seed, "date")
    year = 2000 + int((5 * k + 2) * _u(v.seed, "year")) if u < 0.7 else 2000 + 5 * int(k * _u(v.seed, "year"))
    if u > 0.95:
        return datetime.datetime(year, 1, 1)
    return datetime.datetime(year, 1, 1) + datetime.timedelta(seconds=int(365.9 * 86400 * _u(v.seed, "day")))


def _any_date(v, ix):
    import datetime

    from .gvn import _u

    k = _epochs(v)
    u = _u(v.seed, "date")
    ends = (1999, 2000, 2000 + 5 * k - 1, 2000 + 5 * k)
    year = ends[int(4 * u / 0.8)] if u < 0.8 else 1990 + int(50 * _u(v.seed, "year"))
    return datetime.datetime(year, 1, 1) + datetime.timedelta(seconds=int(364.9 * 86400 * _u(v.seed, "day")))


def _epochs(v):
    from .gvn import _u

    return 2 + int(3 * _u(v.seed, "epochs"))


def _latitude(v, ix):
    from .gvn import _u

    u = _u(v.seed, "latitude", ix)
    return -90.0 if u < 0.1 else 90.0 if u > 0.9 else -90.0 + 180.0 * u


# ranges of degrees: the first ones, and now and then larger ones
_DEGREES = ((1, 1), (1, 2), (2, 2), (0, 1), (1, 3), (2, 3), (0, 0), (3, 3), (1, 2), (0, 2), (2, 2), (1, 4))


def _nmin(v, ix):
    return _DEGREES[v.seed % len(_DEGREES)][0]


def _nmax(v, ix):
    return _DEGREES[v.seed % len(_DEGREES)][1]


def _height(v, ix):
    return 1e3 * abs(v._draw(("height", ix)))


def _coefficients(name):
    def f(v, ix):
        # the table has no coefficients of degree zero
        return 0.0 if len(ix) > 1 and ix[-2] == 0 else v._draw((name, ix))

    return f


IGRF = dict(
    dims={"igrf_years": lambda v: (_epochs(v),), "igrf_g": lambda v: (_epochs(v), 14, 14),
          "igrf_h": lambda v: (_epochs(v), 14, 14), "igrf_g_sv": (14, 14), "igrf_h_sv": (14, 14)},
    profile={"igrf_years": lambda v, ix: 2000 + 5 * ix[0], "date": _date, "nmin": _nmin, "nmax": _nmax,
             **{k: _coefficients(k) for k in ("igrf_g", "igrf_h", "igrf_g_sv", "igrf_h_sv")},
             "lat": _latitude, "lon": _lon, "alt": _height, "level": _height},
)
OPTIONS["IGRF14.predict"] = OPTIONS["IGRF14.grid"] = OPTIONS["IGRF14.__init__"] = IGRF
OTHER_DATES = dict(IGRF, profile=dict(IGRF["profile"], date=_any_date))


def _bad_dims(v):
    from .gvn import _u

    u = _u(v.seed, "dims")
    return ("north", "east") if u < 0.6 else ("north",) if u < 0.8 else ("north", "east", "extra")


BAD_GRID = dict(GRID, grid_dims=dict(GRID["grid_dims"], grid=_bad_dims))
DOUBLE_GRID = dict(GRID, grid_dims=dict(GRID["grid_dims"], **{
    "var:extra": lambda v: (("north",), ("east",), ("north", "east"))[v.seed % 3]}))
OPTIONS.update({"filters." + k: FREQ for k in Driver.KERNELS})
OPTIONS.update({"prism_layer": MAKE_P, "tesseroid_layer": MAKE_T, "prism_layer.update_top_bottom": MAKE_P,
                "tesseroid_layer.update_top_bottom": MAKE_T})

def _irregular(o, *axes):
    return dict(o, lengths={}, dims=_surface_dims(0), vars=dict(o["vars"], **{n: _axis(*b, bend=0.25) for n, b in axes}))


BAD_P = _irregular(MAKE_P, ("easting", (-50.0, 50.0, 0.5, 7.0)), ("northing", (-60.0, 60.0, 0.6, 8.0)))
BAD_T = _irregular(MAKE_T, ("longitude", (-100.0, 300.0, 0.5, 100.0)), ("latitude", (-70.0, 70.0, 0.4, 5.0)))
AROUND = dict(MAKE_T, vars=dict(MAKE_T["vars"], longitude=_around))

# as many data, weights and coordinates as points; as many coefficients as sources
EQS = dict(lengths={**{(k, 0): ("data", 0) for k in ("E", "N", "U", "data", "weights")},
                    **{("Q" + c, 0): ("Q", 0) for c in "enu"}, **{("S" + c, 0): ("S", 0) for c in "enu"},
                    ("coefs_", 0): ("S", 0)})
for _c in Driver.EQS_ARGS:
    for _m in ("fit", "predict", "jacobian", "estimate_required_memory"):
        OPTIONS[f"{_c}.{_m}"] = EQS

# Inputs that a call may have to refuse: each valuation breaks one rule, or none.


def _mode(v, n, calm=1.5):
    from .gvn import _u

    k = int(_u(v.seed, "mode") * n * calm)
    return k if k < n else None


def _bad_prism(v, ix):
    if len(ix) > 1 and isinstance(ix[1], int) and not isinstance(ix[1], bool):
        k, c = ix[0], ix[1]
        if _mode(v, 3) == c // 2 and _hit(v, k):
            return _prism_profile(v, (k, c - 1 if c % 2 else c + 1))
    return _prism_profile(v, ix)


def _hit(v, k):
    from .gvn import _u

    return _u(v.seed, "which source", k) < 0.6


def _bad_tess(v, ix):
    x = _tess_profile(v, ix)
    if len(ix) < 2 or not isinstance(ix[1], int) or isinstance(ix[1], bool):
        return x
    k, c = ix[0], ix[1]
    mode = _mode(v, 13, 3.0)
    if mode is None or not _hit(v, k):
        return x
    swap = {0: 1, 1: 0, 2: 3, 3: 2, 4: 5, 5: 4}
    if mode < 3 and c // 2 == mode:
        return _tess_profile(v, (k, swap[c]))
    if mode == 3 and c == 2:
        return x - 100.0
    if mode == 4 and c == 3:
        return x + 100.0
    if mode == 5 and c in (2, 3):
        return x + 130.0
    if mode == 6 and c in (2, 3):
        return x - 130.0
    if mode == 7 and c == 4:
        return x - 7.0e6
    if mode == 8 and c in (4, 5):
        return x - 7.0e6
    if mode == 9 and c in (0, 1):
        return x + 300.0
    if mode == 10 and c in (0, 1):
        return x - 200.0
    if mode == 11 and c == 0:
        return x - 200.0
    if mode == 12 and c == 1:
        return x + 362.0
    return x


INVALID = {
    "prism_gravity": dict(PRISMS, profile={"prisms": _bad_prism}),
    "prism_magnetic": dict(PRISMS, profile={"prisms": _bad_prism}),
    "tesseroid_gravity": dict(TESS, profile={
        "tesseroids": _bad_tess, "E": _aimed(-180.0, 360.0, 0, _bad_tess), "N": _aimed(-60.0, 60.0, 1, _bad_tess),
        "U": _aimed(5.5e6, 6.5e6, 2, _bad_tess)}),
}
INVALID.update({k: OTHER_DATES for k in ("IGRF14.predict", "IGRF14.grid")})
INVALID.update({k: BAD_GRID for k in Driver.TRANSFORMS})
INVALID.update({k: DOUBLE_GRID for k in ("derivative_easting", "derivative_northing")})
for _k, _o in (("prism_layer", BAD_P), ("tesseroid_layer", BAD_T)):
    INVALID[_k] = _o
    for _m in ("spacing", "boundaries", "update_top_bottom", "get_prism", "get_tesseroid"):
        INVALID[_k + "." + _m] = _o
