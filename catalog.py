"""Which scenarios decide which property, at which sizes."""
OPS = ("filter", "smooth")
CLS = ("kf", "ekf")


def S(name, **k):
    """Cross product over every parameter given as a list."""
    out = [{}]
    for key, v in k.items():
        out = [dict(o, **{key: x}) for o in out for x in (v if isinstance(v, list) else [v])]
    return [(name, o) for o in out]


def lim(scs, **limits):
    return [(n, p, limits) for n, p in scs]


FORMS = dict(xform="mat", zform="flat", rform="flat", qform="flat")
QUICK, THOROUGH = {}, {}

QUICK["C01"] = (S("kf_predict", n=[1, 2, 3, 4], p=1, control=["yes", "nan", "none"]) + S("kf_predict", n=[2, 3], p=[2, 3])
                + S("kf_predict", n=2, p=1, control="yes", positional=True))
THOROUGH["C01"] = S("kf_predict", n=[1, 2, 3, 4, 5, 6, 7], p=[1, 2, 4], control=["yes", "nan", "none"])

QUICK["C02"] = (S("kf_update", n=[1, 2, 3], m=[1, 2, 3]) + S("kf_update", n=[2, 4], m=1, zscalar=True, rscalar=True)
                + S("kf_update", n=1, m=[4]) + S("kf_update", n=4, m=2) + S("kf_update", n=2, m=2, positional=True))
THOROUGH["C02"] = S("kf_update", n=[4, 5, 6], m=[1, 2, 3]) + S("kf_update", n=[1, 2, 3], m=[4])

for pid, sc in (("C03", "kf_filter"), ("C04", "kf_smooth")):
    QUICK[pid] = (S(sc, N=3, n=2, m=2) + S(sc, N=150, n=1, m=1, p=1) + S(sc, N=2, n=3, m=2, p=2)
                  + S(sc, N=[1, 3], n=1, m=1, **FORMS) + S(sc, N=1, n=2, m=1, p=[None, 1])
                  + S(sc, N=3, n=2, m=1, p=1, rform="flat", zform=["flat", "vec"]) + S(sc, N=3, n=2, m=1, qform="zero")
                  + S(sc, N=2, n=1, m=3) + S(sc, N=2, n=4, m=1) + S(sc, N=5, n=2, m=1, p=1) + S(sc, N=[12, 70], n=2, m=1))
    THOROUGH[pid] = (S(sc, N=[4, 6, 10], n=2, m=2, p=[None, 2]) + S(sc, N=[2, 3, 5], n=3, m=[1, 2, 3], p=1)
                     + S(sc, N=3, n=[4, 5, 6], m=[1, 2]) + S(sc, N=[300, 600], n=1, m=1) + S(sc, N=[130], n=2, m=1)
                     + S(sc, N=2, n=2, m=[3, 4]))

QUICK["C05"] = (S("ekf_predict", n=[1, 2, 3, 4], p=[1, 2]) + S("ekf_update", n=[1, 2, 3], m=[1, 2, 3])
                + S("ekf_update", n=2, m=1, zform="flat") + S("ekf_predict", n=2, positional=True)
                + S("ekf_update", n=2, m=2, positional=True) + S("ekf_update", n=4, m=2))
THOROUGH["C05"] = S("ekf_predict", n=[5, 6], p=[1, 3]) + S("ekf_update", n=[4, 5, 6], m=[1, 2, 3]) + S("ekf_update", n=[1, 2, 3], m=4)

for pid, sc in (("C06", "ekf_filter"), ("C07", "ekf_smooth")):
    QUICK[pid] = (S(sc, N=3, n=2, m=2) + S(sc, N=3, n=2, m=1, p=1, zform="flat", rform="flat") + S(sc, N=1, n=2, m=1, p=[None, 1])
                  + S(sc, N=2, n=3, m=1, p=2) + S(sc, N=3, n=1, m=1, zform="flat", rform="flat") + S(sc, N=2, n=1, m=3)
                  + S(sc, N=4, n=1, m=1, p=1) + S(sc, N=2, n=2, m=1, qform="zero")
                  + S(sc, N=70 if sc == "ekf_filter" else 40, n=1, m=1, p=1) + S(sc, N=8, n=2, m=1) + S(sc, N=18, n=1, m=1))
    THOROUGH[pid] = (S(sc, N=[4, 6], n=[1, 2], m=[1, 2], p=[None, 1]) + S(sc, N=[12, 30], n=2, m=[1, 2]) + S(sc, N=[2, 3], n=3, m=[1, 2, 3], p=1)
                     + S(sc, N=2, n=[4, 5], m=[1, 2]))

QUICK["C08"] = (S("ekf_is_kf", N=3, n=2, m=2, control=["none", "yes", "affine"], op=list(OPS))
                + S("ekf_is_kf", N=3, n=1, m=1, control="yes", op=list(OPS)) + S("ekf_is_kf", N=1, n=2, m=1, op=list(OPS))
                + S("ekf_is_kf", N=6, n=2, m=1, op="smooth", control="yes") + S("ekf_is_kf", N=2, n=3, m=1, op=list(OPS), control="yes")
                + S("ekf_is_kf", N=70, n=1, m=1, op="smooth"))
THOROUGH["C08"] = (S("ekf_is_kf", N=[4, 6], n=2, m=[1, 2], control=["none", "yes", "affine"], op=list(OPS))
                   + S("ekf_is_kf", N=3, n=[3, 4], m=[1, 2], control=["yes"], op=list(OPS)))

QUICK["C09"] = (S("control_rows", N=3, n=2, m=1, p=2, op=list(OPS), how=["U", "B"]) + S("control_forms", N=2, n=2, m=1, op=list(OPS))
                + S("control_forms", N=3, n=1, m=1, op="smooth") + S("control_step", n=[1, 2], p=[1, 2]) + S("control_used", n=[1, 2], p=[1, 2])
                + S("callback_args", N=3, n=2, m=1, op=list(OPS), given=[True, False])
                + S("callback_args", N=2, n=2, m=2, p=2, op=list(OPS), given=[False, "partly"]) + S("callback_step", n=[1, 2], p=[1, 2]) + S("control_rows", N=5, n=1, m=1, p=1, op="filter", how=["U", "B"]))
THOROUGH["C09"] = (S("control_rows", N=[4, 5, 6], n=2, m=1, p=2, op=list(OPS), how=["U", "B"]) + S("control_forms", N=4, n=2, m=2, op=list(OPS))
                   + S("control_step", n=[3, 4], p=[3, 4]) + S("control_used", n=[3, 4], p=[3, 4])
                   + S("callback_args", N=5, n=3, m=2, op=list(OPS), given=[True, False])
                   + S("callback_args", N=3, n=2, m=2, p=2, op=list(OPS), given=["partly"]) + S("callback_step", n=3, p=[3, 4]))

QUICK["C10"] = (S("cov_predict", cls=list(CLS), n=[1, 2, 3]) + S("cov_update", cls=list(CLS), n=[1, 2, 3], m=[1, 2])
                + S("cov_update", cls=list(CLS), n=3, m=3) + S("cov_filter", cls=list(CLS), N=[1, 3], n=1, m=1)
                + S("cov_filter", cls=list(CLS), N=2, n=2, m=[1]))
THOROUGH["C10"] = (S("cov_predict", cls=list(CLS), n=[4, 5]) + S("cov_update", cls=list(CLS), n=4, m=[1, 2, 3])
                   + S("cov_filter", cls=list(CLS), N=[3], n=2, m=[1, 2]) + S("cov_filter", cls=list(CLS), N=6, n=1, m=1))

QUICK["C11"] = (S("cov_smooth", cls=list(CLS), N=[1, 2, 3, 4], n=1, m=1) + S("cov_smooth", cls=list(CLS), N=[2, 3], n=2, m=1)
                + S("cov_smooth", cls=list(CLS), N=2, n=2, m=2))
THOROUGH["C11"] = (S("cov_smooth", cls=list(CLS), N=[5, 6], n=1, m=1) + S("cov_smooth", cls=list(CLS), N=[3, 4], n=2, m=[1, 2])
                   + S("cov_smooth", cls=list(CLS), N=2, n=3, m=1))

QUICK["C12"] = (S("orthogonal", op="filter", N=[1, 2, 3, 4], n=1, m=1) + S("orthogonal", op="filter", N=[2, 3], n=2, m=[1])
                + S("orthogonal", op="filter", N=2, n=2, m=2) + S("orthogonal", op="filter", N=2, n=1, m=2) + S("orthogonal", op="filter", N=2, n=3, m=1))
THOROUGH["C12"] = S("orthogonal", op="filter", N=[3, 4], n=2, m=[1, 2]) + S("orthogonal", op="filter", N=3, n=3, m=1) + S("orthogonal", op="filter", N=[5, 6], n=1, m=1)

QUICK["C13"] = (S("orthogonal", op="smooth", N=[1, 2, 3, 4], n=1, m=1) + S("orthogonal", op="smooth", N=[2, 3], n=2, m=[1])
                + S("orthogonal", op="smooth", N=2, n=2, m=2)
                + S("map_trajectory", N=[1, 2, 3, 4], n=1, m=1) + S("map_trajectory", N=[2, 3], n=2, m=[1, 2], p=[None, 1])
                + S("map_trajectory", N=2, n=3, m=1))
THOROUGH["C13"] = (S("orthogonal", op="smooth", N=[3], n=2, m=[2]) + S("orthogonal", op="smooth", N=3, n=3, m=1) + S("orthogonal", op="smooth", N=4, n=2, m=1)
                   + S("map_trajectory", N=4, n=2, m=2, p=1) + S("map_trajectory", N=3, n=3, m=[1, 2]) + S("map_trajectory", N=[6, 8], n=1, m=1))

QUICK["C14"] = S("min_variance", cls=list(CLS), n=[1, 2, 3], m=[1, 2])
THOROUGH["C14"] = S("min_variance", cls=list(CLS), n=[3, 4], m=[2, 3])

QUICK["C15"] = (S("causal", cls=list(CLS), N=3, n=2, m=1, p=[None, 1]) + S("resume", cls=list(CLS), N=3, n=2, m=1, p=[None, 1])
                + S("last_smoothed", cls=list(CLS), N=[1, 3], n=2, m=1, p=[None, 1]) + S("causal", cls=list(CLS), N=8, n=1, m=1, p=1) + S("causal", cls="kf", N=70, n=1, m=1)
                + S("resume", cls=list(CLS), N=6, n=1, m=1, p=1) + S("resume", cls="kf", N=70, n=1, m=1) + S("causal", cls=list(CLS), N=2, n=1, m=2))
THOROUGH["C15"] = (S("causal", cls=list(CLS), N=[4, 5], n=2, m=2, p=[None, 1]) + S("resume", cls=list(CLS), N=[4, 5], n=2, m=2, p=[None, 1])
                   + S("last_smoothed", cls=list(CLS), N=[4, 5], n=3, m=1, p=1) + S("causal", cls=list(CLS), N=20, n=1, m=1) + S("resume", cls="ekf", N=16, n=1, m=1))

QUICK["C16"] = (S("pure", cls=list(CLS), N=2, n=2, m=1, op=list(OPS), p=[None, 1]) + S("pure_step", cls=list(CLS), n=2, m=[1, 2], step=["predict", "update"])
                + S("pure_step", cls=list(CLS), n=1, m=1, step=["predict", "update"]) + S("pure", cls=list(CLS), N=[1, 3], n=1, m=1, op=list(OPS), p=1))
THOROUGH["C16"] = S("pure", cls=list(CLS), N=[3, 4], n=3, m=2, op=list(OPS), p=2) + S("pure_step", cls=list(CLS), n=4, m=3, step=["predict", "update"])

QUICK["C17"] = (S("two_filters", cls=list(CLS), N=2, n=2, m=1, p=[None, 1]) + S("two_filters", cls=list(CLS), N=2, n=1, m=1, n2=2)
                + S("history", cls=list(CLS), N=2, n=1, m=1, steps=2) + S("reused_buffer", cls=list(CLS), N=2, n=2, m=1, op=list(OPS), p=[None, 1])
                + S("reused_buffer", cls=list(CLS), N=3, n=1, m=2, op=list(OPS)))
THOROUGH["C17"] = (S("history", cls="kf", N=2, n=1, m=1, steps=3) + S("history", cls=list(CLS), N=2, n=2, m=1, steps=2)
                   + S("history", cls=list(CLS), N=3, n=1, m=1, steps=2) + S("reused_buffer", cls=list(CLS), N=4, n=3, m=2, op=list(OPS)))

QUICK["C18"] = S("gain_log", cls=list(CLS), N=3, n=2, m=1) + S("gain_log", cls=list(CLS), N=2, n=1, m=2) + S("gain_log", cls=list(CLS), N=2, n=2, m=2, p=1)
THOROUGH["C18"] = S("gain_log", cls=list(CLS), N=[4, 5], n=3, m=[1, 2])

QUICK["C19"] = (S("nan_all", shape=[(1,), (2,), (5,), (1, 1), (2, 2), (3, 2), (2, 2, 2), (3, 1, 2)]) + S("nan_all", shape=[(4, 3), (4,)], view=["reverse", "every other", "T"])
                + S("nan_all", shape=[(3,), (2, 2)], dtype="i8") + S("nan_all_inf", size=[1, 2, 3])
                + S("placeholder", shape=[(1,), (4,), (2, 1), (3, 2), (2, 2, 2), (3, 1, 1)], dtype=["f8", "i8", "f4"])
                + S("placeholder", shape=[(3,), (2, 2)], nan=["each", "all"])
                + S("passed_through", shape=[(1,), (3, 2), (2, 2, 2), (1, 1)], ref_shape=[(3,), (2, 2)])
                + S("passed_through", shape=[(2,), (2, 2)], ref_shape=(2, 2), dtype=["i8", "f8"], ref_dtype=["i8", "f8"], keyword=True))
THOROUGH["C19"] = (S("nan_all", shape=[(20,), (5, 6), (3, 4, 5), (50,), (100, 2)]) + S("nan_all_inf", size=[4, 5]) + S("placeholder", shape=[(50,), (10, 5, 5)], dtype=["f8", "i8"])
                   + S("passed_through", shape=[(20, 3), (4, 3, 3)], ref_shape=[(20,), (4, 3, 3)]))

QUICK["C20"] = (S("integer_input", cls="kf", N=2, n=2, m=1, op="smooth", which=["A", "B", "H", "Q", "R", "x0", "P0", "Z", "U", "all"])
                + S("integer_input", cls="ekf", N=2, n=2, m=1, op="smooth", which=["Q", "R", "x0", "P0", "Z", "U", "all"])
                + S("integer_input", cls="kf", N=3, n=1, m=1, op="filter", which=["A", "Z", "x0", "all"])
                + S("integer_step", cls=list(CLS), n=2, m=1, step=["predict", "update"]) + S("integer_step", cls=list(CLS), n=2, m=2, step=["update"]))
THOROUGH["C20"] = (S("integer_input", cls="kf", N=[3, 4], n=2, m=2, op=list(OPS), which=["A", "H", "x0", "P0", "Z", "all"])
                   + S("integer_step", cls=list(CLS), n=3, m=2, step=["predict", "update"]))

QUICK["C21"] = S("noise_free", cls=list(CLS), N=4, n=2, m=2, op=list(OPS), p=1) + S("noise_free", cls=list(CLS), N=3, n=1, m=1, op=list(OPS)) + S("noise_free", cls="kf", N=70, n=1, m=1, op="smooth")
THOROUGH["C21"] = S("noise_free", cls=list(CLS), N=5, n=3, m=2, op=list(OPS), p=1) + S("noise_free", cls="kf", N=12, n=3, m=3, op=list(OPS), p=2)

QUICK["C22"] = (S("state_basis", N=2, n=2, m=1, op=list(OPS), kind=["scale", "shear", "swap", "flip"])
                + S("state_basis", N=3, n=2, m=1, op="smooth", kind=["shear", "swap"])
                + S("sensor_basis", N=2, n=2, m=2, op=list(OPS), kind=["scale", "shear", "swap", "flip"])
                + S("superposition", N=3, n=2, m=1, op=list(OPS)) + S("data_free_covariance", N=3, n=2, m=1, op=list(OPS))
                + S("data_free_covariance", N=70, n=1, m=1, op=list(OPS)))
THOROUGH["C22"] = (S("state_basis", N=3, n=2, m=1, op=list(OPS), kind=["scale", "shear", "swap", "flip"])
                   + S("state_basis", N=4, n=2, m=1, op=list(OPS), kind=["shear"])
                   + S("sensor_basis", N=3, n=2, m=2, op=list(OPS), kind=["scale", "shear", "swap", "flip"])
                   + S("superposition", N=5, n=2, m=2, op=list(OPS)) + S("data_free_covariance", N=[6, 30], n=[1, 2], m=2, op=list(OPS)))

QUICK["C25"] = (S("float_R", cls=list(CLS), N=2, n=2, op=list(OPS), zform=["vec", "flat"], p=[None, 1]) + S("input_forms", N=3, op=list(OPS))
                + S("float_R", cls=list(CLS), N=1, n=1, op=list(OPS), zform="flat")
                + S("flat_R", cls=list(CLS), N=2, n=1, op="smooth", extra=[0, 1, 2]) + S("flat_R", cls=list(CLS), N=2, n=2, op="filter", extra=[0, 1, 2]))
THOROUGH["C25"] = S("flat_R", cls=list(CLS), N=4, n=2, op=list(OPS), extra=[0, 1, 3], p=[None, 1]) + S("float_R", cls=list(CLS), N=4, n=3, op=list(OPS), zform=["vec", "flat"]) + S("input_forms", N=[1, 6], op=list(OPS))

QUICK["C26"] = S("monotone", what=["P", "R"], n=[1, 2, 3], m=[1, 2]) + S("monotone_predict", n=[1, 2, 3]) + S("monotone_run", what=list("PQR"), N=3, n=1, m=1) + S("monotone_run", what=list("PQR"), N=2, n=2, m=1)
THOROUGH["C26"] = S("monotone", what=["P", "R"], n=[2, 3], m=[2, 3]) + S("monotone_predict", n=[4, 5]) + S("monotone_run", what=list("PQR"), N=[4, 6], n=1, m=1) + S("monotone_run", what=list("PQR"), N=3, n=2, m=[1, 2])

QUICK["C27"] = S("sequential", cls=list(CLS), n=[1, 2, 3], m1=1, m2=1) + S("sequential", cls=list(CLS), n=2, m1=1, m2=2)
THOROUGH["C27"] = S("sequential", cls=list(CLS), n=[3, 4], m1=1, m2=2) + S("sequential", cls=list(CLS), n=2, m1=2, m2=2)

QUICK["C28"] = S("stepwise", cls=list(CLS), N=3, n=2, m=1, p=[None, 1]) + S("stepwise", cls=list(CLS), N=1, n=2, m=2, p=1) + S("stepwise", cls="kf", N=150, n=1, m=1, p=1) + S("stepwise", cls="ekf", N=30, n=1, m=1)
THOROUGH["C28"] = S("stepwise", cls=list(CLS), N=[4, 5], n=[2, 3], m=2, p=[None, 1]) + S("stepwise", cls="kf", N=400, n=1, m=1)

QUICK["C29"] = S("blind", cls=list(CLS), n=[1, 2, 3], m=[1, 2])
THOROUGH["C29"] = S("blind", cls=list(CLS), n=[4, 5], m=[2, 3])


# small sizes first: they give the clearest counterexamples
QUICK["C02"] += S("kf_update", n=[2, 4], m=4) + S("kf_update", n=5, m=[1, 2]) + S("kf_update", n=[1, 3], m=1, zscalar=True, rscalar=True)
for pid, sc in (("C03", "kf_filter"), ("C04", "kf_smooth")):
    QUICK[pid] += (S(sc, N=2, n=[1, 2], m=1, p=[None, 1]) + S(sc, N=2, n=3, m=3) + S(sc, N=2, n=1, m=4) + S(sc, N=1, n=5, m=1)
                   + S(sc, N=4, n=1, m=1, p=1) + S(sc, N=2, n=4, m=2, p=1))
QUICK["C05"] += S("ekf_predict", n=5) + S("ekf_update", n=5, m=1) + S("ekf_update", n=[1, 4], m=4)
for pid, sc in (("C06", "ekf_filter"), ("C07", "ekf_smooth")):
    QUICK[pid] += S(sc, N=2, n=[1, 2], m=1, p=[None, 1]) + S(sc, N=2, n=3, m=3) + S(sc, N=2, n=4, m=1)
QUICK["C08"] += (S("ekf_is_kf", N=[1, 2], n=1, m=1, op=list(OPS), control=["none", "yes"]) + S("ekf_is_kf", N=2, n=3, m=3, op=list(OPS))
                 + S("ekf_is_kf", N=2, n=4, m=1, op=list(OPS)))
QUICK["C09"] += S("control_rows", N=16, n=1, m=1, p=1, op=list(OPS), how=["U", "B"], only=["absent", "present"])
THOROUGH["C09"] += S("control_rows", N=60, n=1, m=1, p=1, op="filter", how=["U", "B"], only=["absent", "present"])
QUICK["C10"] += S("cov_filter", cls=list(CLS), N=2, n=1, m=1) + S("cov_update", cls=list(CLS), n=[1, 4], m=3) + S("cov_predict", cls=list(CLS), n=4)
QUICK["C12"] += S("orthogonal", op="filter", N=2, n=1, m=3) + S("orthogonal", op="filter", N=1, n=2, m=[1, 2, 3])
QUICK["C13"] += S("orthogonal", op="smooth", N=2, n=1, m=[2, 3]) + S("orthogonal", op="smooth", N=2, n=3, m=1)
QUICK["C14"] += S("min_variance", cls=list(CLS), n=[1, 2], m=[3, 4]) + S("min_variance", cls=list(CLS), n=4, m=1)
QUICK["C15"] += S("causal", cls=list(CLS), N=2, n=1, m=1, p=[None, 1]) + S("resume", cls=list(CLS), N=2, n=1, m=1, p=[None, 1]) + S("causal", cls=list(CLS), N=2, n=3, m=3)
QUICK["C16"] += S("pure", cls=list(CLS), N=2, n=3, m=3, op=list(OPS), p=2) + S("pure", cls=list(CLS), N=8, n=1, m=1, op="smooth")
QUICK["C18"] += (S("gain_log", cls=list(CLS), N=[1, 2], n=1, m=1) + S("gain_log", cls=list(CLS), N=2, n=3, m=[1, 3]) + S("gain_log", cls=list(CLS), N=1, n=4, m=2)
                 + S("gain_log", cls=list(CLS), N=20, n=1, m=1))
QUICK["C20"] += (S("integer_input", cls="kf", N=2, n=1, m=1, op=list(OPS), which=["A", "B", "H", "Q", "R", "x0", "P0", "Z", "U", "all"])
                 + S("integer_input", cls="ekf", N=2, n=1, m=1, op=list(OPS), which=["Q", "R", "x0", "P0", "Z", "U", "all"])
                 + S("integer_input", cls="kf", N=2, n=3, m=2, op="smooth", which=["x0", "P0", "Z", "all"]))
QUICK["C21"] += (S("noise_free", cls=list(CLS), N=[1, 2, 3], n=1, m=1, op=list(OPS), p=1) + S("noise_free", cls=list(CLS), N=2, n=2, m=[1, 3], op=list(OPS))
                 + S("noise_free", cls=list(CLS), N=2, n=3, m=1, op=list(OPS)))
QUICK["C22"] += (S("state_basis", N=[1, 2], n=1, m=1, op=list(OPS), kind=["scale", "flip"]) + S("state_basis", N=1, n=[2, 3], m=1, op=list(OPS), kind=["scale", "shear", "swap", "flip"])
                 + S("sensor_basis", N=1, n=1, m=[1, 2, 3], op=list(OPS), kind=["scale", "flip"]) + S("sensor_basis", N=1, n=1, m=3, op=list(OPS), kind=["shear", "swap"])
                 + S("superposition", N=[1, 2], n=1, m=1, op=list(OPS)) + S("data_free_covariance", N=2, n=[1, 3], m=[1, 2], op=list(OPS)))
QUICK["C25"] += S("float_R", cls=list(CLS), N=3, n=[1, 2], op=list(OPS), zform=["vec", "flat"]) + S("flat_Z", cls=list(CLS), N=[1, 2, 3, 5], n=[1, 2, 3], op=list(OPS), p=[None, 1])
THOROUGH["C25"] += S("flat_Z", cls=list(CLS), N=12, n=2, op=list(OPS))
QUICK["C26"] += S("monotone", what=["P", "R"], n=[1, 2], m=3)
QUICK["C27"] += S("sequential", cls=list(CLS), n=1, m1=[1, 2], m2=2) + S("sequential", cls=list(CLS), n=2, m1=2, m2=1)
QUICK["C28"] += (S("stepwise", cls=list(CLS), N=2, n=1, m=[1, 2], p=[None, 1]) + S("stepwise", cls=list(CLS), N=2, n=3, m=3) + S("stepwise", cls=list(CLS), N=2, n=4, m=1)
                 + S("stepwise", cls=list(CLS), N=60, n=2, m=1) + S("stepwise", cls="ekf", N=70, n=1, m=1))
QUICK["C29"] += S("blind", cls=list(CLS), n=[1, 2], m=[3, 4]) + S("blind", cls=list(CLS), n=[4, 5], m=1)

# more shapes: several sensors with few states, and the other way round
for pid, sc in (("C06", "ekf_filter"), ("C07", "ekf_smooth")):
    QUICK[pid] += S(sc, N=2, n=2, m=3) + S(sc, N=3, n=1, m=2, p=1)
QUICK["C08"] += S("ekf_is_kf", N=2, n=1, m=2, op=list(OPS)) + S("ekf_is_kf", N=2, n=2, m=3, op=list(OPS))
QUICK["C09"] += (S("control_forms", N=2, n=1, m=2, op=list(OPS)) + S("control_forms", N=2, n=2, m=2, op="smooth")
                 + S("control_rows", N=3, n=1, m=2, p=2, op=list(OPS), how=["U", "B"]))
QUICK["C10"] += S("cov_filter", cls=list(CLS), N=2, n=[1, 2], m=2) + S("cov_filter", cls=list(CLS), N=2, n=3, m=1)
QUICK["C11"] += S("cov_smooth", cls=list(CLS), N=2, n=1, m=2)
QUICK["C15"] += (S("resume", cls=list(CLS), N=3, n=1, m=2, p=[None, 1]) + S("resume", cls=list(CLS), N=3, n=2, m=2) + S("resume", cls=list(CLS), N=2, n=1, m=3)
                 + S("causal", cls=list(CLS), N=3, n=1, m=2, p=1) + S("last_smoothed", cls=list(CLS), N=2, n=2, m=2) + S("last_smoothed", cls=list(CLS), N=3, n=1, m=2))
QUICK["C16"] += S("pure", cls=list(CLS), N=2, n=1, m=2, op=list(OPS)) + S("pure", cls=list(CLS), N=3, n=2, m=2, op="smooth", p=1)
QUICK["C17"] += S("two_filters", cls=list(CLS), N=2, n=[1, 2], m=2)
QUICK["C20"] += S("integer_input", cls="kf", N=2, n=1, m=[2, 3], op="smooth", which=["H", "R", "Z", "all"])
QUICK["C20"] += (S("integer_input", cls="kf", N=2, n=[1, 2], m=1, op=list(OPS), which=["controls", "dynamics", "covariances", "everything"])
                 + S("integer_input", cls="ekf", N=2, n=[1, 2], m=1, op=list(OPS), which=["covariances", "everything"])
                 + S("integer_input", cls=list(CLS), N=2, n=1, m=1, op="filter", which="data", p=2))
QUICK["C21"] += S("noise_free", cls=list(CLS), N=2, n=1, m=2, op=list(OPS), p=1) + S("noise_free", cls=list(CLS), N=3, n=2, m=1, op=list(OPS))
QUICK["C22"] += (S("state_basis", N=2, n=1, m=2, op=list(OPS), kind=["scale", "flip"]) + S("state_basis", N=2, n=2, m=2, op="filter", kind=["shear", "swap"])
                 + S("sensor_basis", N=2, n=1, m=2, op=list(OPS), kind=["scale", "shear", "swap"]) + S("superposition", N=2, n=1, m=2, op=list(OPS)) + S("superposition", N=2, n=2, m=2, op=list(OPS)))
QUICK["C26"] += S("monotone_run", what=list("PQR"), N=2, n=1, m=2)
QUICK["C28"] += S("stepwise", cls=list(CLS), N=3, n=1, m=2, p=1)

# longer series, more states, more data: cheap with one state or one sensor
QUICK["C01"] += S("kf_predict", n=[6, 8], p=[1, 2], control=["yes", "none"])
QUICK["C02"] += S("kf_update", n=2, m=5) + S("kf_update", n=6, m=2) + S("kf_update", n=8, m=1)
THOROUGH["C02"] += S("kf_update", n=1, m=6) + S("kf_update", n=[9, 10], m=1)
THOROUGH["C01"] += S("kf_predict", n=[10, 12], p=2)
QUICK["C05"] += S("ekf_predict", n=8) + S("ekf_update", n=8, m=1) + S("ekf_update", n=2, m=5)
for pid, sc in (("C06", "ekf_filter"), ("C07", "ekf_smooth")):
    QUICK[pid] += S(sc, N=20, n=2, m=1, p=1)
QUICK["C08"] += S("ekf_is_kf", N=20, n=2, m=1, op=list(OPS), control="yes")
QUICK["C09"] += (S("control_partial", N=2, n=[1, 2], m=1, p=2, op=list(OPS)) + S("control_partial", N=3, n=1, m=1, p=1, op="filter")
                 + S("control_partial", N=3, n=1, m=1, p=2, op="smooth"))
QUICK["C10"] += S("cov_filter", cls=list(CLS), N=[8, 12], n=1, m=1)
QUICK["C11"] += S("cov_smooth", cls=list(CLS), N=8, n=1, m=1)
QUICK["C12"] += S("orthogonal", op="filter", N=[6, 8], n=1, m=1)
QUICK["C13"] += S("orthogonal", op="smooth", N=6, n=1, m=1) + S("map_trajectory", N=8, n=1, m=1)
QUICK["C14"] += S("min_variance", cls=list(CLS), n=[6, 8], m=1)
QUICK["C16"] += (S("pure", cls=list(CLS), N=40, n=1, m=1, op=list(OPS), p=1) + S("own_functions", N=[1, 2, 3], n=[1, 2], op=list(OPS), kind=["same", "stored"]))
THOROUGH["C16"] += S("own_functions", N=12, n=[1, 3], op=list(OPS), kind=["same", "stored"])
QUICK["C17"] += S("two_filters", cls=list(CLS), N=12, n=1, m=1) + S("history", cls=list(CLS), N=12, n=1, m=1, steps=1)
QUICK["C18"] += S("gain_log", cls=list(CLS), N=120, n=1, m=1) + S("gain_log", cls=list(CLS), N=40, n=2, m=2)
QUICK["C19"] += (S("nan_all", shape=[(70,), (12, 10), (1200,), (5, 6, 7)]) + S("nan_all", shape=(30, 4), view=["T", "reverse", "every other"])
                 + S("placeholder", shape=[(300,), (40, 3), (8, 3, 3)], dtype=["f8", "i8"]) + S("passed_through", shape=(200, 2), ref_shape=(200, 3)))
QUICK["C20"] += S("integer_input", cls=list(CLS), N=30, n=1, m=1, op=list(OPS), which="everything")
QUICK["C21"] += S("noise_free", cls="ekf", N=40, n=1, m=1, op="smooth", p=1) + S("noise_free", cls="kf", N=12, n=2, m=1, op="smooth", p=1)
QUICK["C22"] += (S("state_basis", N=8, n=1, m=1, op=list(OPS), kind="scale") + S("sensor_basis", N=8, n=1, m=1, op=list(OPS), kind="scale")
                 + S("superposition", N=8, n=1, m=1, op=list(OPS)))
QUICK["C25"] += S("flat_Z", cls=list(CLS), N=30, n=1, op="smooth") + S("flat_R", cls=list(CLS), N=30, n=1, op="smooth", extra=1) + S("float_R", cls=list(CLS), N=30, n=1, op="smooth")
QUICK["C26"] += S("monotone_run", what=list("PQR"), N=[6, 8], n=1, m=1)
QUICK["C28"] += S("stepwise", cls=list(CLS), N=12, n=3, m=2, p=1)
QUICK["C29"] += S("blind", cls=list(CLS), n=[6, 8], m=1)

# steps repeated with one argument changed
for pid, cls, step in (("C01", "kf", "predict"), ("C02", "kf", "update"), ("C05", "ekf", "predict"), ("C05", "ekf", "update")):
    QUICK[pid] += S("again", cls=cls, step=step, n=[1, 2], m=1, how=["new", "refilled"])
    THOROUGH[pid] += S("again", cls=cls, step=step, n=[2, 3], m=2, how=["new", "refilled"])
QUICK["C17"] += S("reused_buffer", cls=list(CLS), N=2, n=[1, 2], m=1, op=list(OPS), p=1)
QUICK["C17"] += S("own_functions", N=[1, 2, 3], n=[1, 2], op=list(OPS), kind=["same", "stored"])
QUICK["C12"] += S("orthogonal", op="filter", N=12, n=1, m=1)
QUICK["C13"] += S("orthogonal", op="smooth", N=8, n=1, m=1) + S("map_trajectory", N=12, n=1, m=1)
QUICK["C11"] += S("cov_smooth", cls=list(CLS), N=12, n=1, m=1)
QUICK["C26"] += S("monotone_run", what=list("PQR"), N=12, n=1, m=1)
QUICK["C22"] += S("state_basis", N=12, n=1, m=1, op="smooth", kind="scale")


def size(sc):
    p = sc[1]
    return (p.get("N", 1) * p.get("n", p.get("n2", 1)) ** 2 * (1 + p.get("m", 1)) * (1 + bool(p.get("p"))), p.get("steps", 0))


def scenarios(pid, tier):
    out = []
    for sc in sorted(QUICK[pid], key=size) + (sorted(THOROUGH[pid], key=size) if tier == "thorough" else []):
        if sc[:2] not in [o[:2] for o in out]:
            out.append(sc)
    return out

QUICK["C23"] = (S("subsystems", cls=list(CLS), N=2, n1=1, n2=1, m1=1, m2=1, op=list(OPS), p=[None, 1])
                + S("subsystems", cls=list(CLS), N=2, n1=[1, 2], n2=2, m1=1, m2=1, op=list(OPS)) + S("subsystems", cls=list(CLS), N=3, n1=2, n2=1, m1=1, m2=2, op=list(OPS), p=1)
                + S("subsystems", cls=list(CLS), N=1, n1=1, n2=2, m1=2, m2=1, op="filter", p=2) + S("subsystems", cls=list(CLS), N=20, n1=1, n2=1, m1=1, m2=1, op="smooth", p=1)
                + S("subsystems", cls=list(CLS), N=2, n1=3, n2=1, m1=1, m2=1, op=list(OPS)))
THOROUGH["C23"] = (S("subsystems", cls=list(CLS), N=[2, 4], n1=[2, 3], n2=[2, 3], m1=[1, 2], m2=2, op=list(OPS), p=1)
                   + S("subsystems", cls=list(CLS), N=60, n1=1, n2=1, m1=1, m2=1, op=list(OPS), p=1))

QUICK["C24"] = (S("idle_step", N=2, n=1, m=1, op=list(OPS), at=[0, 1, 2], p=[None, 1]) + S("idle_step", N=3, n=2, m=2, op=list(OPS), at=[0, 1, 2, 3], p=[None, 1])
                + S("idle_step", N=2, n=3, m=1, op=list(OPS), at=1) + S("idle_step", N=20, n=1, m=1, op="smooth", at=[0, 11, 20])
                + S("blind_sensor", N=2, n=1, m=1, op=list(OPS), row=[0, 1], p=[None, 1]) + S("blind_sensor", N=2, n=2, m=2, op=list(OPS), row=[0, 1, 2])
                + S("blind_sensor", N=2, n=[1, 3], m=3, op="filter", row=1) + S("blind_sensor", N=20, n=1, m=1, op="smooth", row=1)
                + S("merged_steps", N=2, n=1, m=1, op=list(OPS), at=0, p=[None, 1]) + S("merged_steps", N=3, n=2, m=[1, 2], op=list(OPS), at=[0, 1], p=[None, 1])
                + S("merged_steps", N=2, n=3, m=1, op=list(OPS), at=0, p=2) + S("merged_steps", N=20, n=1, m=1, op="smooth", at=[0, 9, 18], p=1))
THOROUGH["C24"] = (S("idle_step", N=4, n=3, m=2, op=list(OPS), at=[0, 1, 4], p=2) + S("blind_sensor", N=4, n=3, m=2, op=list(OPS), row=[0, 1])
                   + S("merged_steps", N=4, n=3, m=2, op=list(OPS), at=[0, 1, 2], p=1) + S("merged_steps", N=70, n=1, m=1, op="smooth", at=35)
                   + S("idle_step", N=12, n=2, m=1, op="smooth", at=6))

QUICK["C31"] = (S("smooth_tail", cls=list(CLS), N=[2, 3], n=1, m=1, p=[None, 1]) + S("smooth_tail", cls=list(CLS), N=3, n=2, m=[1, 2], p=1)
                + S("smooth_tail", cls=list(CLS), N=3, n=1, m=2) + S("smooth_tail", cls=list(CLS), N=2, n=3, m=[1, 3]) + S("smooth_tail", cls="kf", N=30, n=1, m=1, p=1)
                + S("smooth_tail", cls="ekf", N=16, n=1, m=1) + S("smooth_tail", cls=list(CLS), N=8, n=2, m=1))
THOROUGH["C31"] = S("smooth_tail", cls=list(CLS), N=[4, 5], n=[2, 3], m=[1, 2], p=1) + S("smooth_tail", cls=list(CLS), N=40, n=1, m=1)
QUICK["C27"] += (S("swapped", N=2, n=[1, 2], m=1, op=list(OPS), at=0, p=[None, 1]) + S("swapped", N=3, n=1, m=1, op=list(OPS), at=[0, 1], p=[None, 1])
                 + S("swapped", N=4, n=1, m=1, op=list(OPS), at=2, p=1) + S("swapped", N=20, n=1, m=1, op="smooth", at=[3, 18]))
THOROUGH["C27"] += S("swapped", N=[3, 4], n=2, m=1, op=list(OPS), at=0, p=1) + S("swapped", N=70, n=1, m=1, op="smooth", at=34)

QUICK["C17"] += S("short_series", cls=list(CLS), N=[2, 3], n=1, m=1, op=list(OPS), p=[None, 1]) + S("short_series", cls=list(CLS), N=4, n=2, m=2, op=list(OPS))
THOROUGH["C17"] += S("short_series", cls=list(CLS), N=40, n=1, m=1, op=list(OPS), p=1)
QUICK["C20"] += (S("integer_functions", N=2, n=[1, 2], m=[1, 2], op=["predict", "update"] + list(OPS)) + S("integer_functions", N=3, n=3, m=1, op=list(OPS))
                 + S("integer_functions", N=12, n=1, m=1, op="smooth"))
THOROUGH["C20"] += S("integer_functions", N=[3, 4], n=3, m=[1, 2, 3], op=["update"] + list(OPS))
# several controls
QUICK["C01"] += S("kf_predict", n=[1, 2], p=[3, 4, 5])
for pid, sc in (("C03", "kf_filter"), ("C04", "kf_smooth"), ("C06", "ekf_filter"), ("C07", "ekf_smooth")):
    QUICK[pid] += S(sc, N=2, n=1, m=1, p=[3, 4]) + S(sc, N=2, n=2, m=1, p=3)
QUICK["C08"] += S("ekf_is_kf", N=2, n=1, m=1, op=list(OPS), control="yes", p=3)
QUICK["C28"] += S("stepwise", cls=list(CLS), N=2, n=[1, 2], m=1, p=3)
# long series: past the block sizes a chunked implementation might use
for pid, sc in (("C03", "kf_filter"), ("C04", "kf_smooth")):
    QUICK[pid] += S(sc, N=260, n=1, m=1)
for pid, sc in (("C06", "ekf_filter"), ("C07", "ekf_smooth")):
    QUICK[pid] += S(sc, N=130, n=1, m=1)
QUICK["C08"] += S("ekf_is_kf", N=130, n=1, m=1, op="smooth", control="yes")
QUICK["C18"] += S("gain_log", cls=list(CLS), N=260, n=1, m=1)
QUICK["C21"] += S("noise_free", cls=list(CLS), N=130, n=1, m=1, op="smooth")
QUICK["C22"] += S("data_free_covariance", N=260, n=1, m=1, op="smooth")
QUICK["C28"] += S("stepwise", cls=list(CLS), N=260, n=1, m=1)
QUICK["C16"] += S("pure", cls="kf", N=130, n=1, m=1, op="smooth")
QUICK["C17"] += S("short_series", cls="kf", N=130, n=1, m=1, op="smooth")
QUICK["C25"] += S("float_R", cls=list(CLS), N=130, n=1, op="smooth")
QUICK["C20"] += S("integer_input", cls="kf", N=130, n=1, m=1, op="smooth", which="everything")
QUICK["C31"] += S("smooth_tail", cls="kf", N=70, n=1, m=1)
QUICK["C15"] += S("causal", cls="kf", N=130, n=1, m=1)
QUICK["C23"] += S("subsystems", cls="kf", N=130, n1=1, n2=1, m1=1, m2=1, op="smooth")
QUICK["C24"] += S("idle_step", N=130, n=1, m=1, op="smooth", at=64) + S("merged_steps", N=130, n=1, m=1, op="smooth", at=64)
