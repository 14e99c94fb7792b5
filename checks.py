FREQ = ["src/frequency/", "src/helpers.cpp", "src/ldt_base.cpp"]
VAR = FREQ + ["src/variable/", "src/array.cpp"]
MAT = ["src/matrix/", "src/array.cpp", "src/helpers.cpp", "src/ldt_base.cpp", "src/ldt_math/optimization/"]
CHECKS = {
    "C01": dict(harness="c01.cpp", sources=FREQ, scale=20),
    "C02": dict(harness="c02.cpp", sources=FREQ, scale=20),
    "C03": dict(harness="c03.cpp", sources=VAR, scale=5),
    "C04": dict(harness="c04.cpp", sources=VAR, scale=10),
    "C05": dict(harness="c05.cpp", sources=MAT, scale=6),
    "C06": dict(harness="c06.cpp", sources=MAT, scale=4),
    "C07": dict(harness="c07.cpp", sources=MAT, scale=4),
    "C08": dict(harness="c08.cpp", sources=MAT + ["src/ldt_math/polynomials/"], scale=10),
    "C09": dict(harness="c09.cpp", sources=MAT + ["src/ldt_math/derivative.cpp", "src/ldt_math/auc.cpp"], scale=10),
    "C10": dict(harness="c10.cpp", sources=MAT + ["src/ldt_statistics/distributions/", "src/ldt_statistics/statistics/"], scale=5),
    "C11": dict(harness="c11.cpp", sources=MAT + ["src/ldt_statistics/statistics/"], scale=10),
    "C12": dict(harness="c12.cpp", sources=MAT + ["src/ldt_statistics/statistics/", "src/ldt_statistics/correlation.cpp"], scale=10),
    "C13": dict(harness="c13.cpp", sources=MAT + ["src/ldt_statistics/scoring/", "src/ldt_statistics/distributions/", "src/ldt_math/auc.cpp", "src/ldt_statistics/statistics/"], scale=10),
    "C15": dict(harness="c15.cpp", sources=MAT + ["src/ldt_statistics/clustering/", "src/ldt_statistics/correlation.cpp", "src/ldt_statistics/statistics/"], scale=10),
    "C16": dict(harness="c16.cpp", sources=MAT + ["src/ldt_statistics/data_split.cpp"], scale=10),
    "C14": dict(harness="c14.cpp", sources=MAT + ["src/ldt_statistics/pca.cpp"], scale=10),
    "C17": dict(harness="c17.cpp", sources=MAT + ["src/ldt_statistics/modeling/discrete/discrete_choice%s.cpp" % x for x in ("", "_extended", "_sim")] + ["src/ldt_statistics/modeling/linear/ols.cpp", "src/ldt_statistics/pca.cpp", "src/ldt_statistics/data_split.cpp", "src/ldt_statistics/scoring/", "src/ldt_statistics/distributions/", "src/ldt_statistics/statistics/", "src/ldt_math/auc.cpp"], scale=5),
    "C18": dict(harness="c18.cpp", sources=MAT + ["src/ldt_statistics/modeling/linear/sur.cpp", "src/ldt_statistics/modeling/linear/sur_projection.cpp", "src/ldt_statistics/modeling/linear/sur_extended.cpp", "src/ldt_statistics/modeling/linear/sur_simulation.cpp", "src/ldt_statistics/pca.cpp", "src/ldt_statistics/data_split.cpp", "src/ldt_statistics/scoring/", "src/ldt_statistics/distributions/", "src/ldt_statistics/statistics/", "src/ldt_math/auc.cpp"], scale=10),
    "C19": dict(harness="c19.cpp", sources=MAT + ["src/ldt_math/polynomials/", "src/ldt_math/derivative.cpp"] + ["src/ldt_statistics/modeling/time_series/varma/varma%s.cpp" % x for x in ("", "_sizes", "_arma", "_restriction", "_forecast", "_extended", "_simulation")] + ["src/ldt_statistics/pca.cpp", "src/ldt_statistics/scoring/", "src/ldt_statistics/distributions/", "src/ldt_statistics/statistics/", "src/ldt_math/auc.cpp"], scale=2),
}
CHECKS["C20"] = dict(harness="c20.cpp", sources=sorted(set(CHECKS["C17"]["sources"] + CHECKS["C18"]["sources"] + CHECKS["C19"]["sources"] + ["src/ldt_statistics/modeling/search/"] + ["src/ldt_statistics/modeling/" + x for x in ("linear/sur_modelset.cpp", "discrete/discrete_choice_modelset.cpp", "time_series/varma/varma_modelset.cpp")])), scale=10, omp=True)
CHECKS["C21"] = dict(kind="r", module="c21", scale=3)
CHECKS["C22"] = dict(kind="r", module="c22", scale=1)
CHECKS["C23"] = dict(kind="r", module="c23", scale=1, workers=32)
CHECKS["C24"] = dict(kind="r", module="c24", scale=3)
CHECKS["C25"] = dict(kind="r", module="c25", scale=1, secs=400, workers=32)
CHECKS["C26"] = dict(kind="r", module="c26", scale=1, secs=400, workers=32)
CHECKS["C27"] = dict(kind="r", module="c27", scale=1, secs=400)
CHECKS["C28"] = dict(harness="c28.cpp", sources=VAR + MAT + ["src/ldt_statistics/distributions/", "src/ldt_statistics/statistics/", "src/ldt_statistics/scoring/", "src/ldt_math/auc.cpp"], extra=["src/api.cpp"], scale=5)
CHECKS["C29"] = dict(kind="r", module="c29", scale=1, secs=400)
