"""One-off: records the coefficients of every Runge-Kutta solver at the pinned commit (as the literature's
tableaus; tools cross-check them by the order conditions of C08)."""
import json, os, sys
sys.path.insert(0, "/repo"); os.environ["JAX_PLATFORMS"]="cpu"
import numpy as np, diffrax as dfx
sys.path.insert(0, "/verif")
N = "Heun Midpoint Ralston Bosh3 Tsit5 Dopri5 Dopri8 Kvaerno3 Kvaerno4 Kvaerno5 Sil3 KenCarp3 KenCarp4 KenCarp5".split()
out = {}
for n in N:
    tab = getattr(dfx, n).tableau
    tabs = tab.tableaus if hasattr(tab, "tableaus") else (tab,)
    rec = []
    for tb in tabs:
        s = len(tb.b_sol)
        a = np.zeros((s, s))
        for i, row in enumerate(tb.a_lower): a[i+1, :i+1] = row
        c = np.zeros(s); c[1:] = tb.c
        if tb.c1 is not None: c[0] = tb.c1
        rec.append(dict(stages=s, a=a.tolist(), b=[float(x) for x in tb.b_sol], b_err=[float(x) for x in tb.b_error], c=c.tolist(),
                        diag=None if tb.a_diagonal is None else [float(x) for x in tb.a_diagonal]))
    out[n] = dict(tableaus=rec, fspace=bool(all(tb.fsal for tb in tabs)))
    print(n, out[n]["fspace"], [tb.implicit for tb in tabs])
json.dump(out, open("/verif/props/published_rk.json", "w"), indent=0)
