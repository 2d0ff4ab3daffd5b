"""P04: evaluation, iteration and callback counts are exact and bounded."""
from ..cases import CMAS, opt_st, samp_st
from ..core import Sub, require
from ..trace import is_opt, run
from hypothesis import strategies as st


def check_opt(case):
    m, o = case["method"], case["opts"]
    p, mi = o["popsize"], o["maxiter"]
    t = run(case, callback=case["cb"], return_all=case["all"])
    calls = len(t.F)
    r = t.res
    require(r.nfev == calls, "%s: nfev=%s but the objective was called %d times", m, r.nfev, calls)
    require(1 <= r.nit <= mi, "%s: nit=%s with maxiter=%d", m, r.nit, mi)
    require(calls == r.nit * p, "%s: %d calls for %s iterations of population %d", m, calls, r.nit, p)
    if case["cb"]:
        require(len(t.cb) == r.nit, "%s: %d callbacks for %s iterations", m, len(t.cb), r.nit)
        for k, s in enumerate(t.cb):
            require(s["state"]["nit"] == k + 1, "%s: callback %d reports nit=%s", m, k + 1, s["state"]["nit"])
            require(s["calls"] == (k + 1) * p, "%s: callback %d after %d calls", m, k + 1, s["calls"])
            require(s["state"]["nfev"] == s["calls"], "%s: callback %d reports nfev=%s after %d calls", m, k + 1, s["state"]["nfev"], s["calls"])
    lab = [m]
    if mi == 1:
        lab.append("maxiter=1")
    if r.nit < mi:
        lab.append("early stop")
    if r.nit > 2:
        lab.append("nontrivial")
    return lab


def check_long(case):
    lab = check_opt(case) if is_opt(case) else check_samp(case)
    if is_opt(case) and case["method"] not in CMAS:
        r = run(case, callback=None).res
        require(r.nit == case["opts"]["maxiter"] and r.status == -1, "%s: stopped with status %s after %s of %s iterations although no tolerance can be met", case["method"], r.status, r.nit, case["opts"]["maxiter"])
    return lab


def check_samp(case):
    m, mi = case["method"], case["opts"]["maxiter"]
    t = run(case, callback=case["cb"], return_all=case["all"])
    r = t.res
    require(r.nit == mi, "%s: nit=%s with maxiter=%d", m, r.nit, mi)
    if "nfev" in r:
        require(r.nfev == len(t.F), "%s: nfev=%s but the objective was called %d times", m, r.nfev, len(t.F))
    require(m != "hmc" or "nfev" in r, "hmc result lacks nfev")
    if m == "mcmc":
        lim = mi
        require(1 <= len(t.F) <= lim, "mcmc: %d calls for %d samples", len(t.F), mi)
    if case["cb"]:
        require(len(t.cb) == mi, "%s: %d callbacks for %d samples", m, len(t.cb), mi)
        for k, s in enumerate(t.cb):
            require(s["state"]["nit"] == k + 1, "%s: callback %d reports nit=%s", m, k + 1, s["state"]["nit"])
            if "nfev" in s["state"]:
                require(s["state"]["nfev"] == s["calls"], "%s: callback %d reports nfev=%s after %d calls", m, k + 1, s["state"]["nfev"], s["calls"])
    lab = [m]
    if mi > 2:
        lab.append("nontrivial")
    return lab


@st.composite
def wrap(draw, base):
    c = draw(base)
    c["cb"] = draw(st.booleans())
    c["all"] = draw(st.booleans())
    return c


@st.composite
def thousands(draw):
    if draw(st.integers(0, 2)) == 0:
        c = draw(samp_st(maxiter=(1200, 8000), maxdim=2, big=False, jac=True))
        if c["method"] == "hmc":
            c["opts"]["maxiter"] = c["opts"]["maxiter"] // 3
            c["opts"]["nleap"] = 1
    else:
        c = draw(opt_st(methods=("de", "pso", "cpso", "de", "pso", "cpso", "na", "cmaes", "vdcma"), maxiter=(500, 2500), maxdim=2, maxpop=4, tol="never", big=False, constraints="on", finite=True))
        if c["method"] == "na":
            c["opts"]["maxiter"] = c["opts"]["maxiter"] // 4
    c["cb"] = draw(st.integers(0, 3)) == 0
    c["all"] = draw(st.booleans())
    return c


RULE = "random configuration incl. maxiter=1 and early stops; non-trivial when more than two iterations ran"
SUBS = [
    Sub("opt", lambda: wrap(opt_st(maxiter=(1, 25))), check_opt, 4500, 60000, RULE),
    Sub("early", lambda: wrap(opt_st(maxiter=(1, 60))), check_opt, 800, 20000, RULE),
    Sub("samplers", lambda: wrap(samp_st()), check_samp, 2500, 30000, RULE),
    Sub("longer", lambda: wrap(opt_st(maxiter=(60, 400), tol="never", maxpop=8)), check_opt, 240, 5000, RULE),
    Sub("thousands", thousands, check_long, 120, 1500, "hundreds to thousands of iterations or samples; all but CMA-ES and VD-CMA must use the whole budget; every case counts as above"),
]
