"""Compares the reference model of the simulator (sim/src/reference.rs) with
mpmath at 50 digits.  Run with python3-vt after ./check.sh build.  Prints the
largest deviations per family and quantity; exits 1 beyond the tolerances."""
import json, subprocess, sys, collections
from mpmath import mp, mpf, betainc, gammainc, erfc, exp, log, sqrt, pi, gamma, loggamma, digamma, binomial, expm1, log1p, atan2, inf
mp.dps = 50
N = sys.argv[1] if len(sys.argv) > 1 else "420"
seed = sys.argv[2] if len(sys.argv) > 2 else "1"
import os
exe = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "target", "release", "sim")
out = subprocess.run([exe, "reference", N], env=dict(os.environ, VERIF_SEED=seed), capture_output=True, text=True, check=True).stdout

def ibeta(a, b, x, y):
    """Both tails of the regularised incomplete beta, by the series of a
    hypergeometric function with positive terms."""
    def tail(a, b, x, y):  # I_x(a, b), good when x is left of the mean
        t = s = mpf(1); k = 0
        while True:
            t *= (a + b + k) * x / (a + 1 + k); s += t; k += 1
            if t < s * mpf(10)**-40 and (a + b + k) * x < (a + 1 + k): break
        return exp(a * log(x) + b * log(y) - log(a) - loggamma(a) - loggamma(b) + loggamma(a + b)) * s
    if x <= 0: return mpf(0), mpf(1)
    if y <= 0: return mpf(1), mpf(0)
    if x * b < y * a:
        f = tail(a, b, x, y); return f, 1 - f
    s = tail(b, a, y, x); return 1 - s, s

class Law: pass
def law(name, v):
    v = [mpf(x) for x in v]; L = Law(); L.discrete = False; L.moments = None
    if name == "Pert":
        a, b, c = v
        name, v = "Beta", [1 + 4 * (b - a) / (c - a), 1 + 4 * (c - b) / (c - a), a, c]
    if name in ("Bernoulli", "BernoulliFailure"):
        p = v[0] if name == "Bernoulli" else 1 - v[0]; q = 1 - p
        return discrete([q, p])
    if name == "Categorical":
        return discrete(v)
    if name in ("Binomial", "BinomialFailure"):
        n, p = v
        if name == "BinomialFailure": p = 1 - p
        q = 1 - p
        L.discrete = True
        pmf = lambda k: exp(loggamma(n + 1) - loggamma(k + 1) - loggamma(n - k + 1) + k * log(p) + (n - k) * log(q))
        def cdf(x):
            k = mp.floor(x)
            if k < 0: return mpf(0), mpf(1)
            if k >= n: return mpf(1), mpf(0)
            return ibeta(n - k, k + 1, q, p)
        L.cdf, L.density = cdf, pmf
        va = n * p * q
        L.moments = [n * p, va, (q - p) / sqrt(va), (1 - 6 * p * q) / va] if va > 0 else None
        L.scale = sqrt(va)
        m, sd = n * p, sqrt(va)
        lo, hi = int(max(0, mp.floor(m - 14 * sd - 60))), int(min(n, mp.ceil(m + 14 * sd + 60)))
        if hi - lo <= 3000:
            s = mpf(0)
            t = pmf(mpf(lo))
            for k in range(lo, hi + 1):
                if t > 0: s -= t * log(t)
                t = t * (n - k) / (k + 1) * p / q
            L.entropy = s
        else: L.entropy = None
        return L
    if name == "Beta":
        al, be, a, b = v; d = b - a
        def cdf(x): return ibeta(al, be, (x - a) / d, (b - x) / d)
        def den(x):
            u, w = (x - a) / d, (b - x) / d
            if u <= 0 or w <= 0: return None
            return exp((al - 1) * log(u) + (be - 1) * log(w) + loggamma(al + be) - loggamma(al) - loggamma(be)) / d
        s = al + be
        raw = lambda k: mp.rf(al, k) / mp.rf(s, k)
        m1, m2, m3, m4 = [raw(k) for k in (1, 2, 3, 4)]
        va = al * be / (s * s * (s + 1))
        c3 = m3 - 3 * m1 * m2 + 2 * m1**3; c4 = m4 - 4 * m1 * m3 + 6 * m1**2 * m2 - 3 * m1**4
        L.cdf, L.density, L.scale = cdf, den, d
        L.moments = [a + d * m1, d * d * va, c3 / va**mpf(1.5), c4 / va**2 - 3]
        L.entropy = log(d) + loggamma(al) + loggamma(be) - loggamma(s) - (al - 1) * (digamma(al) - digamma(s)) - (be - 1) * (digamma(be) - digamma(s))
        return L
    if name == "Gamma":
        k, th = v
        def cdf(x):
            y = x / th
            if y < k + 1 or k > 50:
                # The series of positive terms; enough digits for the other tail.
                t = u = mpf(1); j = k
                while t > u * mpf(10)**-40:
                    j += 1; t *= y / j; u += t
                f = exp(k * log(y) - y - loggamma(k + 1)) * u
                return f, 1 - f
            g = gammainc(k, y, inf, regularized=True)
            return 1 - g, g
        L.cdf = cdf; L.scale = sqrt(k) * th
        L.density = lambda x: exp((k - 1) * log(x / th) - x / th - loggamma(k)) / th if x > 0 else None
        L.moments = [k * th, k * th * th, 2 / sqrt(k), 6 / k]
        L.entropy = k + log(th) + loggamma(k) + (1 - k) * digamma(k)
        return L
    gauss = lambda z: (erfc(-z / sqrt(mpf(2))) / 2, erfc(z / sqrt(mpf(2))) / 2)
    if name == "Gaussian":
        m, s = v
        L.cdf = lambda x: gauss((x - m) / s)
        L.density = lambda x: exp(-((x - m) / s)**2 / 2) / (s * sqrt(2 * pi))
        L.moments = [m, s * s, mpf(0), mpf(0)]; L.entropy = log(s * sqrt(2 * pi * mp.e)); L.scale = s
    elif name == "Lognormal":
        m, s = v; w = exp(s * s)
        L.cdf = lambda x: gauss((log(x) - m) / s) if x > 0 else (mpf(0), mpf(1))
        L.density = lambda x: exp(-((log(x) - m) / s)**2 / 2) / (x * s * sqrt(2 * pi)) if x > 0 else mpf(0)
        L.moments = [exp(m + s * s / 2), (w - 1) * exp(2 * m + s * s), (w + 2) * sqrt(w - 1), w**4 + 2 * w**3 + 3 * w**2 - 6]
        L.entropy = m + log(s * sqrt(2 * pi * mp.e)); L.scale = exp(m)
    elif name == "Cauchy":
        m, s = v
        L.cdf = lambda x: (atan2(1, -(x - m) / s) / pi, atan2(1, (x - m) / s) / pi)
        L.density = lambda x: 1 / (pi * s * (1 + ((x - m) / s)**2))
        L.entropy = log(4 * pi * s); L.scale = s
    elif name == "Exponential":
        l, = v
        L.cdf = lambda x: (-expm1(-l * x), exp(-l * x)) if x > 0 else (mpf(0), mpf(1))
        L.density = lambda x: l * exp(-l * x) if x >= 0 else mpf(0)
        L.moments = [1 / l, 1 / l**2, mpf(2), mpf(6)]; L.entropy = 1 - log(l); L.scale = 1 / l
    elif name == "Laplace":
        m, b = v
        L.cdf = lambda x: (exp((x - m) / b) / 2, 1 - exp((x - m) / b) / 2) if x < m else (1 - exp((m - x) / b) / 2, exp((m - x) / b) / 2)
        L.density = lambda x: exp(-abs(x - m) / b) / (2 * b)
        L.moments = [m, 2 * b * b, mpf(0), mpf(3)]; L.entropy = log(2 * b * mp.e); L.scale = b
    elif name == "Logistic":
        m, s = v
        L.cdf = lambda x: (1 / (1 + exp(-(x - m) / s)), 1 / (1 + exp((x - m) / s)))
        L.density = lambda x: exp(-(x - m) / s) / (s * (1 + exp(-(x - m) / s))**2)
        L.moments = [m, pi**2 * s * s / 3, mpf(0), mpf(6) / 5]; L.entropy = log(s) + 2; L.scale = s
    elif name == "Uniform":
        a, b = v
        L.cdf = lambda x: (min(max((x - a) / (b - a), 0), 1), min(max((b - x) / (b - a), 0), 1))
        L.density = lambda x: 1 / (b - a) if a <= x <= b else mpf(0)
        L.moments = [(a + b) / 2, (b - a)**2 / 12, mpf(0), mpf(-6) / 5]; L.entropy = log(b - a); L.scale = b - a
    elif name == "Triangular":
        a, b, c = v
        def cdf(x):
            if x <= a: return mpf(0), mpf(1)
            if x >= b: return mpf(1), mpf(0)
            if x <= c and c > a:
                f = (x - a)**2 / ((b - a) * (c - a)); return f, 1 - f
            s = (b - x)**2 / ((b - a) * (b - c)); return 1 - s, s
        def den(x):
            if x < a or x > b: return mpf(0)
            if x < c: return 2 * (x - a) / ((b - a) * (c - a))
            if x == c: return 2 / (b - a)
            return 2 * (b - x) / ((b - a) * (b - c))
        L.cdf, L.density, L.scale = cdf, den, b - a
        q = a * a + b * b + c * c - a * b - a * c - b * c
        L.moments = [(a + b + c) / 3, q / 18, sqrt(mpf(2)) * (a + b - 2 * c) * (2 * a - b - c) * (a - 2 * b + c) / (5 * q**mpf(1.5)), -mpf(3) / 5]
        L.entropy = mpf(1) / 2 + log((b - a) / 2)
    else: raise Exception(name)
    return L
def discrete(p):
    L = Law(); L.discrete = True; L.scale = mpf(1)
    below = []; s = mpf(0)
    for x in p: s += x; below.append(s)
    above = []; s = mpf(0)
    for x in reversed(p): above.append(s); s += x
    above.reverse()
    def cdf(x):
        k = int(mp.floor(x))
        if k < 0: return mpf(0), mpf(1)
        if k >= len(p) - 1: return mpf(1), mpf(0)
        return below[k], above[k]
    L.cdf = cdf; L.density = lambda x: p[int(x)]
    m = sum(i * x for i, x in enumerate(p)); c = lambda e: sum((i - m)**e * x for i, x in enumerate(p))
    va = c(2)
    L.moments = [m, va, c(3) / va**mpf(1.5), c(4) / va**2 - 3] if va > 0 else None
    L.entropy = -sum(x * log(x) for x in p if x > 0)
    return L

TOL = dict(cdf=1e-12, density=1e-9, mean=1e-9, variance=1e-9, skewness=1e-9, kurtosis=1e-9, entropy=1e-9, quantile=1e-11)
worst = collections.defaultdict(lambda: (0, ""))
def note(name, what, d, where):
    if not d <= worst[name, what][0]: worst[name, what] = (float(d), where)
count = 0
for line in out.splitlines():
    r = json.loads(line); L = law(r["name"], r["parameters"]); n = r["name"]; w = n + str(r["parameters"][:6])
    size = 1
    if n in ("Binomial", "BinomialFailure"): size = 1 + 4e-3 * float(r["parameters"][0])
    if n == "Gamma": size = 1 + 4e-3 * float(r["parameters"][0])
    if n == "Beta": size = 1 + 5e-3 * (float(r["parameters"][0]) + float(r["parameters"][1]))
    if n.startswith("Binomial") and float(r["parameters"][0]) > 2e5: r["points"] = r["points"][:1]
    for (x, f, s, d), (u, _) in zip(r["points"], r["quantiles"]):
        if x in ("inf", "-inf"): continue
        x = mpf(x); F, S = L.cdf(x)
        # Locations like x - a carry the rounding of x and of the parameters.
        blur = max([abs(x)] + [abs(mpf(v)) for v in r["parameters"]]) * mpf(2)**-52 if not L.discrete else 0
        D = L.density(x)
        note(n, "cdf", max(max(abs(mpf(f) - F), abs(mpf(s) - S)) - blur * (D or 0), 0) / size, w + " x=%s" % mp.nstr(x, 20))
        if D is not None and D > 1e-280 and d not in ("inf",):
            near = [L.density(x - blur), L.density(x + blur)] if blur else []
            slack = max([abs(v - D) for v in near if v is not None] + [0])
            note(n, "density", max(abs(mpf(d) - D) - slack, 0) / D / size, w + " x=%s" % mp.nstr(x, 20))
        u = mpf(u)
        if 0 < abs(x) < mpf(10)**-305: continue  # denormal numbers
        if L.discrete:
            # the smallest outcome whose probability reaches u, up to rounding
            e = max(u - F, L.cdf(x - 1)[0] - u, 0)
        else:
            # the error in probability, beyond that of the spacing of numbers
            e = max(abs(F - u) - (mpf(d) * (abs(x) * mpf(2)**-52 + mpf(2)**-1074) if d != "inf" else 0), 0)
        if e / size > TOL["quantile"] and not L.discrete:
            e = max(e - abs(L.cdf(x + blur)[0] - L.cdf(x - blur)[0]), 0)
        note(n, "quantile", e / size, w + " u=%s" % mp.nstr(u, 20))
        count += 3
    if r["moments"] and L.moments:
        sc = L.scale
        for k, got, want in zip(("mean", "variance", "skewness", "kurtosis"), r["moments"], L.moments):
            if got in ("inf", "NaN") or want > mpf(10)**308: continue
            unit = {"mean": abs(want) + sc, "variance": want, "skewness": 1 + abs(want), "kurtosis": 1 + abs(want)}[k]
            note(n, k, abs(mpf(got) - want) / unit, w); count += 1
    if L.entropy is not None:
        note(n, "entropy", abs(mpf(r["entropy"]) - L.entropy) / (1 + abs(L.entropy)), w); count += 1
bad = 0
for (n, k), (d, where) in sorted(worst.items()):
    flag = ""
    if not d <= TOL[k]: flag = "  <-- " + where; bad = 1
    print("%-17s %-9s %.1e%s" % (n, k, d, flag))
print(count, "comparisons")
sys.exit(bad)
