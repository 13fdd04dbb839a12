"""Writes known_findings.json: open findings by case key, fixed ones by commit subject."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = []
FIXED = [
    ("C01", "universal kriging null-space fallback returns wrong weights and variance"),
    ("C04", "return an infinite likelihood when the factorisation fails with numpy"),
    ("C07", "Matern kernels return NaN at very large distances"),
    ("C06", "conditional paths with a parameterized mean reject column observations"),
    ("C14", "k-fold partitions are wrong with the torch backend for some sizes"),
    ("C14", "negative indices select the wrong row of a sharded dataset"),
    ("C15", "scalers fitted on a single row return NaN with the torch backend"),
    ("C09", "parameter selection can return a NaN-valued point instead of the best one"),
    ("C08", "gradient requests after a failed criterion evaluation abort fits with torch"),
    ("C08", "batch criterion switches gradient tracking on the caller's parameter tensor"),
    ("C08", "batch criterion gradient silently answers for another parameter vector"),
    ("C07", "torch distances lose accuracy for points far from the origin"),
    ("C12", "power-law prior rewards variances above the soft cutoff"),
    ("C09", "parameter selection can return a point that does not have the reported value"),
    ("C12", "a rejected update of the prior defaults is partly applied"),
    ("C12", "constant input columns break prior and parameter bounds with the torch backend"),
    ("C11", "constant-mean initial guess rejects loaders with column outputs"),
    ("C17", "parameter containers accept a value vector of the wrong length"),
    ("C17", "parameter containers built from integers truncate later writes"),
    ("C17", "a rejected natural-scale update of a parameter container is partly applied"),
    ("C18", "rejected configuration requests change the selected backend"),
    ("C18", "a dtype request leaves the numerical layer without a dtype"),
    ("C19", "the torch normal density ignores the scale in its normalisation"),
    ("C19", "the torch log of the normal distribution function is -inf in the tail"),
    ("C19", "the torch triangular solve uses the wrong triangle of a transposed matrix"),
    ("C20", "multivariate normal draws ignore the seed of the numerical layer"),
    ("C20", "torch choice without replacement silently returns too few values"),
    ("C21", "a Metropolis step given a plain number for the current value fails with torch"),
    ("C21", "the target value of the initial Metropolis state is not recorded"),
    ("C21", "the diminishing adaptation schedule turns negative"),
    ("C21", "long burn-in periods of a single Metropolis chain fail"),
    ("C21", "Metropolis traces keep uninitialised states after an early end of burn-in"),
    ("C21", "the KS convergence check counts blocks compared with themselves and fails with torch"),
    ("C22", "NUTS trees stop on a test that depends on the initial energy"),
    ("C22", "NUTS diagnostic plots fail when the run is longer than the averaging window"),
    ("C22", "NUTS warm-up uses the variances of the chains as masses instead of their inverses"),
    ("C23", "particle moves fail instead of adding jitter when the proposal covariance is rejected"),
    ("C23", "unknown resampling schemes fail with an attribute error instead of the intended message"),
    ("C23", "particle weights are not-a-number for particles that stay outside the support"),
    ("C23", "survival fraction is not-a-number when a particle is outside the support"),
    ("C23", "search for the next target by survival fraction never ends when the fraction jumps"),
    ("C23", "sequential Monte Carlo returns the initial particles when it restarts at the target"),
    ("C23", "search for the next target by effective sample size stops far from the requested ratio or never progresses"),
    ("C23", "subset simulation divides the probability by the volume of the initial box"),
    ("C23", "particle weights overflow when the log-density is large"),
    ("C25", "sequential Monte Carlo posterior sampling ignores the dimension of the parameters when the box is given by scalars"),
    ("C25", "sequential Monte Carlo posterior sampling stops when the criterion fails or cannot be evaluated outside the box"),
    ("C25", "posterior samplers ignore the mean parameters of the criterion"),
    ("C25", "posterior samplers misread initial states given with one column per chain"),
    ("C26", "EI2 and the truncated CRPS mix rows when arrays are not one-dimensional"),
    ("C26", "truncated CRPS fails when the truncation limits are arrays"),
    ("C27", "fill distance returns the smallest distance between the design and the probe points instead of the largest gap"),
    ("C27", "maximin Latin-hypercube designs of one point fail"),
    ("C27", "low-discrepancy uniform designs fail in high dimension when every candidate exceeds a fixed discrepancy"),
    ("C28", "probability integral transforms fail with torch and mix observations given as a column"),
    ("C28", "diagnosis report divides the data range by the variance instead of the standard deviation"),
    ("C28", "parts of a table swap row and column names and lose their second dimension"),
    ("C28", "appending to a table renames rows and columns of the tables it was built from"),
    ("C28", "printing a table that contains not-a-number fails"),
    ("C29", "grid-based parameter statistics rely on a NumPy function that no longer exists"),
    ("C29", "sections of a criterion through integer parameters truncate the varied parameter"),
    ("C29", "parameter statistics fail when the criterion is large in absolute value"),
    ("C29", "one-dimensional distributions lose accuracy when the unnormalised density is small"),
    ("C30", "Dette-Pepelyshev function keeps only the last of its five logarithmic terms"),
    ("C30", "wave test function uses the second coordinate in its linear term instead of the first"),
    ("C31", "criterion cross sections of selected parameters use the box of other parameters"),
    ("C23", "nearest-neighbour covariance works with torch and with few particles"),
    ("C31", "criterion plots through integer parameters truncate the varied parameter"),
    ("C31", "empirical distribution of probability integral transforms is drawn with wrong steps"),
    ("C31", "the figure given for the distribution of probability integral transforms is ignored"),
    ("C31", "posterior plots fail when the points are torch tensors"),
    ("C31", "prediction cross sections through integer points truncate the swept coordinate"),
    ("C31", "plots of Stein particles fail when a parameter is constant"),
    ("C19", "torch conversion rejects reversed array views"),
    ("C01", "integer inputs and observations fail with torch"),
    ("C05", "Fisher information with integer or list parameters"),
    ("C10", "penalised selection rejects starting parameters given as a list"),
    ("C08", "gradients at integer points are truncated or rejected"),
    ("C22", "NUTS truncates positions when started from integers"),
    ("C09", "automatic bounds are reversed for starting values beyond 500"),
    ("C19", "arrays filled with a whole number are integers with the torch backend"),
    ("C29", "variances of one-dimensional posteriors far from zero are inaccurate"),
]

if __name__ == "__main__":
    log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h fix|%s"], capture_output=True, text=True, check=True
    ).stdout.replace("fix|fix: ", "").splitlines())
    used = {s for _, s in FIXED}
    for s in log:
        if s not in used and not s.startswith("fix|"):
            print("not recorded:", s)
    out = {"known": KNOWN, "fixed": [f"fixed: property={p} {log[s]} {s}" for p, s in FIXED]}
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
