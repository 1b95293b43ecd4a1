"""Writes /verif/known_findings.json: findings that still stand ("known") and repaired ones ("fixed")."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C09,C14,C15 2458cae constraints='Reject' of the samplers never rejected: in_search_space() returned None, so no sample was ever accepted
C15 e0cea0a HMC with a user-supplied gradient recursed without end
C05,C07 10b4b21 the samplers left the initial sample out of the best solution
C07 52da168 the samplers' callback got its samples one iteration late
C11 f6a4a7c the samplers rescaled the user's stepsize array in place and failed with lists and integer arrays
C01 58b4a21 NA defaulted to callback=True, so calling it without a callback failed
C06 9944dfd NA stored the first row of xall in normalised coordinates
C11,C20 76ec593 DE, PSO, CPSO and NA worked in the user's x0 array and failed or truncated with lists and integer arrays
C08 960a9f8 DE, PSO, CPSO and NA with maxiter=1 made two iterations
C08 a7f5226 immediate updating of DE/PSO/CPSO missed convergence unless the last candidate improved
C06 a259e28 DE recorded the trials' values instead of the members' values in funall
C05 20f56dc CPSO never returned solutions with values above 1e30
C02 4a22c95 with MPI and no seed, ranks diverged (different random numbers, mismatched iterations, deadlock)
C01,C05 11639f4 an objective returning integers first truncated all later values (serial evaluation)
C13 8da7383 a NaN in the first generation was never replaced (DE, PSO, CPSO, NA)
C13 415a6bb MCMC and HMC accepted samples whose value is NaN
C13,C06 86c34fa verbosity=0 rows picked NaN candidates as the best
C13 93908e5 'Penalize' failed or spread NaN/inf after NaN or inf values
C09 eab9a98 'Shrink' could reverse and amplify the velocity of a particle at a bound
C14,C01 bb84159 MCMC failed when the number of dimensions was not a multiple of the block size
C18 571ebbd NA distorted the Voronoi cells when a dimension had zero width
C07 6cd9392 the samplers reported accept_ratio 0.0 to the first callback
C01,C02,C11 8a05eff penalised values depended on the place of arrays in memory (np.log of a strided view)
C01,C02,C11 e100114 'Penalize' with a mean outside the bounds used an uninitialised array
C23,C13 e78797b CMA-ES and VD-CMA accepted populations of one or without a parent and then evaluated NaN points
C23 cc8b392 unknown backends were silently taken for serial evaluation
"""
KNOWN = []
fixed = []
for l in FIXED.strip().splitlines():
    ids, c, what = l.split(" ", 2)
    for i in ids.split(","):
        fixed.append("fixed: property=%s %s %s" % (i, c, what))
f = os.path.join(ROOT, "tools", "known.json")
if os.path.exists(f):
    KNOWN = json.load(open(f))
with open(os.path.join(ROOT, "known_findings.json"), "w") as fh:
    json.dump({"known": KNOWN, "fixed": fixed}, fh, indent=1)
    fh.write("\n")
