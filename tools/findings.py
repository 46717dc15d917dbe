#!/usr/bin/env python3
"""Writes known_findings.jsonl (repaired defects; nothing here suppresses a report)."""
import json, os
F = [
 ("B03", "6c8cb5f", "LPBoost solved its LP without the 1/nu slack penalty, so its vote was far below the optimal soft margin"),
 ("B02", "2fa5950", "MadaBoost's weights were not the capped product over all rounds"),
 ("B17", "639cda4", "SmoothBoost started its measure from N = 1 and left out its last hypothesis"),
 ("B05", "ac8e725", "the weighted majority dropped hypotheses with negative weight and panicked when empty"),
 ("B01", "d10ff01", "AdaBoost and AdaBoostV handed out NaN weights after a perfect or nearly perfect hypothesis"),
 ("B03", "b689e4d", "SoftBoost capped the weights at nu instead of 1/nu and took an inaccurate solution for the end"),
 ("B03", "7167cd9", "Frank-Wolfe steps moved away from the ascent direction"),
 ("B04", "689c52b", "the capped-simplex check panicked within solver accuracy"),
 ("B04", "cfc2bf0", "ERLPBoost, CERLPBoost and MLPBoost could stop without any hypothesis; MLPBoost's LP ignored the cap"),
 ("B09", "5c11011", "the logger panicked on write errors, hid the last flush's error and lost fractions of the time"),
 ("B15", "ffc876b", "gradient boosting fitted the targets instead of the residuals and returned a normalised sum"),
 ("B13", "401da86", "binning lost values for large or tiny features (absolute tolerance)"),
 ("B14", "8a3be02", "the L1 gradient had the wrong sign and nodes with cancelling gradients were not split"),
 ("B12", "6437386", "sparse features computed the mean and variance of the wrong label"),
 ("B23", "a4dfa05", "naive Bayes gave NaN on vanished variances and underflowing densities"),
 ("B22", "96fda3c", "the DOT export panicked on a failing disk"),
 ("B19", "faff076", "the neural network panicked on few weighted examples and had a wrong sigmoid slope"),
 ("B11", "41ae110", "malformed files panicked the reader or shifted columns"),
 ("B16", "c597588", "splitting sparse samples mixed up rows, the last fold ran past the end"),
 ("B04", "69cd005", "ERLPBoost's sub-problem became ill-conditioned when weights vanished"),
 ("B03", "204291a", "SoftBoost took a solver failure for infeasibility and stopped early"),
 ("B13", "eea6abc", "the Gini criterion panicked when weights vanish by rounding"),
 ("B01", "87730ec", "ERLPBoost panicked when the solver hit its iteration limit while refining a solution"),
 ("B19", "64fa4ef", "the neural network could draw examples of weight zero when others' sampling keys underflow"),
 ("B19", "c21843a", "a single-output network was trained towards -1 instead of 0 on negative examples"),
 ("B04", "43f8eda", "CERLPBoost::max_loop answered 1 before a run"),
 ("B04", "c764abc", "AdaBoost played no round at all when its limit rounds down to zero (two examples, tolerance above 0.83)"),
 ("B30", "53409b9", "naive Bayes gave NaN as the probability of a label without weight far from the weighted rows"),
 ("B27", "27a5fba", "large labels were merged (3e9, 4.5e9 and -1 passed as two kinds) and infinite ones passed as integers"),
 ("B03", "7f0948c", "AdaBoost and AdaBoostV took a hypothesis that misclassifies an example of tiny weight for perfect and returned it alone (AdaBoostV: margin -1 below a target of -0.22)"),
 ("B13", "67bb73e", "features whose values differ by less than about 1e-13 of their size lost their largest value to the bin below"),
]
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "known_findings.jsonl"), "w") as f:
    for p, c, w in F:
        f.write(json.dumps({"status": "fixed", "property": p, "entry": f"fixed: property={p} {c} {w}"}) + "\n")
