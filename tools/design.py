"""Write DESIGN.md from design_src.md, the harnesses and the records."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

HOW = {
"A01": "Frames are registered through the public API with symbolic translations and unit quaternions. Oracle-free: the result of the direct call must equal that of the two-step call through every third frame; the looked-up transform must equal the composition of the looked-up parts (quaternions compared as rotations). The tests use one fixed tree of 90-degree turns, where a wrong order of factors or a skipped common ancestor is often invisible.",
"A02": "Round trips over every ordered frame pair must return the symbolic data identically, and a frame registered with `inverse=True` must equal the reference frame transform inverted by hand. Rotations of any non-zero length are included, where conjugate and inverse differ.",
"A03": "Reference: the pose composed by hand along the tree with the textbook `R p + t`. Transform functions, lookups, poses, dataset and array forms, names and objects must all match it for all values.",
"A04": "Every constructor is run next to the complete-array constructor on the same symbolic numbers and both frames are compared through transforms; rotation matrices are the matrices of all unit quaternions; invalid shapes must raise ValueError.",
"T01": "Sample times are symbolic reals, so Z3 enumerates every relative order and tie of data and frame times. Oracle: the set of expected time stamps computed from the definition in the statement with the same order decisions.",
"T02": "Reference: per-time-stamp composition with hand-written linear interpolation; rotations between samples are whatever the interpolation contract returns for the same arguments. Integer and calendar times of every resolution are included with concrete grids.",
"T03": "Reference: hand-written 'latest event not after t, else the first'. Event and query times are symbolic, ties included.",
"T04": "Symbolic time sequences: the solver must not find a decreasing sequence that is accepted or a non-decreasing one that is refused; shapes are enumerated.",
"I01": "Every placement of spatial and time axes is run against the separately transformed vectors, all values symbolic.",
"I02": "The labelled call is run next to the plain call; numbers must be identical terms, labels are compared concretely for every dimension order and coordinate kind.",
"I03": "Frame names in the metadata are symbolic names (equal or different decided by the solver); oracle: the rules of the statement.",
"I04": "Arguments are snapshotted (values, dtype, attributes) before each call, compared after; the second call must return identical terms.",
"I05": "Some samples are missing (NaN) in data or in moving or event frames. The result at every other sample time must equal the result of the same call in which the missing samples have ordinary values, and be a number; this includes resampling onto the times of another frame.",
"Q01": "Identities of rational functions in the components of arbitrary non-zero quaternions.",
"Q02": "Reference: the sandwich product divided by the squared norm.",
"Q03": "`eigh` by contract: any orthonormal eigenbasis in any order that the library contract allows, for sets whose spectrum is known; optimality is asserted against every other unit quaternion.",
"Q04": "`squad` by contract (interpolates its samples, unit length, function of its arguments); layouts are compared with the slice-wise call.",
"Q05": "Half-angle pairs (cos, sin) on the unit circle stand for all angles; the product is an identity modulo those constraints.",
"C01": "Radius, angle and quadrant axioms of sqrt and arctan2 over all reals; origin, axes and signs are paths. Integer arrays keep whole values only.",
"C02": "As C01 with inclination and azimuth.",
"C03": "Labelled against plain call; labels and attributes compared concretely.",
"V01": "Reference: the second-order non-uniform difference formula written independently; times symbolic. Outlier suppression and filtering against an element-wise specification.",
"V02": "The spline derivative is linear in the data by contract; reference `2 conj(q) dq/dt`. Missing samples and calendar times concretely placed, rotations symbolic.",
"V03": "The twist must equal the estimate on the looked-up transform rotated by the looked-up rotation; every output form compared.",
"V04": "Reference: rigid-body kinematics written with lookups of the package's own twists and lever arms.",
"E01": "Real algebra over all pairs of vectors: the rotated first vector is parallel to the second, half-angle conditions, axis perpendicular.",
"E02": "The scene supplies the singular value decomposition symbolically (any singular values, any directions); `svd` returns it or any sign variant that the contract allows. Obligations: proper, reproduces copies, trace optimality.",
"E03": "As E02 about centroids.",
"E04": "Nearest neighbours, best fits and stop criterion are executed; point sets are shaped so that the matching is decided by the solver for every motion in the family. Oracle: returned motion applied to the first set equals the composed updates of a reference iteration.",
"R01": "Frame names are symbolic; every history within the bound runs against a list model of the registry.",
"R02": "Every kind of refusal after every history; the registry, children and later transforms are compared with a run without the attempt.",
"O01": "A CSV file in the documented layout whose numbers stand for symbolic values is read by the real pandas reader; result compared with the symbols.",
"S01": "Messages are records with symbolic leaves: every leaf must be the stated component.",
"S02": "A recording buffer and the package's own transforms as reference.",
"S03": "A recording publisher and a virtual clock; indices symbolic or exhaustively chosen.",
"S04": "Recording publisher; hex digits, scales and positions symbolic.",
"S05": "A bag model with symbolic contents; files written in a scratch folder.",
"S06": "Widgets are recorders with the ipywidgets value/clamping contract; position, step, skip, interval symbolic.",
"P01": "Axes with symbolic previous limits and a contract for autoscaling (any limits that contain the data); artists recorded.",
}


def seeds():
    d = {}
    root = os.path.join(VERIF, "seeded")
    for i in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, i, "meta.json")))
        d.setdefault(m["property"], []).append(i)
    return d


def caught():
    p = os.path.join(HERE, "caught.txt")
    out = {}
    if os.path.exists(p):
        for m in re.finditer(r"^(\S+) \[\w+\]:.*(CAUGHT|MISSED)",
                             open(p).read(), re.M):
            out[m[1]] = m[2] == "CAUGHT"
    return out


def write(P, bounds):
    s = open(os.path.join(HERE, "design_src.md")).read()
    sd, ca = seeds(), caught()
    out = []
    for p in P:
        i = p["id"]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append(HOW.get(i, "") + "\n")
        out.append("*Bounds.* " + "; ".join(bounds.get(i, ["-"])) + ".\n")
        ss = ["%s (%s)" % (x, {True: "reported", False: "missed",
                               None: "not run"}[ca.get(x)])
              for x in sd.get(i, [])]
        out.append("*Seeded changes.* " + (", ".join(ss) or "none") + ".\n")
    fs = json.load(open(os.path.join(VERIF, "known_findings.json")))
    fl = "\n".join("* %s (%s%s) %s" % (
        f["id"], f["property"],
        ", " + f["commit"] if f.get("commit") else ", open",
        re.sub(r"^fixed: property=\w+ \w+ ", "", f["what"]))
        for f in fs["findings"])
    ns = {}
    exec(open(os.path.join(HERE, "refactors_spec.py")).read(), ns)
    rep = {"FINDINGS": fl, "PROPERTIES": "\n".join(out),
           "NSEEDS": str(sum(map(len, sd.values()))),
           "NCAUGHT": str(sum(ca.values())),
           "NREF": str(len(ns["REFACTORS"])), "EXTRA": ""}
    for k, v in rep.items():
        s = s.replace("{{%s}}" % k, v)
    open(os.path.join(VERIF, "DESIGN.md"), "w").write(s.rstrip() + "\n")
