#!/usr/bin/env python3
"""Regenerates known_findings.json: repaired defects (they suppress nothing) and recorded ones (each re-tried on every run)."""
import json
import os
FIXED = [
    ("C02", "b15cb37", "translate_qlm(q, [0,0,0]) returned the caller's own array: editing the result edited the argument"),
    ("C06", "b39cdfb", "read_gsq on a file cut after any record returned zeros for the missing coefficients"),
    ("C07", "84b740b", "load in a script under a folder whose path contains 'mpc' twice looked for the part in the wrong folder"),
    ("C07", "2c2c223", "a comment or a path holding a command word ('add', 'end', 'zero') was carried out as a command"),
    ("C07", "95c46f8", "rotate, translate or add before the first create stopped the script with an error"),
    ("C07", "75efb52", "create cone ignored its upper radius"),
    ("C07", "97ca3e8", "a comment on a line inside a create command stopped the script with an error"),
    ("C07", "7c77ce7", "a script that ends after a shape without 'end' stopped with an error"),
    ("C09", "01e40d6", "moving a body by an array moved its moments but failed on its CAD mesh"),
    ("C09", "bd7c5a1", "rotate_mesh turned the CAD model in another order than the moments"),
    ("C09", "3d69eb5", "N-gon mesh had another side length and angle than the moments"),
    ("C09", "0852abf", "pyramid mesh was half as long as the moments say"),
    ("C09", "6f27158", "cylinder-hole mesh exchanged radius and height"),
    ("C09", "8ecb37b", "plate-hole mesh did not reach through the plate for tilted holes"),
    ("C09", "35911dc", "outer cone mesh started at the axis and along another axis"),
    ("C14", "588849e", "summing meshes changed the parts' own meshes and depended on their order"),
    ("C11", "1157808", "saving a single mesh failed"),
    ("C11", "37a17a3", "save returned normally with a missing or truncated model file (full disk, missing folder)"),
    ("C09", "e760983", "hole bodies had moments of another mass and orientation than their mesh"),
    ("C09", "29f1103", "a sphere built with outer moments lost them and its centre"),
    ("C09", "aec517f", "an outer cone lost its moments and had another mass"),
    ("C09", "4f15b47", "an annulus with outer moments had another mass than the given one"),
    ("C09", "1196dd0", "outer annulus moment Q53 had a wrong coefficient"),
    ("C09", "655e510", "outer annulus moments turned against the annulus"),
    ("C09", "ff2e719", "bodies built off centre recorded the origin as centre of mass"),
    ("C10", "115f0ef", "converting to outer moments with a zero displacement replaced the moments by nan"),
    ("C09", "7c6221d", "rotating a body with outer moments turned them the other way"),
    ("C10", "9cd65aa", "a rotation, translation or sum whose CAD step failed left the moments changed and the mesh not"),
    ("C09", "9f2dd96", "outer annulus moment Q20 lacked a factor of the height"),
    ("C12", "bf2b36b", "spherical_random_shell failed (division by zero, index error) for streams in which every draw is rejected, likely for one or two points"),
    ("C13", "1ade9a6", "genPointMassSphericalRandomShell failed or lost its mass for streams in which every draw is rejected"),
    ("C16", "8ca86cb", "gridding a scan and building points from an array restarted the caller's stopwatch (toc after the call gave another time)"),
    ("C19", "fa21ed5", "a displayed figure did not contain its axes: it showed nothing"),
    ("C19", "c64faeb", "points of negative mass were invisible in a display scaled by mass"),
]
ZERO = [("RectPrism", [2, False, 1., 1., 1., 1., 0.]), ("TriPrism", [2, False, 1., 1., 1., -1., 1.]), ("Cone", [2, False, 1., 1., 1., 0., 1.]), ("NGon", [2, False, 1., 1., 1., 0., 5]),
        ("Tetrahedron", [2, False, 1., 1., -1., 1., 1.]), ("Pyramid", [2, False, 1., 1., 1., 1.]), ("Cylhole", [2, False, 1., .5, 1.]), ("Platehole", [9, 2, False, 1., 1., .5, .1])]
known = [{"property": "C09", "what": "a %s built with outer moments (none are defined for it) gets a table of zeros although it has mass" % k, "probe": "zero_body", "input": [k, a]} for k, a in ZERO]
known.append({"property": "C09", "what": "an OuterCone built with inner moments (none are defined for it) gets a table of zeros although it has mass", "probe": "zero_body",
              "input": ["OuterCone", [2, True, 1., 1., .5, 1., 1.]]})
known.append({"property": "C09", "what": "an Annulus built with outer moments of degree 6 or more has zeros above degree 5", "probe": "zero_above", "input": ["Annulus", [6, False, 1., 1., .5, 1., 0., .5], 5]})
known.append({"property": "C07", "what": "'create platehole' in a script run with a degree of 6 or more has zeros above degree 5", "probe": "script_zero_above",
              "input": ["p\ncreate platehole\n.5,1,10\n2\n0,0,0\nadd\nend\n", 6, 5]})
entries = [{"status": "fixed", "property": p, "commit": c, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED] + [dict(status="known", **k) for k in known]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/known_findings.json", "w") as f:
    json.dump({"entries": entries}, f, indent=1)
    f.write("\n")
