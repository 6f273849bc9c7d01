"""Writes MANIFEST.json and known_findings.json."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]

T = {
    "C01": ("generated scenes and rays (Hypothesis), invariants over the recorded flight history", "every flight point and leg of each generated run is checked against the budget, termination and straight-line invariants"),
    "C02": ("generated scenes against an independent reference tracer, plus order-permutation metamorphic relation", "each step of the run is predicted from the state before it; cases within 1e-6 of a tie or an edge are left undecided and counted"),
    "C03": ("metamorphic: split runs and interaction limits against one run, over generated scenes", "differential against an unsplit run of the same code"),
    "C04": ("metamorphic: rigid motions and rescaling of generated scenes", "the moved scene's trace has to be the moved trace; ambiguous cases are filtered with the reference model"),
    "C05": ("stateful histories of builds, traces, edits and queries against a freshly built model", "snapshots of every element and caller array after each operation"),
    "C06": ("generated planes, discs and rectangles with rays aimed through, beside and past the edge, closed-form oracle", "edge cases within tolerance are undecided"),
    "C07": ("generated spheres and rays (constructed crossings, tangents, inside, behind, far) against a geometric oracle", "crossings recomputed from the point of closest approach"),
    "C08": ("generated cylinders and rays (constructed crossings, parallel, inside, far) against a geometric oracle", "crossings recomputed in the plane across the axis"),
    "C09": ("generated incidences and normals, law of reflection as predicate, involution", "angles within 1e-9"),
    "C10": ("generated incidences and index pairs, Snell's law as predicate, reversibility", "critical angle neighbourhood undecided"),
    "C11": ("generated lenses and rays followed step by step with a Snell reference, path reversal", "ball lenses and compound solids in isolation and in scenes"),
    "C12": ("generated trees and points against set algebra", "points within 1e-6 of a surface undecided"),
    "C13": ("generated trees and rays against interval algebra along the ray", "first true boundary, normal and parity"),
    "C14": ("generated thin lenses and rays, conjugate-point and focus predicates", "imaging, collimation and focusing laws"),
    "C15": ("generated curved mirrors and rays against sphere geometry", "hit point, side and reflection; focus of axial rays"),
    "C16": ("generated gratings, orders and wavelengths, grating equation as predicate", "projected-angle convention of the code's own comments"),
    "C17": ("histories of rays over shared detectors against a model of the record", "records compared value by value"),
    "C18": ("generated source parameters and probe scenes, documented bundle as predicate", "grid, fan, colours, sphere of probes"),
    "C19": ("generated vectors and pairs, algebraic laws and constructed angles", "parallel and opposite pairs over-represented"),
    "C20": ("generated axes, angles, vector pairs; Rodrigues reference and matrix laws", "opposite and nearly opposite pairs over-represented"),
    "C21": ("stateful: insertion histories against a model tree; round trip of expressions to text", "full comparison after each operation"),
    "C22": ("generated parameter combinations, accept/reject oracle; text read back", "texts parsed and compared to five digits with exact decimals"),
    "C23": ("generated doubles and precisions, exact decimal oracle", "carries, halves and powers of ten over-represented"),
    "C24": ("generated wavelengths, gammas and limits; range, clamp, continuity and hue predicates", "neighbourhoods of the band limits over-represented"),
    "C25": ("generated data against exact definitions, round trips, polynomial reproduction and linearity", "the ends against the documented padding"),
    "C26": ("generated arguments against Gauss-Legendre quadrature and the closed formulas", "tolerances scale with a scan of the early stop of the numerical integral"),
    "C27": ("generated directory trees in a guarded scratch directory, before/after set oracle", "an audit hook refuses every change outside the scratch directory"),
    "C28": ("generated elements drawn on 3D axes, artists read back against geometry; scenes traced before and after", "reads the vertices of matplotlib's 3D artists"),
    "C31": ("metamorphic: generated scenes traced there and back", "sensitive, tied and grazing paths are left undecided by perturbing the reference model"),
    "C30": ("generated scenes traced silently and aloud; bit-exact differential, and the printed lines parsed back against the recorded path", "what each printed flight met is compared where the reference model decides it"),
    "C29": ("generated arrays, pads and formats; the text parsed back column by column", "model of the layout"),
}

checks = []
for p in PROPS:
    t, note = T[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "./check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p["id"],
                   "technique": "property-based testing: " + t, "level": "exploration",
                   "level_note": "Random search with shrinking, no exhaustiveness: " + note + ". Trusts numpy, Hypothesis and the reference model in pbt/."})
m = {"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks, "not_applicable": [],
     "notes": "Pure Python: nothing is built; every check imports /repo's working tree. ./check.py <ID> --replay FILE re-runs one recorded case."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

FIXED = [
    ("C22", "4708552", "Mirror(position, normal=..., D=...) without dmd_normal raised TypeError"),
    ("C07", "1aa4606", "a ray leaving a sphere or compound hit the spot it started from again through rounding (also C01, C15)"),
    ("C07", "17ed3cd", "sphere and cylinder crossings of rays starting far away were off by up to 1e-4 through cancellation (also C08)"),
    ("C07", "f74c426", "a sphere or cylinder touched at one point behind the ray was reported as a hit (also C08)"),
    ("C08", "56842b4", "a ray exactly parallel to a cylinder's axis was reported as a hit at NaN"),
    ("C08", "c7cebb9", "a ray parallel to a cylinder's axis up to rounding was reported as a hit at a distance of 1e15"),
    ("C11", "32beb97", "Ray.run passed the inside/outside state of the optic tested last, not of the one hit (also C02)"),
    ("C20", "2b1b935", "rotation_matrix(2,4) gave NaN or a reflection for opposite directions and rotation_matrix normalised its arguments in place (also C28)"),
    ("C16", "4a4e0fa", "a grating lit from the other side of its normal broke the grating equation"),
    ("C16", "c8e1649", "an order that cannot leave the grating gave the ray a NaN direction"),
    ("C13", "dcfb1f8", "rays met compound solids at surfaces inside the solid or missed its boundary (also C11)"),
    ("C19", "24dda82", "angle_between of parallel vectors was NaN through rounding"),
    ("C19", "6410bd8", "the signed angle changed with the length of the normal"),
    ("C25", "db57bca", "savitzky_golay raised AttributeError (np.int)"),
    ("C26", "4f2937d", "FD_int_num raised TypeError (linspace with a float count)"),
    ("C12", "0794bb6", "get_index_at_point_if_inside of a ball lens raised AttributeError"),
    ("C27", "28b7aab", "delete_files_with_extension raised on a folder whose name ends with the extension"),
    ("C22", "87c28ef", "repr of ball lenses, convex mirrors, discs and others raised"),
    ("C28", "fc3356e", "rendering a figure with drawn elements raised AttributeError (_axlim_clip)"),
    ("C01", "792edef", "the length of a refracted ray's direction drifted by the square of the index ratio, so that after a long flight the next element was met twice (also C04)"),
    ("C03", "2adf3d1", "a ray between the flat aperture disc of a concave mirror and its cap (a run split there) passed through the mirror, and oblique rays were reflected outside the aperture (also C02, C15)"),
    ("C28", "4367eaf", "rectangular mirrors and gratings were drawn without the roll of their tangent"),
    ("C30", "b51472a", "a grating lit from the negative side of its normal printed the wrong turning angle"),
]
json.dump({"findings": [], "fixed": ["fixed: property=%s %s %s" % f for f in FIXED]}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
print(len(checks))
