"""Writes known_findings.jsonl: repaired defects (shas from /repo's log) and known ones."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix of the fix: commit -> (property, what failed)
FIXED = [
    ("fix: Ray.propagate divided", "C02", "Ray.propagate(0) raised ZeroDivisionError"),
    ("fix: Sphere.intersections merged", "C05", "the two crossings of a small (radius 1e-5) or nearly grazed sphere were merged into one"),
    ("fix: Node.look_at ignored", "C08", "look_at((0,0,2)) and other non-unit vectors gave a wrong rotation"),
    ("fix: translating a node", "C08", "translate on a node whose location was given as integers raised a casting error"),
    ("fix: leaving a node towards", "C07", "leaving a node towards a sibling reported the sibling, not the parent, as the adjacent medium"),
    ("fix: Distribution accepted", "C11", "Distribution accepted y tables with some infinite or NaN entries"),
    ("fix: henyey_greenstein(0)", "C12", "henyey_greenstein(0) raised ZeroDivisionError"),
    ("fix: components with an integer", "C09", "Absorber(1): coefficient() raised AttributeError for an integer coefficient"),
    ("fix: points in the plane", "C06", "on_aabb_surface((5,5,0.5)...) counted points in the plane of a face but outside the box as on its surface"),
    ("fix: Cylinder missed surface", "C06", "Cylinder.is_on_surface missed rim-adjacent cap points and contains() counted surface points as inside"),
    ("fix: Henyey-Greenstein directions", "C12", "Henyey-Greenstein directions were NaN for |g| around 1e-17 to 1e-9"),
    ("fix: Node.look_at was", "C08", "look_at for directions near +z / -z snapped to the axis or used a degenerate rotation axis"),
    ("fix: component selection could", "C09", "Material.component with coefficients [0.3, 0, 0.7] and the draw 1-2**-53 raised IndexError; a draw of 0 picked a zero-coefficient component"),
    ("fix: the compiled engine could select", "C09", "the kernel picked a leading component with zero coefficient for the draw 0"),
    ("fix: inverting a spectrum", "C10", "the kernel's spectrum inversion returned the first wavelength although the spectrum vanishes there"),
    ("fix: sampling a spectrum with unevenly", "C11", "Distribution's cumulative probability ignored uneven spacing of x (x=[0,1,10], y=1: lookup(1) was 0.5)"),
    ("fix: luminophores with histogram", "C10", "hist spectrum [400:1, 500:1, 600:0] absorbed at 550 nm with 'redshift' emitted at 500 nm"),
    ("fix: sampling a histogram", "C11", "hist sampling of an array returned one scalar when a probability rounded past the last cumulative value"),
    ("fix: the compiled engine reported a sibling", "C07", "kernel trace_one: leaving a node towards a sibling recorded the sibling as the adjacent medium"),
    ("fix: the compiled engine could drop", "C14", "kernel trace_one: a ray whose event budget ran out on an absorption got no kill event"),
    ("fix: histograms counted values", "C15", "values up to one bin width below a histogram's range were counted in its first bin (truncation towards zero), in both implementations; huge values were converted to int out of range"),
    ("fix: tracing with zero", "C14", "simulate(workers=0) let OpenMP start several threads while one tally slice was allocated: out-of-bounds writes and lost counts (200000 rays counted as 64256); workers=-1 died in libgomp"),
    ("fix: the compiled engine traced rays without", "C13", "engine.emit_bundle on a scene without lights returned N rays at the origin with a zero direction and no source (Scene.emit raises)"),
    ("fix: streamed bundles", "C13", "simulate_stream restarted the turn of the lights in every bundle (2 lights, bundles of 3: a b a | a b a), so its rays were not those of one simulate call"),
    ("fix: two workers could draw", "C13", "Scene.simulate drew one seed per worker independently; equal draws made two workers throw identical rays"),
    ("fix: recorders on nodes without", "C16", "a recorder on a node without geometry vanished from the compiled engine's results (tally_histories reports it)"),
    ("fix: scenes with too many nodes", "C16", "a scene of 129 geometry nodes compiled; the kernel then raised ValueError, which callers falling back on UnsupportedSceneError do not catch"),
    ("fix: subclasses redefining", "C16", "a Luminophore subclass with its own emit(), a Box subclass with its own normal(), a Cone subclass with its own __call__() or a Surface with its own is_reflected() were traced as their base class"),
    ("fix: light delegates redefining", "C13", "a light with a Cone (mask, wavelength) subclass with its own __call__() was sampled as the built-in class by the compiled engine"),
    ("fix: an empty facet or source filter", "C17", "sql_*(node, facet='') and --source '' selected every row instead of those with that label"),
    ("fix: time lost, reacted and killed", "C17", "pvtrace-cli time lost/reacted/killed raised IndexError on every non-empty result"),
    ("fix: throws of different workers", "C18", "events of different throws shared a throw id when one pool process ran two workers' shares (200 rays on 100 workers: 194 throw ids)"),
    ("fix: LSC ignored", "C21", "LSC(size, wavelength_range=...) kept the default range"),
    ("fix: LSC.add_scatterer", "C21", "LSC.add_scatterer raised NameError"),
    ("fix: a specular air gap", "C21", "a device with a specular air gap mirror transmitted rays at the mirror"),
    ("fix: LSC reports swapped", "C21", "rays leaving through y=+W/2 and y=-W/2 were reported under each other's edge"),
    ("fix: LSC.simulate failed", "C21", "LSC.simulate raised AttributeError with the installed pandas"),
    ("fix: simulating an LSC", "C21", "LSC.simulate a second time raised UnboundLocalError; reports kept the counts of the first"),
    ("fix: LSC reports lost", "C21", "rays absorbed in the device were missing from every count of the report"),
    ("fix: spectra of whole numbers", "C19", "a CSV spectrum of integers scaled by a coefficient was truncated to integers"),
    ("fix: components with a spectrum alone", "C19", "a component with a spectrum and no coefficient could not be parsed"),
    ("fix: a coefficient of zero", "C19", "coefficient: 0 was taken as missing"),
    ("fix: scatterers and luminophores with a coefficient", "C19", "a scatterer or luminophore with a coefficient alone raised KeyError"),
    ("fix: plain light masks", "C19", "light masks given as a plain point or number raised TypeError"),
    ("fix: a document the studio could not", "C20", "PUT of a document with .nan or .inf answered with an error but had replaced document, scene and specification"),
    ("fix: a run started in the studio did not", "C24", "commands run, stop, run: the first run went on and its bundles were shown among those of the second, and ended it"),
    ("fix: a studio run could describe", "C24", "a document applied while the first message of a run was being sent: axes of one scene, tallies of another, or an error"),
    ("fix: the engine sampled phase functions", "C10", "compiled engine: a scatterer or luminophore of a rotated node emitted about the world's z axis instead of the node's (cone and Henyey-Greenstein phase functions)"),
]
KNOWN = [
    ("C20", "structured edits (set, move, update-recorder) of a node or recorder whose mapping is shared through a YAML anchor (nodes: a: &x {...}, b: *x, or <<: *x) "
            "change every user of the anchor: moving b moves a. Not repaired: which of the two a user means is not decided by the document"),

    ("C17", "spectrum and time commands with --output json, when one throw is listed with more than one value (a ray entering a node twice): pandas refuses "
            "the repeated index (ValueError) and nothing is printed; csv and plot are right. Not repaired: any repair changes the JSON layout users read"),
    ("C10", "compiled engine, redshift or kT method: when the start of the emission window lies beyond the last wavelength of the luminophore's emission table "
            "the kernel clamps it and emits exactly the last table wavelength, which is shorter than allowed (the Python tracer raises ValueError there)"),
]


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    used = set()
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for pre, prop, what in FIXED:
            c = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(pre)]
            assert len(c) == 1, pre
            used.add(c[0])
            f.write(json.dumps({"property": prop, "status": "fixed", "commit": c[0], "what": f"fixed: property={prop} {c[0]} {what}"}) + "\n")
        for prop, what in KNOWN:
            f.write(json.dumps({"property": prop, "status": "known", "what": what}) + "\n")
    rest = [l for l in log if l.split(" ", 1)[1].startswith("fix:") and l.split()[0] not in used]
    print("unrecorded:", rest)


main()
