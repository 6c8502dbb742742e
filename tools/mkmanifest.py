"""Writes MANIFEST.json from the harness modules present and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts on the real functions, verification conditions generated by symbolic execution of /repo's current code, discharged by ring normalisation, z3 and cvc5"
BASE = ("Every obligation is discharged for all inputs admitted by the contract's precondition; machine floats are treated as real numbers; "
        "numpy and math functions by the contracts in vf/shim.py; the engine (vf/) is trusted and cross-checked against CPython executions on every run. ")
NOTE = {
    "C19": "The parser as a whole on documents split into cases, numbers symbolic; spectra of two or three rows and whole documents are bounded.",
    "C20": "apply with every callee returning or raising; structured edits on mappings with symbolic numbers; deletions, HTTP histories and upload names are bounded.",
    "C21": "Edges, counts and device construction for all sizes; the simulated reports are bounded.",
    "C01": "Tracing loop: one arbitrary iteration from an arbitrary state plus the first, so histories of any length; in the compiled loop for any number of nodes and components; the shapes' contracts are C05/C06's, the intersection list's C07's.",
    "C02": "Per event and per iteration of the tracing loop; ray operations exactly.",
    "C03": "For all unit directions, normals of either orientation and refractive index ratios.",
    "C04": "All indices and angles; the decision in the loop and in the kernel.",
    "C05": "Sphere and cylinder (Python), sphere, cylinder and box (kernel). Python's box goes through trimesh, which is not verified. numpy.roots by a Vieta contract.",
    "C06": "Sphere, cylinder, box; box containment in Python goes through trimesh (concrete executions only).",
    "C07": "Compiled loop: any number of nodes and crossings (loop invariants); Python: arbitrary crossings of up to six hits.",
    "C08": "Poses arbitrary rigid motions; chains of nodes up to depth three.",
    "C09": "Compiled loop: any number of components and nodes (loop invariants); Python: choice and total for any number of components, the rest up to four (case split).",
    "C10": "Spectrum tables of up to four entries (case split), symbolic positions and values.",
    "C11": "Tables of up to five entries (case split), symbolic positions and values.",
    "C12": "All draws in [0,1), all parameters.",
    "C13": "Scene.emit, Light.emit, simulate_stream and the workers' shares for any number of rays and workers (loop contracts on the real loops); emit_bundle for up to three lights; multiprocessing.Pool trusted.",
    "C16": "Rows for tables of any length; whole scenes up to four nodes; refusals by execution.",
    "C17": "Every query function with every combination of filters: the SQL text is parsed on each run and given SQLite's meaning over one arbitrary row pair; the SQL semantics is trusted and cross-checked against sqlite3. The commands are executed only.",
    "C18": "Row writers; the monitor's loop from an arbitrary state (any number of throws seen); two arbitrary shares of any number of workers. Threads, the manager's queue and sqlite3 trusted; whole runs executed with random interleavings.",
    "C22": "Frame conditions of the loop over rays, of one arbitrary step, of tally and of record; that disjoint writes make every schedule equal is a trusted composition. The compiled kernel itself compared on several thread counts by execution.",
    "C24": "Entries for recorders by contract, for any number of recorders, histograms and bins. Runs: the websocket handler is the real coroutine driven through every schedule of up to four commands and three bundles (bounded); tallies symbolic. asyncio and the browser's drawing are trusted.",
    "C23": "All finite wavelengths and integer triples; whole nanometres also in machine arithmetic.",
}
LEVEL = {"C24": "model_checking"}
NA = {}
PENDING = "machinery for this property is not finished yet"


def main():
    checks, na = [], []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)["id"]
        if p in NA:
            na.append({"property": p, "reason": NA[p]})
        elif os.path.exists(os.path.join(HERE, "props", p.lower() + ".py")):
            checks.append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
                           "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": LEVEL.get(p, "proof"), "level_note": BASE + NOTE.get(p, "")})
        else:
            na.append({"property": p, "reason": PENDING})
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed. DESIGN.md describes the engine, the contracts, the assumptions and the defects found; known_findings.jsonl lists repaired and known defects."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", [x["property"] for x in na])


main()
