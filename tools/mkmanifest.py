"""Writes MANIFEST.json from properties.jsonl and propinfo."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import propinfo
NA = "a pure function of its input: no schedule, clock, fault, storage or interleaving takes part, so there is nothing for a simulator to inject or order; its memory safety, determinism, leaks, allocation failures, inputs and concurrency are covered by C08-C12"
LEVEL = "seeded search over inputs, histories, schedules and faults with the real code in one process under the simulator; a clean run is evidence over the seeds explored, not a proof. "
NOTE = {
 "C01": "Oracle: plain-array model of every file and cube, independent header parser.",
 "C02": "Oracle: a load that a fault or a short file touched must fail (or, where the fault hit nothing the result needs, return exactly the file's content).",
 "C03": "Oracle: normal return implies the files decode to the saved cube or bitmap; a fault that fired and lost bytes implies non-zero exit.",
 "C04": "Oracle: after each crash point both loaders give exactly the old or exactly the new content, or refuse. Writes of one process become durable in order (no reordering of unsynced writes is modelled).",
 "C05": "Oracle: independent BMP encoder and decoder.",
 "C06": "Oracle: AddressSanitizer with exact block bounds over arena memory, step and allocation limits, independent header parser for accepted files.",
 "C07": "Oracle: plain-array model of every live object after every step.",
 "C08": "Oracle: the same call repeated under other leftover memory, placements, stack content and call histories gives bit-identical results; AddressSanitizer with exact bounds.",
 "C09": "Oracle: allocator balance and open-handle count after results are released.",
 "C10": "Oracle: outcome is failure or the fault-free result; inputs unchanged; AddressSanitizer.",
 "C11": "Oracle: results equal the solo run, for seeded interleavings at the granularity of single instrumented memory accesses, allocations and libc memory calls.",
 "C12": "Oracle: pages of every source object are write-protected during the call and compared afterwards.",
 "C13": "Oracle: an independent reference k-means run on the same random stream, plus bounds, fixed-point and no-image-change checks.",
 "C14": "Oracle: log of window-system calls and the painted pixels checked against the event list and the image.",
 "C15": "Oracle: std::vector model after every step.",
 "C16": "Oracle: plain-array model of every C++ cube and of the files after every step, cross-loading.",
 "C18": "Oracle: a table of the requirements of about 110 operations; a request that violates one must not return or exit with status 0, one that violates none must return; AddressSanitizer; all files compared.",
 "C19": "Oracle: elements are a function of their position; cuts, bands and spliced parts are compared completely, whole-cube results at 300000 random positions and around every 2^31 and 2^32 boundary; pages of sparse cubes that changed are compared with the named elements; huge files hold a repeated pattern that every device write is compared with. Library compiled with -O2 -fwrapv, huge blocks end at unmapped pages.",
 "C20": "Oracle: the generator of the header knows the cube it describes; a load must give exactly that cube, and a load that a defect or fault touched must fail (or, where the fault hit nothing the result needs, still give that cube).",
 "C17": "Oracle: model of every file; fault-free phase must succeed.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the simulator interposes at link time (--wrap, fopencookie-style stdio over a simulated disk, stub SDL headers). See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in propinfo.PROPS:
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences", "level": "exploration", "level_note": LEVEL + NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA if i[0] == "N" else "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
