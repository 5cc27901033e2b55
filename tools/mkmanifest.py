"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import checks
T = "TLA+ model checked with TLC; "
CODEC = T + "programs generated from the model are compiled and run against the real crate, and their recorded conversions are validated by TLC against the model"
BUF = T + "scripts generated from the model drive the real writers and sizers, and the recorded sessions are validated by TLC against the model"
NOTE = {
 "C01": (CODEC, "Exhaustive over all pairs of the 26 member types and the nested and random families named in the evidence, plus big structs (hundreds of fields, members of many kilobytes, hosts of any alignment); for any number of fields of any size, Apalache shows that the transcribed arithmetic agrees with the standard's (UnboundedDeclare); the standard's layout rules (spec/Glsl.tla) are transcribed by hand and trusted, as is rustc."),
 "C02": (CODEC, "As C01, for std430."),
 "C03": (CODEC, "All supported scalar, vector, point and matrix types of all four libraries and crevice's own, in both layouts; values are sampled, the byte movement does not depend on them."),
 "C04": (CODEC + "; writer sessions likewise", "Built with and without optimisation, over a stack filled with garbage beforehand; padding never read as uninitialised is inferred from the bytes. Big structs as in C01, long writer sessions as in C06."),
 "C05": (CODEC, "Round trips of special and random values and read-back of arbitrary buffers, in both layouts; big structs as in C01."),
 "C06": (BUF, "Short scripts exhaustively, long ones at random, up to 70,000 values and past 4 GiB; values by their layout bytes and alignments, which are also compared with the standard's. For any number of items, calls and faults, Apalache shows the counts inductive (UnboundedBuffer)."),
 "C07": (BUF, "As C06; sizer and queries against a writer that receives the same types, user types that write differing amounts included."),
 "C08": (BUF, "As C06; slices may be packed or spread as GLSL arrays here (C14 decides that). Iterators with every honest kind of size hint, resuming and panicking ones, and of up to tens of thousands of items."),
 "C09": (BUF, "Every single fault at each of the first output requests of short scripts, random schedules of several faults, storms of up to hundreds of interruptions or one-byte accepts over values of more than a kilobyte, and values of up to 68 KB."),
 "C10": (CODEC, "All supported types of mint, cgmath, glam and nalgebra."),
 "C11": (T + "the text generated by the real derive is validated by TLC against the model's declaration, and re-laid-out against the recorded bytes", "The lexer that splits the text into tokens is trusted."),
 "C12": (CODEC + "; writer and sizer sessions likewise", "All wrapped types, structs with wrapped members, nested wrappers, alignments up to 65536, sizers past 4 GiB."),
 "C13": (CODEC + "; all 2^32 words of a bool are read back", "All 2^32 words for bool; for components of vectors the words named in the evidence (all in the thorough tier)."),
 "C14": (BUF, "All element types; the packed std140 slices of elements aligned below 16 are a recorded finding."),
 "C15": (T + "declarations generated from the model must compile and behave as the model says", "Declarations sampled from the model's vocabulary of names, placements, scopes and field types; structs of up to 200 (thorough: 256) fields must compile within minutes."),
 "C16": (CODEC + ", in each feature configuration", "All combinations of std and the three math libraries, and the derive's debug methods (half of them with fewer programs in the quick tier); run on the host target."),
 "C17": (CODEC, "Arbitrary bytes through casts, copies and self-conversion, with and without optimisation; big structs as in C01."),
 "C18": (T + "uses generated from the model are compiled against the real crate, and what rustc accepts is validated by TLC against the model's admission rule", "Every listed stranger in every form of use, in three feature configurations; arrays and references, which GLSL could give a meaning, are not judged."),
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup", "checks": [], "not_applicable": [],
     "notes": "All checks share bin/check; the specification is in spec/. Repairs and findings: known_findings.txt."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "bin/check " + i,
                            "technique": NOTE[i][0], "level": "model_checking", "level_note": NOTE[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
