#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SESSION = "TLA+ Session spec (TLC) + validation of recorded encode/decode histories (SessionTrace)"
T = {
 "C01": (SESSION, "Session"),
 "C02": (SESSION + "; ZipDict mechanism model-checked", "Session, ZipDict"),
 "C03": (SESSION + "; ZipBack mechanism model-checked", "Session, ZipBack"),
 "C04": (SESSION + "; Rle mechanism model-checked", "Session, Rle"),
 "C05": (SESSION + "; Delta mechanism model-checked", "Session, Delta"),
 "C06": ("TLA+ Huffman spec (TLC, optimality against brute force) + trace validation of real streams node by node and symbol by symbol", "Huffman"),
 "C07": ("TLA+ ZipDict spec (TLC) + replay of its behaviours into the code + trace validation of real streams pair by pair", "ZipDict"),
 "C08": ("TLA+ ZipBack spec (TLC) + trace validation of real streams symbol by symbol", "ZipBack"),
 "C09": ("TLA+ Rle spec (TLC) + trace validation of real streams pixel by pixel", "Rle"),
 "C10": ("TLA+ Rle spec with tolerance (TLC) + trace validation of real streams pixel by pixel, exact integer arithmetic", "Rle"),
 "C11": ("TLA+ ClusterColors spec + trace validation of recorded encode/decode pairs", "ClusterColors"),
 "C12": ("TLA+ Voronoi spec (TLC) + trace validation of recorded streams and paintings", "Voronoi"),
 "C13": ("TLA+ KMeans spec (TLC) + trace validation of recorded clusterings", "KMeans"),
 "C14": ("TLA+ Traversal spec + trace validation of every recorded traversal step", "Traversal"),
 "C15": ("TLA+ Bench spec of tasks, report and schedules (TLC); TLC-generated schedules replayed into the code with gates; recorded reports validated", "Bench"),
 "C16": ("TLA+ Bench spec (TLC); generated outcome/schedule combinations replayed into the code, recorded reports validated", "Bench"),
 "C17": ("TLA+ Metrics spec (integer digit machine) + trace validation of recorded report rows", "Metrics"),
 "C18": ("TLA+ FunCall pushdown and CodecArg grammar specs; TLC enumerates the strings, expected outcomes replayed into the parsers", "FunCall, CodecArg"),
 "C19": ("TLA+ Session/SessionBytes specs (TLC) + validation of recorded truncate/decode histories", "Session"),
 "C20": ("TLA+ Session/SessionBytes specs with writer faults (TLC) + validation of recorded faulty encodings", "Session"),
 "C21": ("TLA+ Dump spec + validation of the files a real run wrote", "Dump"),
 "C22": ("TLA+ Report spec + validation of the files a real run wrote", "Report"),
 "C23": ("TLA+ History spec (TLC) + TLC-generated call histories and interleavings replayed into shared codec objects", "History"),
 "C24": (SESSION + " with several streams on one medium", "Session"),
 "C25": ("TLA+ format specs generate well-formed streams with their meaning (TLC simulation), replayed into the real decoders", "Huffman, Rle, ZipDict, ZipBack, Voronoi"),
    "C26": ("TLA+ Workspace spec (TLC, and three refuted variants) + TLC-generated histories of command-line runs replayed in one directory, validated as traces", "Workspace"),
    "C27": ("TLA+ Workspace spec (TLC, and a refuted variant) + TLC-generated histories of runs with failing outputs replayed for real, validated as traces", "Workspace"),
}
LEVEL_NOTE = ("The specification(s) %s are model-checked exhaustively with small constants; the real code is bound to them by checking "
              "recorded runs over a large corpus (generated by TLC and by hand). Inputs outside the corpus are not decided. "
              "Trusts TLC and the recording driver.")


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(V, "lib", "props", p.lower() + ".py")):
            checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                               evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking",
                               level_note=LEVEL_NOTE % T[p][1]))
        else:
            na.append(dict(property=p, reason="the check is not built yet"))
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             hooks=dict(guard="cfg(cniic_verif) (and cfg(cniic_verif_<part>) inside the driver)",
                        enable="cargo rustc --bin cniic -- --cfg cniic_verif ... with CNIIC_VERIF_DRIVER naming the driver source (lib/core.py build())",
                        source_commits=["8a09cde"]),
             checks=checks, not_applicable=na,
             notes="TLA+ with TLC. See DESIGN.md. known-findings.txt lists repaired and open defects.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
