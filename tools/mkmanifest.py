#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json, subprocess
CHECKS = {
 "P01": ("random and structured text fuzzing, no-panic and determinism oracles", ""),
 "P02": ("property-based testing: coverage invariant over generated documents and text soup", ""),
 "P03": ("property-based testing: invariant over the regions of every element, re-reading the source", ""),
 "P04": ("property-based testing against a generated reference model of the document", ""),
 "P05": ("property-based testing against a generated reference model of the list", ""),
 "P06": ("property-based testing against a generated reference model of the table", ""),
 "P07": ("property-based testing against a generated reference model of the definition list", ""),
 "P08": ("property-based testing against a generated reference model of inline markup", ""),
 "P09": ("property-based testing: links written from components, components read back", ""),
 "P10": ("property-based testing: format then parse round trip over random documents and configurations", ""),
 "P11": ("property-based testing: idempotence of formatting over random documents and configurations", ""),
 "P12": ("property-based testing: HTML read back to a DOM, compared with a reference DOM of the generated document", ""),
 "P13": ("fuzzing with markup-significant characters in every position: strict HTML reader and escaping oracle", ""),
 "P14": ("property-based testing: uniqueness and self-link invariants over histories of repeated and colliding texts", ""),
 "P15": ("property-based testing against an independent reference resolver of addresses", ""),
 "P16": ("metamorphic testing: renderings of clones, copies, serialised copies and other processes are compared", ""),
 "P17": ("property-based testing against a reference template engine over generated templates and pages", ""),
 "P18": ("metamorphic testing: clones, owned copies and JSON round trips compared; equality laws on pairs and triples", ""),
 "P19": ("property-based testing against a reference grid, built directly and parsed", ""),
 "P20": ("property-based testing: numbering against independent reference numerals, progress against a reference recursion", ""),
 "P21": ("metamorphic testing: line endings and surrounding blank lines changed", ""),
 "P22": ("metamorphic testing: pairs of documents parsed apart and joined", ""),
 "P23": ("property-based testing against a reference lookup over generated sets of wikis and paths", ""),
 "P24": ("property-based testing: random subsets of settings as TOML and JSON, read, written and read again", ""),
 "P25": ("stateful property-based testing of the binary: generated file trees and runs against a reference of the whole tree", ""),
 "P26": ("property-based testing of the binary: generated wikis and selections, file tree compared with the library's renderings", ""),
 "P27": ("model-based testing of the binary: histories of edits, runs and injected cache damage against cache-free runs", ""),
 "P28": ("property-based testing of the binary: generated wikis and selections against a reference tree and path selection", ""),
 "P29": ("differential testing: generated programs of macro calls, compiled and run, against the parser at run time", ""),
 "P30": ("differential testing: wrappers driven natively over generated documents and constructor arguments, against the library", ""),
 "P31": ("metamorphic testing: documents with comments put into them, canary text must not appear", ""),
 "P32": ("property-based testing: borrowed and consuming walks, kind tests and conversions compared over every element", ""),
 "P33": ("property-based testing of the binary with a stand-in editor: generated lists, settings, paths and faults against a reference", ""),
 "P34": ("differential testing: pages rebuilt through the public constructors compared with the parsed ones", ""),
 "P35": ("property-based testing: edits through mutable access against a reference edit; algebraic laws of helper values", ""),
 "P36": ("metamorphic testing: elements cut out of documents and read by their own types", ""),
 "P37": ("fuzzing of constructed pages: HTML read back and compared with a reference DOM, text and JSON oracles", ""),
 "P38": ("property-based testing: pages grown in generated shapes, processor time of parsing, formatting and rendering bounded", "bounded: pages of up to 1200 bytes"),
 "P39": ("model-based testing of histories in a child process, and differential testing of the program watched and not watched", ""),
 "P40": ("fault injection: generated failures, file size limits and kills against a model of what each command may leave behind", ""),
 "P41": ("concurrency testing of processes: generated sets of commands started together over one cache, against the result of each alone", "Explores the interleavings that the machine gives; there is no control of the schedule."),
}
impl = subprocess.run(["/verif/target/debug/vh", "list"], capture_output=True, text=True).stdout.split()
checks = []
for pid, (tech, note) in CHECKS.items():
    assert pid in impl or pid in ('P30', 'P39'), pid
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid} quick",
        "thorough_cmd": f"./check.sh {pid} thorough",
        "technique": tech,
        "level": "exploration",
        "level_note": note or "Explores generated inputs only; what no generated case reaches is not decided.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./build.sh all",
    "checks": checks,
    "not_applicable": [],
    "notes": "All checks are one Rust harness (harness/) that depends on /repo by path and is rebuilt by every check. See DESIGN.md.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
