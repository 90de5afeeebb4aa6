"""Writes MANIFEST.json: every property whose check exists."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import ast
src = open(os.path.join(HERE, "harness", "main.py")).read()
groups = ast.literal_eval(src[src.index("GROUPS = ") + 9:src.index("}\n") + 1])
tech = {
 "C01": "TLA+ spec of the record format (MSeed3Format, Primitive, SteimFormat) model checked with TLC on small records; recorded pack/read round trips of the real code judged by TLC",
 "C02": "TLA+ layout spec (MSeed3Format, Crc32c) checked with TLC; packed bytes and spec-laid-out foreign records judged by TLC",
 "C03": "TLA+ CRC-32C and reader spec; exhaustive fault injection in TLC at small size, recorded reads of damaged real records judged by TLC",
 "C04": "TLA+ encoder machine (SteimCodec) model checked with TLC; recorded encodings of the real code decoded and judged by TLC",
 "C05": "TLA+ encoder machine (SteimCodec) model checked with TLC; recorded encodings of the real code decoded and judged by TLC",
 "C06": "TLA+ encoder machine with frame limits model checked with TLC; recorded limited encodings and chains judged by TLC",
 "C07": "TLA+ decoder definition; behaviours of the TLA+ encoder machine (all legal choices) replayed into the real decoder; recorded decodes of arbitrary frames judged by TLC",
 "C08": "TLA+ two's complement and IEEE spec (Primitive); recorded encode/decompress calls judged by TLC",
 "C09": "TLA+ stream reader machine with regular expression semantics model checked with TLC; recorded reads judged by TLC",
 "C10": "TLA+ merge machine model checked with TLC; its behaviours replayed into pairwise, reader and tool merging, judged by TLC",
 "C11": "TLA+ calendar spec model checked with TLC; recorded time conversions judged by TLC",
 "C12": "TLA+ JSON pointer and edit spec; recorded tool runs on files judged by TLC",
 "C13": "TLA+ file replacement machine with crashes model checked with TLC; real tool crashed at every step, file states judged by TLC as traces of the machine",
 "C14": "TLA+ record object lifecycle machine model checked with TLC; its histories replayed into real objects with state compared after every step",
 "C15": "TLA+ spec of the miniSEED 2 format (MSeed2Format); recorded round trips judged by TLC",
 "C16": "TLA+ miniSEED 2 reader spec; foreign streams laid out independently, recorded reads judged by TLC",
 "C17": "TLA+ conversion spec over MSeed2Format and MSeed3Format; recorded conversions judged by TLC",
 "C18": "TLA+ source identifier grammar model checked with TLC; recorded calls judged by TLC",
 "C19": "TLA+ NSLC mapping spec model checked with TLC; recorded calls judged by TLC",
 "C20": "TLA+ band code table model checked with TLC (partition, monotone); recorded calls on exact doubles judged by TLC",
 "C21": "TLA+ report spec; recorded tool output judged by TLC",
 "C22": "TLA+ spec of the code tables and the tool model checked with TLC; recorded tool runs and calls judged by TLC",
 "C23": "TLA+ machine of miniSEED 2 record objects as code represents them model checked with TLC to refine what they hold; generated histories replayed into real objects, recorded states judged by TLC",
 "C24": "TLA+ spec of cut and contradictory streams model checked with TLC; recorded reading of damaged streams judged by TLC",
 "C25": "TLA+ spec of sessions of tools as processes on files, model checked with TLC; recorded sessions of the real tools, damage and kills included, judged from the bytes of the files by TLC",
}
note = {
 "default": "exhaustive for the specification at the stated small constants; for the implementation every recorded run is judged in full, runs are sampled and enumerated as described in DESIGN.md and counted in the evidence"}
checks = []
for g, ps in groups.items():
    if not os.path.exists(os.path.join(HERE, "harness", g + ".py")):
        continue
    text = open(os.path.join(HERE, "harness", g + ".py")).read()
    for p in ps:
        if f"def check_{p}(" not in text:
            continue
        checks.append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
                           technique=tech[p], level="model_checking", level_note=note.get(p, note["default"])))
checks.sort(key=lambda c: c["property"])
done = {c["property"] for c in checks}
na = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i not in done:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not yet")
