#!/usr/bin/env python3
"""Lists the fix commits of /repo in known_findings.jsonl (keeps 'known' lines)."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(ROOT, "known_findings.jsonl")
keep = []
if os.path.exists(F):
    keep = [json.loads(l) for l in open(F, encoding="utf-8") if l.strip()]
    keep = [k for k in keep if k["status"] == "known"]
RULES = [  # first match names the property
    (r"archive|tar |temp|cleanup", "P21"), (r"\.\.|links in a tar", "P20"),
    (r"bib|\.bbl|biblio", "P22"), (r"encod|utf", "P24"), (r"main tex", "P32"), (r"includes itself|inputs next", "P18"),
    (r"leak|alias", "P15"), (r"hang|forever|nesting|loop", "P01"), (r"no longer raise", "P01"),
    (r"\\let|redefin|provide|definition|command with arg", "P14"), (r"number|heading|section", "P04"),
    (r"table|cell|tabular|multirow", "P08"), (r"accent", "P23"), (r"code block|percent|code", "P11"),
    (r"formula|equation", "P09"), (r"label", "P06"), (r"citation|caption|link", "P07"), (r"quote", "P03"), (r".", "P03"),
]
OVERRIDES = {'179e0d7': 'P30', '4b398bc': 'P08', 'fd54fbf': 'P31', 'b758cb5': 'P31', 'd2e7304': 'P31', '12180d6': 'P31', 'bff0b56': 'P22', 'cdd8088': 'P17', '90d955a': 'P17', 'd972996': 'P23', 'bfee821': 'P12', '9339f94': 'P12', 'df48393': 'P07', '2788e94': 'P11', '7776672': 'P25', 'c0c05dd': 'P22', '6c722a0': 'P01', '38ec559': 'P01', '7ccc37b': 'P02', '1f3b43f': 'P06', '3cb238c': 'P34', '6b1f38a': 'P34', 'eb34d67': 'P34', 'e9464df': 'P13', '6dc283b': 'P13', '1951f57': 'P01', '1b41a3b': 'P01', '6784984': 'P24', '54989c8': 'P24', 'bdda5c1': 'P22', 'f8df3d3': 'P32', '999ff96': 'P01', '3f61265': 'P01', 'faa4fd1': 'P01', '75292a2': 'P01', '1ba785c': 'P01', 'dad532b': 'P06', '3fba959': 'P14', '82fe2b6': 'P01', '13478d7': 'P14', '7b654a1': 'P18', 'bb640ba': 'P20', '497a4bd': 'P20', '68aca43': 'P01', '329249c': 'P01', '386948f': 'P01', '5594c0a': 'P01', '4b07b97': 'P01', '2fcee3f': 'P01', '7bf49ed': 'P13', '54a7508': 'P13', '2c16584': 'P13', '465f9df': 'P02', '54429b0': 'P10', 'e8dd6f6': 'P10', '8bdfeb7': 'P25', '16bc1cc': 'P03', 'eaddfad': 'P12', '24f5061': 'P17', 'cf7a0cb': 'P17', 'cca3742': 'P17', '9ab90f5': 'P12', '572984e': 'P17', '538d38f': 'P13', '31ffc80': 'P22', '61e8e06': 'P31', '0e98170': 'P14', 'b01d56f': 'P31', '75838ac': 'P31', '0e8f55a': 'P31', '3adaad1': 'P31', 'c7ba9d1': 'P31', 'aad4cb4': 'P31', '01ad1c2': 'P31', '9c612eb': 'P23', 'ecc6d13': 'P23', '704d8c9': 'P23', 'a830f85': 'P23', '5076d08': 'P08', '4afcacd': 'P29', 'f85f0cc': 'P26', 'd83e7cc': 'P26', '5ebf5ff': 'P26', '211ea1e': 'P28', 'a56fceb': 'P34', '5cb8e8d': 'P34', '9a4c454': 'P34', '1842029': 'P26', '156a445': 'P35', '52aedc5': 'P35', '3799ca3': 'P12', '2049d68': 'P07', '019d458': 'P07', 'c99be89': 'P10', '816b2fb': 'P31', '99b6911': 'P31', '18b9c85': 'P31', '0476bfd': 'P31', '9b5fe94': 'P31', '314f6d6': 'P23', '6a59408': 'P11', '3dc2df5': 'P23', '87a77a9': 'P03', '26d32e5': 'P12', 'd4f91d9': 'P08', '9e19a5f': 'P07', '6facff5': 'P11', 'bf54044': 'P11', 'e458984': 'P10', 'd0729a2': 'P22', '196fe9d': 'P22'}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = keep
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    s = s[4:].strip()
    p = OVERRIDES.get(h) or next(p for r, p in RULES if re.search(r, s))
    out.append({"property": p, "key": "fixed", "status": "fixed", "commit": h, "what": "fixed: property=%s %s %s" % (p, h, s)})
with open(F, "w", encoding="utf-8") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out))
