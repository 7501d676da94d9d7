"""Rewrites the planted-bug table of DESIGN.md (between the two markers) from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs the check missed when they were first tried, and what was changed
MISSED = {
    "c17-scale-range": "decibel scales down to 200 dB, magnitudes up to 10^9 and scaled by 2^-100..2^60",
    "c06-blocked-copy": "dense layouts of up to 70000 elements given by a law, in both precisions",
    "c14-follow-link": "song files reached through symbolic (absolute and relative) and hard links",
    "c16-bartlett-u16": "windows of 131074 to 170000 points at sampled places",
    "c10-parallel-blocks": "syntheses of more than 4096 frames",
    "c13-index-i16": "wavelets of up to 300000 samples given by a law, answered at sampled places",
    "c23-unknown-total": "recordings of more than 65536 frames, with and without a declared length",
    "c12-dst3-stack-deep": "stack transforms of 128, 256 and 1024 elements",
    "c18-hilbert-long": "analytic signals of 8192 to 32768 samples, looked at in sampled places",
    "c08-far-tube": "volumes of more than 65536 elements, looked at in sampled places",
    "c25-loud-start": "streams whose loudness jumps over several decades within a row",
    "c14-first-mebibyte": "files of one to three mebibytes with single-byte differences near their ends",
    "c17-parse-prefix": "near-miss palette names (prefixes, extensions, misspellings, look-alike letters, random casing)",
    "c02-parallel-scale": "operations are now also run with the switching threshold at and around the length",
    "c14-short-read": "files longer than one read of the hash loop",
    "c20-cepstrum-floor": "inputs scaled down so that the modulus floor matters",
    "c04-plan-overwrites": "outputs are pre-filled and compared after refused calls",
    "c05-longer-output": "input and output views that address different numbers of points, longer output included",
    "c16-bessel-stop": "larger shape parameters and many more lengths",
    "c18-czt-long": "more points than samples, long chirps",
    "c22-bluestein-late": "a table requested again after many others",
    "c06-aligned-load": "the harness allocator hands out minimally aligned blocks",
    "c12-phase-u16": "random lengths that are not powers of two, above 128, in every round",
    "c21-batch-chunks": "batches of 257 to 640 members of two and more points",
    "c23-wav-case": "file extensions in mixed case",
    "c25-slow-drain": "streams whose reader falls behind (backlog of many rows)",
    "c21-real-pairs": "structured data (real-only, imaginary-only, equal, zero members)",
}
try:
    MISSED.update(json.load(open(os.path.join(R, "tools", "missed.json"))))
except FileNotFoundError:
    pass
rows = []
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {'first missed; ' + MISSED[i] if i in MISSED else 'first attempt'} |")
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds:begin -->\n", "<!-- seeds:end -->"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + f"{len(rows)} planted bugs; every one is caught by the quick check of its property.\n\n| bug | caught by | what it breaks | needs | when |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows))
