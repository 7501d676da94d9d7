"""Writes MANIFEST.json from properties.jsonl and the list of finished checks."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ trace specification checked by TLC: calls recorded from the real code must be behaviours of spec/"
DS = "; histories/schedules enumerated by TLC from the design model spec/"
T = {
    "C01": (TV + "TraceFft.tla (contract FftContract.tla, exact DFT sums in Dft.tla); algorithms pass by pass over a finite field in FftAlg.tla", "integer-vector inputs up to length 32768, all routes, five builds, f32/f64/user type; values judged within rounding bounds"),
    "C02": (TV + "TraceFft.tla (inverse contract and forward/inverse pairs)", "as C01, plus sampled pairs of entry points in both orders"),
    "C03": (TV + "TraceFft.tla" + DS + "Engine.tla (scratch/cache state machine)", "every transition of the abstract object state for the model's lengths, replayed; plus random histories"),
    "C04": (TV + "TraceFft.tla and TraceStft/TraceDsp (return-value tables)", "exhaustive small argument shapes, interleaved with valid calls"),
    "C05": (TV + "TraceFft.tla (strided view/rest contract)", "all point counts up to 20/48 and sparse ones to 512/2048, strides up to 127, all slack classes"),
    "C06": (TV + "TraceFft.tla (split, SoA and layout contracts)", "lengths as C01"),
    "C07": (TV + "TraceFft.tla (half spectrum and Hermitian inverse contracts); algorithm over a finite field in FftAlg.tla", "even lengths up to 8192/32768, all variants"),
    "C08": (TV + "TraceFft.tla (n-D sums over the lcm table, flatten contract)", "all shapes up to 6x6/11x11 and 4x4x4 plus larger ones"),
    "C15": (TV + "TraceFft.tla" + DS + "ParIfft.tla (settings and worker schedules)", "all schedules in the model; OS schedules and sampled settings on the code"),
    "C09": (TV + "TraceStft.tla (windowed frames as exact DFT sums)" + DS + "StftStream.tla (stream position)", "signals/windows/hops up to 64 plus larger ones; every entry point and the stream"),
    "C10": (TV + "TraceStft.tla (overlap-add sums, window-square normalisation)", "random shapes with hop below, at and above the window; all five builds"),
    "C11": (TV + "TraceStft.tla" + DS + "IstftStream.tla (implementation-level buffer refines the overlap-add history)", "every push/flush history of the model's window/hop pairs, replayed, plus random ones"),
    "C22": (TV + "TraceFft.tla (planner table contracts)", "all lengths up to 80/300 and selected ones to 16384 in random request orders"),
    "C12": (TV + "TraceDsp.tla (defining sums in Trig.tla; inverse pairs model-checked in TrigLemmas.tla)" + DS + "Engine.tla (DCT planner)", "lengths up to 256/1024, planner histories from the model, four builds"),
    "C13": (TV + "TraceDsp.tla (filter banks in Wavelets.tla; orthonormality and reconstruction model-checked in WaveletLemmas.tla)", "lengths up to 2049/10000, up to 12 levels"),
    "C16": (TV + "TraceDsp.tla (defining formulas in Windows.tla)", "all lengths up to 65/200 and larger ones, shape parameters sampled"),
    "C17": (TV + "TraceDsp.tla (exact DFT magnitudes, fixed-point logarithms in LnFix/Cepstral.tla, colour stops in Colours.tla)", "window lengths up to 80/128; colour maps on grids; bin counts up to 255/512"),
    "C18": (TV + "TraceDsp.tla (exact DFT sums)", "lengths up to 256/1024"),
    "C20": (TV + "TraceDsp.tla (fixed-point logarithms and mel bins in LnFix/Cepstral.tla)", "up to 1025 bins and 128 filters"),
    "C14": (TV + "TraceSong.tla (semantics in SongOps.tla)" + DS + "SongIndex.tla (files and index; every transition replayed by tours)", "all file and index states of 3/4 paths and 2 contents, plus random histories on larger universes and files up to 100 KB/1 MB"),
    "C19": (TV + "TraceXtask.tla (decision table, commands, detection and runs in XtaskOps.tla, model-checked in Xtask.tla)", "decision-table grid sampled, prepared machines and recorded runs of the real helper"),
    "C23": (TV + "TraceAudio.tla (mix-down, truncation and picture layout in AudioOps.tla)" + DS + "AudioDecode.tla (packet loop)", "generated WAV/FLAC files up to 70001 frames and 8 channels, pictures of both programs, saved PNG/SVG files"),
    "C24": (TV + "TraceReport.tla (records and table in ReportOps.tla)" + DS + "Report.tla (three shared files)", "every history of 3/5 operations sampled, plus longer random ones; real benchmark and update programs"),
    "C25": (TV + "TraceWeb.tla (rows, pictures, answers in WebOps.tla)" + DS + "WebStream.tla (row stream and request resolution)", "histories of 3/5 calls sampled and long streams of sparse signals, every bin of every row; real server and scripts"),
    "C21": (TV + "TraceFft.tla and TraceDsp.tla (batch calls, member by member)", "up to 65 members of mixed length, valid and invalid"),
}
try:
    exec(open(os.path.join(R, "tools", "techniques.py")).read())
except FileNotFoundError:
    pass
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in T:
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
