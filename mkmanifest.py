"""Regenerates MANIFEST.json from the list below."""
import json
TV = "TLA+ specification; TLC validates traces recorded from the real code"
CH = {
    "C01": TV + " (builder model Timeline)", "C02": TV + " (builder model Timeline)",
    "C05": TV + " (evaluation model DamageBuild)", "C06": TV + " (tick model of Timeline)",
    "C07": TV + " (auto-attack model of Timeline)", "C08": TV + " (downtime model of Timeline)",
    "C09": TV + " (fight-time model of Timeline)", "C14": TV + " (whole pipeline)",
    "C23": TV + " (whole pipeline)", "C24": TV + " (whole pipeline)",
}
NOTE = {}
exec(open("manifest_more.py").read()) if __import__("os").path.exists("manifest_more.py") else None
props = [json.loads(x)["id"] for x in open("properties.jsonl")]
note = ("TLC explores the specification of each scenario exhaustively (all orders of simultaneous events, both sides of "
        "rounding boundaries) and compares with what the code did; scenarios are seeded random, so the claim is for the "
        "scenarios explored, not for all.")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                 "technique": CH[p], "level": "model_checking", "level_note": NOTE.get(p, note)} for p in props if p in CH],
     "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in CH]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
