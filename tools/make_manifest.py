"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = {
    "D01": "model-based property testing (operation sequences against a row-id model)",
    "D02": "property-based testing against a column reference",
    "D03": "stateful property-based testing (laws + fresh-instance differential)",
    "D04": "property-based testing (exact residuals and statistical oracles)",
    "D05": "metamorphic property testing (representation and read-only differentials)",
    "D06": "stateful property testing of interleaved histories (differential with each object alone)",
    "S01": "property-based testing on random DAGs with recording mechanisms",
    "S02": "property-based testing with fault injection against graph surgery",
    "S03": "property-based testing (noise-free reference, statistical oracles)",
    "S04": "property-based testing on random instances, statistical oracle",
    "N01": "property-based testing against the formula with stub and real predictors",
    "N02": "metamorphic and causal-truth property testing on exact populations",
    "N03": "differential property testing against a brute-force formula",
    "N04": "property-based testing against closed forms",
    "N05": "stateful property-based testing (fresh-instance differential)",
    "N06": "property-based testing against the ellipsoid formula, metamorphic relations",
    "A01": "stateful property-based testing with recording nuisance stubs",
    "A02": "stateful property-based testing against recomputed moments",
    "A03": "stateful property-based testing against reference interval formulas",
    "A04": "stateful property-based testing, differential with a new arm",
    "A05": "stateful property-based testing with recording nuisance stubs",
    "A06": "statistical property-based testing (coverage and bias over repeated histories)",
    "B01": "model-based property testing of bandit histories",
    "B02": "model-based property testing of bandit histories (set-valued reference)",
    "B03": "model-based property testing of bandit histories (stopping reference)",
    "B04": "property-based testing of valid-interval histories",
    "B05": "model-based property testing with recording arms and generators",
    "B06": "property-based testing of settings and rerun differentials",
    "E01": "property-based testing of generated experiments with tagged columns",
    "E02": "property-based testing (intervention probing, seed differentials)",
    "E03": "property-based testing of generated functions (metamorphic)",
    "E04": "property-based testing by artist inspection",
    "E05": "property-based testing on random models, interventional oracle",
    "E06": "differential property testing across separately started processes",
}
checks, na = [], []
for p in props:
  i = p["id"]
  if os.path.exists(os.path.join(H, "checks", i + ".py")):
    checks.append(dict(
        property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration",
        level_note="Generated-input search with an explicit oracle on the real code; it "
        "establishes nothing beyond the cases generated. Trusts numpy, scipy, sklearn, "
        "Hypothesis and the reference computations in /verif."))
  else:
    na.append(dict(property=i, reason="the check is not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the checks use the public interface only."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
