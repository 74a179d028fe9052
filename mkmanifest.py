"""Writes MANIFEST.json from the table below."""
import json

T = "dynamic symbolic execution of the real code, z3 deciding every branch and assertion; counterexamples replayed"
CHECKS = {
    "C01": "whole searches (all rule databases, options and strategy packs) over symbolic grammar universes; the counts of the specification compared with the truth as polynomials in unbounded symbolic counts",
    "C02": "the specifications of C01: closed, reachable, every rule regenerated from the pack, productive (independent least fixed point)",
    "C04": "every rule insertion of the searches of C01 compared with a fresh application of the pack, labels with classes",
    "C07": "objects generated by rules on symbolic tables and by specifications over symbolic universes against independent enumeration; maps round trip",
    "C08": "samplers with the random source symbolic: all draws of an outcome lie within exactly its share (unbounded symbolic counts), exact distributions where several draws happen and for whole specifications",
    "C14": "both databases fed in lockstep by searches over symbolic universes, compared after each insertion",
    "C03": "TableMethod/RuleDBForest executed on symbolic rule universes with symbolic shifts; least fixed point decided by z3 (closure + no smaller pre-fixed function)",
    "C05": "prune/iterative_prune/every proof-tree finder on symbolic rule dictionaries and RuleDB on symbolic rule histories, against greatest/least fixed points and minimal trees encoded in z3",
    "C06": "EquivalenceDB histories with symbolic distinct labels and symbolic operations against reachability",
    "C09": "constructors and Rule/ReverseRule/EquivalenceRule/EquivalencePathRule executed on symbolic count tables (unbounded), symbolic minimum sizes and symbolic statistic maps; terms compared with the defining sums",
    "C10": "the same rule forms with every read recorded and compared with the declared shifts; for products and quotients sizes and minimum sizes are unbounded symbolic integers",
    "C11": "the extractor executed on symbolic universes of rule keys (symbolic shifts, buckets, insertion orders) and on universes recorded by symbolic searches; closure, productivity, minimality and the need for reverse rules decided by z3 on the least fixed point",
    "C17": "searches over symbolic universes stopped at symbolic points, pickled, restored and run on in lockstep with the original; searches interrupted by a work-driven clock compared with the uninterrupted work",
    "C20": "the equations of every rule form and of whole specifications evaluated as truncated series with symbolic coefficients; closed forms compared with the counts beyond the order used to select them",
    "C12": "pairs of specifications found with symbolic packs, databases and start classes over symbolic universes (reloaded from JSON or not): both maps on all objects, symmetry and reflexivity of the isomorphism test",
    "C13": "both finders on pairs of searchers with symbolic packs and start classes over symbolic universes, and on universes of tables where classes have several rules or are met by several paths; both specifications checked as in C01 and C02 and for isomorphism",
    "C19": "specifications over symbolic universes, with symbolic sets of verified classes and packs offered for them, expanded in every way; the result checked as in C01 and C02, for classes left and shared rules, the original before and after",
    "C18": "round trips of strategies with symbolic settings made in every way, packs, every rule form, specifications found over symbolic universes, bijections; compared for equality and behaviour",
    "C15": "ClassDB histories with symbolic class identities/labels/operations against a dictionary reference",
    "C16": "DefaultQueue histories with symbolic labels/operations/pack shapes against the scheduling contract",
}
NA = []
import importlib.util, os
here = os.path.dirname(os.path.abspath(__file__))
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./run.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
            "technique": T,
            "level": "model_checking",
            "level_note": note + "; bounded as listed per harness in the evidence, exhaustive only where evidence says exhausted",
        }
        for p, note in sorted(CHECKS.items())
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA],
}
done = set(CHECKS) | {p for p, _ in NA}
for i in range(1, 21):
    p = f"C{i:02d}"
    if p not in done:
        m["not_applicable"].append({"property": p, "reason": "not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
