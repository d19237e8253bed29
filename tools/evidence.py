import json, os, glob
def write(ev, pid, tier, results, viols, wall, status):
    tot = lambda k: int(sum(r[k] for r in results))
    funcs = sorted({f for r in results for f in r["functions"]})
    cov = {
        "states": tot("forks") + len(results), "transitions": tot("instructions"), "traces_validated_against_impl": tot("native_validated"),
        "states_are": "symbolic execution states explored (one per fork, plus one per harness); transitions are IR instructions executed symbolically",
        "finished_paths": tot("paths"), "assertions_decided": tot("assertions"), "assertions_constant_on_path": tot("assertions_simplified"), "assertions_decided_by_z3": tot("assertions_z3"), "assertions_decided_by_value_tables": tot("assertions_table"),
        "branches_on_symbolic_values": tot("branches"), "symbolic_address_checks": tot("symbolic_address_checks"),
        "z3_queries": tot("z3_queries"), "z3_sat": tot("z3_sat"), "z3_unsat": tot("z3_unsat"), "query_cache_hits": tot("query_cache_hits"), "one_byte_table_decisions": tot("table_decisions"), "table_decisions_crosschecked_with_z3": tot("crosschecks"),
        "solver_seconds": round(sum(r["z3_seconds"] for r in results), 2),
        "harnesses": [{"name": r["harness"], "what": " ".join(r["title"]), "bounds": r["bound"], "assumptions": r["assume"], "sources_encoded": r["srcs"], "paths": r["paths"], "longest_path_instructions": r["max_path_instructions"], "reachability_witnesses": r["cover"], "explore_s": r["wall_s"], "complete": not r["incomplete"]} for r in results],
        "functions_encoded": funcs, "exhaustive": all(not r["incomplete"] for r in results) and not viols,
        "samples": [{"harness": v["harness"], "kind": v.get("kind"), "msg": v.get("msg"), "file": v["path"]} for v in viols] or [{"harness": r["harness"], "witness": k, "paths_reaching_it": n} for r in results for k, n in list(r["cover"].items())[:6]],
        "explanation": "Every path of the harness through the real code within the stated bounds, decided by z3 (QF_BV); inputs are symbolic bytes and choices.",
    }
    ass = sorted({a for r in results for a in r["assume"]}) + ["bounds as listed per harness; inputs beyond them are not covered", "absl, re2, iostreams and operating-system calls are stand-ins (shim/), identical in the symbolic and the native build", "LLVM IR produced by clang-18 -O2 is what is executed symbolically"]
    json.dump({"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": round(wall, 1), "violations": sum(1 for v in viols if v["ok"])}, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
