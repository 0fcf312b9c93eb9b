"""What each check explores: driver families (programs per quick run), models
of the design checked exhaustively, and behaviours generated by TLC."""

# models of the design: module, cfg (quick), thorough_cfg; expect "violation"
# where the model carries a planted defect that its properties must expose
def _m(module, cfg, thorough=None, **kw):
    d = {"module": module + ".tla", "cfg": cfg + ".cfg"}
    if thorough:
        d["thorough_cfg"] = thorough + ".cfg"
    d.update(kw)
    return d

MODELS = {
    "scalar": _m("SymbolicMath", "SymbolicMath_scalar", "SymbolicMath_scalar_big"),
    "array": _m("SymbolicMath", "SymbolicMath_array", "SymbolicMath_array_big"),
    "wide": _m("SymbolicMath", "SymbolicMath_wide"),
    "con": _m("SymbolicMath", "SymbolicMath_con", "SymbolicMath_con_big"),
    "con2": _m("SymbolicMath", "SymbolicMath_con2"),
    "ring": _m("Laws", "Laws_ring"),
    "calculus": _m("Laws", "Laws_calculus"),
    "arrays": _m("Laws", "Laws_arrays"),
    "stack": _m("Laws", "Laws_stack"),
    "reasons": _m("Laws", "Laws_reasons"),
    "bounds": _m("Laws", "Laws_bounds", "Laws_bounds_big"),
    "multi": _m("Laws", "Laws_multi", "Laws_multi_big"),
    "dyadic": _m("DyadicLaws", "DyadicLaws_small"),
    "dyadic-long": _m("DyadicLaws", "DyadicLaws_long"),
    "env": _m("Env", "Env_max", "Env_max_big"),
    "env-any": _m("Env", "Env_any"),
    "env-refine": _m("EnvRefine", "EnvRefine"),
    "env-count": _m("Env", "Env_count", expect="violation"),
    "env-last": _m("Env", "Env_last", expect="violation"),
    "rep": _m("Rep", "Rep_none", "Rep_none_big"),
    "rep-tail": _m("Rep", "Rep_tail"),
    "rep-append": _m("Rep", "Rep_append", expect="violation"),
    "rep-delete": _m("Rep", "Rep_delete", expect="violation"),
    "rep-write": _m("Rep", "Rep_write", expect="violation"),
    "rep-append-tail": _m("Rep", "Rep_append_tail", expect="violation"),
    "conc": _m("Conc", "Conc", "Conc_big"),
    "conc-scratch-alone": _m("Conc", "Conc_scratch_1"),
    "conc-borrow-alone": _m("Conc", "Conc_borrow_1"),
    "conc-cache-alone": _m("Conc", "Conc_cache_1"),
    "conc-scratch": _m("Conc", "Conc_scratch_2", expect="violation"),
    "conc-borrow": _m("Conc", "Conc_borrow_2", expect="violation"),
    "conc-cache": _m("Conc", "Conc_cache_2", expect="violation"),
}

# behaviours generated by TLC from the specification (about 290 programs of 40
# calls per job) and replayed
GENS = {n: {"module": "Gen.tla", "cfg": "Gen_%s.cfg" % n, "depth": 12000,
            "num": {"quick": 1, "thorough": 1}, "jobs": {"quick": 3, "thorough": 40}} for n in ("all", "con", "expr")}

PLAN = {
    "C01": {"models": ["rep", "rep-tail", "rep-append", "rep-delete", "rep-write", "rep-append-tail"], "gens": ["all"], "enum": ["pure"], "families": {"pure": 5000, "chain": 1500}},
    "C02": {"models": ["dyadic", "dyadic-long", "ring", "scalar"], "gens": ["expr"], "enum": ["scal"], "families": {"scalar": 7000, "chain": 1000}},
    "C03": {"models": ["arrays", "array"], "gens": ["expr"], "enum": ["arr", "arr2"], "families": {"array": 6500, "chain": 1000}},
    "C04": {"models": ["arrays", "stack"], "gens": ["all"], "enum": ["shape", "arr", "place", "compare"], "families": {"shape": 6000, "array": 1000, "place": 1000}},
    "C05": {"models": ["calculus", "scalar"], "gens": ["expr"], "enum": ["deriv"], "families": {"deriv": 7000, "chain": 500}},
    "C06": {"models": ["calculus", "scalar"], "gens": ["expr"], "enum": ["subst"], "families": {"subst": 7000, "chain": 500}},
    "C07": {"models": ["calculus", "scalar"], "gens": ["expr"], "enum": ["submap"], "families": {"submap": 7000, "chain": 500}},
    "C08": {"models": ["ring", "scalar"], "gens": ["expr"], "enum": ["simp"], "families": {"simp": 7500}},
    "C09": {"models": ["calculus", "scalar"], "gens": ["all"], "enum": ["query"], "families": {"query": 6500}},
    "C10": {"models": ["stack", "wide"], "gens": ["expr"], "enum": ["place"], "families": {"place": 7000, "chain": 500}},
    "C11": {"models": ["con2"], "gens": ["con"], "enum": ["compare"], "families": {"compare": 7500}},
    "C12": {"models": ["con", "multi"], "gens": ["con"], "enum": ["rewrite"], "families": {"rewrite": 7000}},
    "C13": {"models": ["multi"], "gens": ["con"], "enum": ["linrep"], "families": {"linrep": 7000}},
    "C14": {"models": ["bounds"], "gens": ["con"], "enum": ["implies"], "families": {"implies": 6000}},
    "C15": {"models": ["bounds"], "gens": ["con"], "enum": ["nonneg"], "families": {"nonneg": 7000}},
    "C16": {"models": ["env", "env-any", "env-refine", "env-count", "env-last"], "gens": [], "enum": ["env"], "families": {"env": 8000}},
    "C17": {"models": ["calculus"], "gens": ["all"], "enum": ["ident"], "families": {"ident": 6000}},
    "C18": {"models": ["con2"], "gens": ["all"], "enum": ["valid", "shape"], "families": {"valid": 5000, "chain": 500}},
    "C19": {"models": ["array"], "gens": [], "enum": ["convert"], "families": {"convert": 7000}},
    "C20": {"models": ["wide"], "gens": ["all"], "enum": ["print"], "families": {"print": 5000}},
    "C21": {"models": ["conc", "conc-scratch-alone", "conc-borrow-alone", "conc-cache-alone", "conc-scratch", "conc-borrow", "conc-cache"],
            "par": {"pure": 3000, "chain": 1000, "query": 750, "rewrite": 500, "print": 500, "linrep": 250, "implies": 250, "convert": 500, "simp": 500, "submap": 250},
            "families": {}},
    "C22": {"models": ["reasons"], "gens": ["all"], "enum": ["shape", "linrep"],
            "families": {"shape": 3500, "place": 1500, "linrep": 1500, "valid": 1500, "query": 700, "compare": 800}},
}
