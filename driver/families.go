package main

func ws(x ...interface{}) []W {
	out := []W{}
	for i := 0; i < len(x); i += 2 {
		out = append(out, W{x[i].(string), x[i+1].(int)})
	}
	return out
}

var arith = ws("splus", 4, "sminus", 3, "smul", 4, "spow", 2, "aplus", 5, "aminus", 4, "amul", 6, "apow", 2)
var calculus = ws("deriv", 6, "subst", 6, "substmap", 6, "simp", 3, "simplify", 2)
var places = ws("tr", 4, "at", 4, "atvec", 2, "hstack", 3, "vstack", 3, "conce", 1, "concev", 2, "concv", 2, "concem", 2, "concm", 2, "toscalars", 2)
var queries = ws("dims", 2, "len", 1, "degree", 6, "vars", 5, "numvars", 1, "varids", 1, "const", 4, "lincoef", 8,
	"islin", 3, "isquad", 3, "isconst", 2, "iszero", 1, "isvar", 2, "isdeg1", 2, "matches", 3, "monidx", 3,
	"varmonidx", 2, "constmonidx", 2, "issquare", 1, "preds", 1, "uniq", 1, "union", 1, "find", 1, "unique", 1, "kindof", 1)
var conmake = ws("cmp", 10, "left", 1, "right", 1, "csense", 1, "cdims", 1, "clen", 1, "catvec", 3, "cat", 3, "compile", 3)
var conrew = ws("csimplify", 4, "cassimp", 5, "cscale", 4, "csubst", 4, "csubstmap", 4)
var conq = ws("cvars", 2, "cvarsfn", 2, "cislin", 3, "implies", 3, "nonneg", 3, "ineqrep", 3, "eqrep", 3)

func cat(x ...[]W) []W {
	var out []W
	for _, y := range x {
		out = append(out, y...)
	}
	return out
}

var families = map[string]Family{
	"pure":    {Ops: cat(arith, calculus, places, queries, conmake, conrew, conq, ws("copypoke", 12)), Calls: 12, Cap: 0.6, Reuse: 0.75, NonCan: 0.25, Again: 0.35, XEnv: 0.1},
	"scalar":  {Ops: ws("splus", 6, "sminus", 5, "smul", 6, "spow", 2), Calls: 10, Cap: 0.2, Reuse: 0.3, NonCan: 0.2, XEnv: 0.1},
	"array":   {Ops: ws("aplus", 6, "aminus", 5, "amul", 7, "apow", 2), Calls: 8, Cap: 0.2, Reuse: 0.3, NonCan: 0.1, XEnv: 0.05},
	"shape":   {Ops: cat(ws("aplus", 6, "aminus", 5, "amul", 8, "apow", 4, "cmp", 6, "hstack", 5, "vstack", 5, "at", 5, "atvec", 4, "catvec", 2, "cat", 2, "spow", 1, "dims", 4, "len", 2, "tr", 2, "deriv", 2, "subst", 2, "concem", 1, "concm", 1, "concev", 1, "concv", 1)), Calls: 8, Reuse: 0.3, NonCan: 0.1},
	"deriv":   {Ops: ws("deriv", 30, "splus", 1, "smul", 1, "aplus", 1, "amul", 1), Calls: 10, Cap: 0.3, Reuse: 0.4, NonCan: 0.2, XEnv: 0.15},
	"subst":   {Ops: ws("subst", 30, "smul", 1, "aplus", 1), Calls: 8, Cap: 0.2, Reuse: 0.2, NonCan: 0.2, XEnv: 0.15},
	"submap":  {Ops: ws("substmap", 30, "csubstmap", 5, "smul", 1, "aplus", 1), Calls: 8, Reuse: 0.2, NonCan: 0.15, Again: 0.2, XEnv: 0.15},
	"simp":    {Ops: ws("simp", 20, "simplify", 15, "conce", 2, "splus", 1, "sminus", 1, "smul", 1), Calls: 10, Cap: 0.2, Reuse: 0.2, NonCan: 0.8, XEnv: 0.1},
	"query":   {Ops: cat(queries, ws("cvars", 2, "cvarsfn", 1, "cislin", 3, "splus", 1, "smul", 1)), Calls: 14, Reuse: 0.3, NonCan: 0.12, XEnv: 0.12},
	"place":   {Ops: cat(places), Calls: 9, Reuse: 0.3, NonCan: 0.2, XEnv: 0.05},
	"compare": {Ops: conmake, Calls: 9, Reuse: 0.3, NonCan: 0.2, XEnv: 0.05},
	"rewrite": {Ops: conrew, Calls: 8, Reuse: 0.15, NonCan: 0.2, XEnv: 0.1},
	"linrep":  {Ops: ws("ineqrep", 10, "eqrep", 8), Calls: 8, Reuse: 0.1, NonCan: 0.05, XEnv: 0.15},
	"implies": {Ops: ws("implies", 10), Calls: 10, Reuse: 0.1, NonCan: 0, XEnv: 0.1},
	"nonneg":  {Ops: ws("nonneg", 10), Calls: 12, Reuse: 0.1, NonCan: 0.1, XEnv: 0.05},
	"env":     {Ops: ws("newvar", 8, "newvec", 3, "newmat", 2, "track", 6, "all", 1, "envname", 1, "mkenv", 2), Calls: 18},
	"ident":   {Ops: cat(arith, calculus, ws("vars", 6, "numvars", 2, "lincoef", 10, "isvar", 3, "isdeg1", 3, "matches", 4, "monidx", 3, "varmonidx", 3, "uniq", 4, "union", 3, "find", 4, "degree", 1, "hstack", 1, "vstack", 1, "tr", 1, "simp", 6, "simplify", 4, "cvars", 3, "cvarsfn", 3, "ineqrep", 4, "eqrep", 3, "implies", 3, "csimplify", 2, "cassimp", 2, "csubst", 3, "csubstmap", 3, "toscalars", 1, "conv", 2, "cislin", 1)), Calls: 10, Reuse: 0.25, NonCan: 0.15, XEnv: 1},
	"valid":   {Ops: cat(arith, calculus, places, queries, conmake, conrew, conq, ws("check", 30)), Calls: 10, Reuse: 0.35, NonCan: 0.15, Mal: 0.25, XEnv: 0.05},
	"chain":   {Ops: cat(arith, calculus, places, conmake, conrew), Calls: 14, Reuse: 0.8, NonCan: 0.15, XEnv: 0.05},
	"convert": {Ops: ws("conv", 20, "convpoke", 8, "toscalars", 3, "concev", 2, "concv", 2, "concem", 2, "concm", 2), Calls: 12, Reuse: 0.2, NonCan: 0.2, XEnv: 0.05},
	"print":   {Ops: cat(ws("str", 30, "cstr", 10), arith, ws("simp", 3)), Calls: 10, Reuse: 0.5, NonCan: 0.2},
}

func init() {
	for n, f := range families {
		f.Name = n
		families[n] = f
	}
}
