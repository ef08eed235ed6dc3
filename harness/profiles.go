package main

var allOps = []string{
	"leaf", "not", "neg", "cjoin", "and", "or", "andf", "orf", "gand", "gor", "newgroup", "joinmany", "brackets", "afs", "aft",
	"fld", "fldparse", "fldas", "fldof", "tbl", "tblparse", "tblas", "tblfld", "fv", "fvafs", "fvaft", "ord", "ordparse",
	"ordafs", "fls", "flsset", "from", "where", "fields", "order", "offset", "limit", "many", "single", "join", "joinroot",
	"on", "count", "cntroot", "toupd", "todel", "toins", "upd", "del", "ins", "set", "values", "whr", "wgand", "wgor",
	"wafs", "jc", "jnr", "jnrnew", "jnrby", "jnrfields", "lim", "limoff", "limlim", "vm", "valid", "uniq", "opname", "jtname",
}

func weights(base map[string]int, more ...map[string]int) map[string]int {
	res := map[string]int{}
	for k, v := range base {
		res[k] = v
	}
	for _, m := range more {
		for k, v := range m {
			res[k] = v
		}
	}
	return res
}

var condWeights = map[string]int{"leaf": 12, "not": 5, "neg": 2, "cjoin": 3, "and": 6, "or": 6, "andf": 4, "orf": 4,
	"gand": 4, "gor": 4, "newgroup": 4, "joinmany": 2, "brackets": 2}
var selWeights = map[string]int{"from": 4, "where": 6, "fields": 5, "order": 5, "offset": 4, "limit": 4, "many": 2,
	"single": 2, "join": 4, "joinroot": 1, "on": 6}
var convWeights = map[string]int{"count": 4, "cntroot": 1, "toupd": 4, "todel": 3, "toins": 3}
var writeWeights = map[string]int{"upd": 3, "del": 3, "ins": 3, "set": 5, "values": 5, "fv": 4}
var fieldWeights = map[string]int{"fld": 3, "fldas": 2, "fldof": 2, "tbl": 2, "tblas": 2, "tblfld": 2, "ord": 2, "fls": 1, "flsset": 1}
var whrWeights = map[string]int{"whr": 2, "wgand": 5, "wgor": 5}
var bindWeights = map[string]int{"afs": 5, "aft": 3, "wafs": 3, "fvafs": 3, "fvaft": 3, "ordafs": 4}
var joinWeights = map[string]int{"jc": 2, "jnr": 2, "jnrnew": 2, "jnrby": 2, "jnrfields": 2}
var limWeights = map[string]int{"lim": 1, "limoff": 3, "limlim": 3}
var miscWeights = map[string]int{"vm": 2, "valid": 2, "uniq": 2, "opname": 1, "jtname": 1, "fldparse": 4, "tblparse": 3, "ordparse": 2}

var profiles = map[string]map[string]int{
	"all": weights(condWeights, selWeights, convWeights, writeWeights, fieldWeights, whrWeights, bindWeights, joinWeights,
		limWeights, miscWeights),
	"cond":   weights(condWeights, whrWeights, map[string]int{"from": 2, "where": 6, "todel": 1}),
	"stmt":   weights(condWeights, selWeights, convWeights, writeWeights, map[string]int{"fld": 2, "ord": 2}),
	"select": weights(selWeights, map[string]int{"leaf": 3, "or": 2, "not": 1, "fld": 3, "ord": 3, "newgroup": 1}),
	"convert": weights(selWeights, convWeights, writeWeights, map[string]int{"leaf": 3, "or": 3, "not": 2, "fv": 3, "newgroup": 2,
		"gor": 2, "orf": 2}),
	"write":  weights(writeWeights, map[string]int{"fvafs": 1, "fvaft": 1, "fld": 2, "leaf": 4, "or": 3, "not": 2, "newgroup": 2, "where": 6, "toupd": 1, "todel": 1, "toins": 1, "from": 1}),
	"rebind": weights(condWeights, bindWeights, whrWeights, map[string]int{"fld": 3, "ord": 3, "fv": 3, "where": 3, "from": 2, "order": 2}),
	"joins":  weights(joinWeights, map[string]int{"from": 4, "join": 9, "joinroot": 4, "on": 14, "where": 2, "fld": 3, "tbl": 2, "tblas": 1, "tblfld": 3, "many": 1, "single": 1, "fldas": 1, "leaf": 2, "order": 1, "count": 1}),
	"idents": weights(fieldWeights, miscWeights, map[string]int{"fldparse": 8, "tblparse": 8, "valid": 8, "ordparse": 8, "from": 2, "fields": 2, "order": 2, "leaf": 2, "where": 2, "count": 2}),
	"values": weights(writeWeights, map[string]int{"fvafs": 1, "fvaft": 1, "fld": 1, "leaf": 16, "fv": 10, "vm": 3, "where": 5, "from": 2, "and": 2, "or": 2, "in": 0}),
	"paging": weights(limWeights, map[string]int{"from": 3, "where": 5, "order": 6, "offset": 8, "limit": 8, "ord": 3, "many": 2, "single": 1, "leaf": 4, "or": 2, "ordafs": 2, "fld": 1, "count": 1}),
}
