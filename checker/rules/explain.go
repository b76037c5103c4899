package rules

// Assumptions shared by every check.
var Assumptions = []string{
	"the go/types + go/ssa front end (golang.org/x/tools v0.52.0, vendored) represents the program faithfully",
	"code outside the repository behaves as documented (sync, context, fmt, sort, net/http, encoding/json, html/template, eventsource)",
	"integer arithmetic on lengths, indexes, and counters does not overflow",
	"no unsafe or reflection-based writes to repository types (none exist; the loader reports them otherwise)",
}

var explain = map[string]string{}

// Explain describes what the check of a property analyses.
func Explain(prop string) string { return explain[prop] }
