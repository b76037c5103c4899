F='filter.go'
M=[
("sources-first-only","C12",[(F,"for _, source := range f.Sources {","for _, source := range f.Sources[:1] {")]),
("ids-skip-first","C12",[(F,"for _, id := range f.IDs {","for _, id := range f.IDs[1:] {")]),
("ids-break-always","C12",[(F,"if id == tr.ID() {\n\t\t\t\tfound = true\n\t\t\t\tbreak\n\t\t\t}","found = id == tr.ID()")]),
("category-prefix","C12",[(F,"if tr.Category() != f.Category {","if !strings.HasPrefix(tr.Category(), f.Category) {")]),
("active-errored","C12",[(F,"if f.IsActive {\n\t\tif tr.Finished() {\n\t\t\treturn false","if f.IsActive {\n\t\tif tr.Finished() && !tr.Errored() {\n\t\t\treturn false")]),
("min-le","C12",[(F,"tr.Duration() < *f.MinDuration","tr.Duration() <= *f.MinDuration")]),
("min-active","C12",[(F,"\t\tif !tr.Finished() {\n\t\t\treturn false // we","\t\tif !tr.Finished() && tr.Duration() < *f.MinDuration {\n\t\t\treturn false // we")]),
("succ-else","C12",[(F,"if f.IsErrored {\n\t\tif !tr.Errored() {","if f.IsErrored && !f.IsSuccess {\n\t\tif !tr.Errored() {")]),
("no-init","C12",[(F,"\tf.initializeQueryRegexp()\n\tif","\tif")]),
("query-nostack","C12",[(F,"for _, c := range ev.Stack {","for _, c := range ev.Stack[:0] {")]),
("query-no-fileline","C12",[(F,"if f.regexp.MatchString(c.CompactFileLine()) {\n\t\t\t\t\treturn true\n\t\t\t\t}","")]),
("query-break","C12",[(F,"\t\t\tfor _, c := range ev.Stack {","\t\t\tif ev.IsError { break }\n\t\t\tfor _, c := range ev.Stack {")]),
("query-last-return","C12",[(F,"\t\t}\n\t\treturn false\n\t}\n\n\treturn true\n}","\t\t}\n\t\treturn len(tr.Events()) == 0\n\t}\n\n\treturn true\n}")]),
("query-stale","C12",[(F,"if f.regexp != nil && f.regexp.String() == f.Query {","if f.regexp != nil && f.Query != \"\" {")]),
("regexp-lower","C12",[(F,"re, err := regexp.Compile(f.Query)","re, err := regexp.Compile(strings.ToLower(f.Query))")]),
("regexp-quote","C12",[(F,"if err != nil {\n\t\tf.Query = \"\"","if err != nil {\n\t\tf.regexp = regexp.MustCompile(regexp.QuoteMeta(f.Query)); f.Query = \"\"")]),
("R-contains",None,[(F,'''		var found bool
		for _, source := range f.Sources {
			if source == tr.Source() {
				found = true
				break
			}
		}
		if !found {
			return false
		}
''','''		if !contains(f.Sources, tr.Source()) {
			return false
		}
'''),(F,'''		var found bool
		for _, id := range f.IDs {
			if id == tr.ID() {
				found = true
				break
			}
		}
		if !found {
			return false
		}
''','''		if !contains(f.IDs, tr.ID()) {
			return false
		}
'''),(F,"func (f *Filter) init","func contains(ss []string, s string) bool {\n\tfor i := 0; i < len(ss); i++ {\n\t\tif ss[i] == s {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n}\n\nfunc (f *Filter) init")]),
("R-slices",None,[(F,'''		var found bool
		for _, source := range f.Sources {
			if source == tr.Source() {
				found = true
				break
			}
		}
		if !found {
			return false
		}
''','''		if !slices.Contains(f.Sources, tr.Source()) {
			return false
		}
'''),(F,'"regexp"\n','"regexp"\n\t"slices"\n')]),
("R-flat",None,[(F,'''	if f.IsActive {
		if tr.Finished() {
			return false
		}
	}

	if f.IsFinished {
		if !tr.Finished() {
			return false
		}
	}
''','''	finished := tr.Finished()
	switch {
	case f.IsActive && finished:
		return false
	case f.IsFinished && !finished:
		return false
	}
'''),(F,"if f.IsSuccess {\n\t\tif tr.Errored() {\n\t\t\treturn false\n\t\t}\n\t}\n\n\tif f.IsErrored {\n\t\tif !tr.Errored() {\n\t\t\treturn false\n\t\t}\n\t}","if errored := tr.Errored(); (f.IsSuccess && errored) || (f.IsErrored && !errored) {\n\t\treturn false\n\t}"),(F,"if f.Category != \"\" {\n\t\tif tr.Category() != f.Category {\n\t\t\treturn false\n\t\t}\n\t}","if f.Category != \"\" && tr.Category() != f.Category {\n\t\treturn false\n\t}")]),
("R-queryhelper",None,[(F,'''	if f.regexp != nil {
		for _, ev := range tr.Events() {
			if f.regexp.MatchString(ev.What) {
				return true
			}
			for _, c := range ev.Stack {
				if f.regexp.MatchString(c.Function) {
					return true
				}
				if f.regexp.MatchString(c.CompactFileLine()) {
					return true
				}
			}
		}
		return false
	}

	return true
}
''','''	if f.regexp == nil {
		return true
	}

	for _, ev := range tr.Events() {
		if matchEvent(f.regexp, ev) {
			return true
		}
	}

	return false
}

func matchEvent(re *regexp.Regexp, ev Event) bool {
	if re.MatchString(ev.What) {
		return true
	}
	for i := range ev.Stack {
		c := ev.Stack[i]
		if re.MatchString(c.Function) || re.MatchString(c.CompactFileLine()) {
			return true
		}
	}
	return false
}
''')]),
("R-foundnobreak",None,[(F,"				found = true\n				break\n","				found = true\n")]),
]
