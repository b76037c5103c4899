F='search_types.go'
G='filter.go'
M=[
("limit-max-off","C14",[(F,"case req.Limit > SearchLimitMax:","case req.Limit > SearchLimitMax+1:")]),
("limit-default","C14",[(F,"case req.Limit <= 0:","case req.Limit == 0:"),(F,"req.Limit = SearchLimitMin\n","req.Limit = SearchLimitMin\n")]),
("limit-const","C14",[(F,"SearchLimitMax = 250","SearchLimitMax = 2500")]),
("bucket-nosort","C14",[(F,"sort.Slice(req.Bucketing, func","if len(req.Bucketing) > 2 { sort.Slice(req.Bucketing[1:], func(i,j int) bool {return req.Bucketing[1+i]<req.Bucketing[1+j]}) }; _ = (func")]),
("bucket-desc","C14",[(F,"return req.Bucketing[i] < req.Bucketing[j]","return req.Bucketing[i] > req.Bucketing[j]")]),
("bucket-zero-neg","C14",[(F,"for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {","for len(req.Bucketing) > 1 && req.Bucketing[0] < 0 {")]),
("bucket-nozero","C14",[(F,"if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {","if len(req.Bucketing) <= 1 || req.Bucketing[0] != 0 {")]),
("bucket-nozero2","C14",[(F,"if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {","if len(req.Bucketing) > 0 && req.Bucketing[0] != 0 {")]),
("bucket-always-copy","C14",[(F,"\tsort.Slice(req","\treq.Bucketing = append([]time.Duration(nil), req.Bucketing...)\n\tsort.Slice(req")]),
("errs-lost","C14",[(F,'errs = append(errs, fmt.Errorf("filter: %w", err))','errs = []error{err}; errs = errs[:0]')]),
("filter-errs-ret","C14",[(G,'errs = append(errs, fmt.Errorf("query: %w", err))','_ = err')]),
("query-kept","C14",[(G,'\t\tf.Query = ""\n','')]),
("limit-store-always",None,[(F,"\tswitch {\n\tcase req.Limit <= 0:","\treq.Limit = req.Limit\n\tif req.Limit > SearchLimitMax { req.Limit = SearchLimitMax }\n\tswitch {\n\tcase req.Limit <= 0:")]),
("recompile","C14",[(G,"if f.regexp != nil && f.regexp.String() == f.Query {\n\t\treturn nil\n\t}\n","")]),
("default-bad","C14",[(F,"\t0,\n\t100 * time.Microsecond,","\t100 * time.Microsecond,")]),
("R-clamp",None,[(F,'''	switch {
	case req.Limit <= 0:
		req.Limit = SearchLimitDefault
	case req.Limit < SearchLimitMin:
		req.Limit = SearchLimitMin
	case req.Limit > SearchLimitMax:
		req.Limit = SearchLimitMax
	}
''','''	if req.Limit <= 0 {
		req.Limit = SearchLimitDefault
	}
	if req.Limit > SearchLimitMax {
		req.Limit = SearchLimitMax
	}
''')]),
("R-helper",None,[(F,'''	if len(req.Bucketing) <= 0 {
		req.Bucketing = DefaultBucketing
	}
	sort.Slice(req.Bucketing, func(i, j int) bool {
		return req.Bucketing[i] < req.Bucketing[j]
	})
	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {
		req.Bucketing = req.Bucketing[1:] // durations are never negative
	}
	if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {
		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
	}
''','''	req.normalizeBucketing()
'''),(F,"// String implements fmt.Stringer.\nfunc (req",'''func (req *SearchRequest) normalizeBucketing() {
	if len(req.Bucketing) == 0 {
		req.Bucketing = DefaultBucketing
	}
	b := req.Bucketing
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	skip := 0
	for skip < len(b) && b[skip] < 0 {
		skip++
	}
	if skip > 0 {
		b = b[skip:]
		req.Bucketing = b
	}
	if len(b) == 0 || b[0] != 0 {
		req.Bucketing = append([]time.Duration{0}, b...)
	}
}

// String implements fmt.Stringer.
func (req''')]),
("R-slices",None,[(F,'''	sort.Slice(req.Bucketing, func(i, j int) bool {
		return req.Bucketing[i] < req.Bucketing[j]
	})
''','''	slices.Sort(req.Bucketing)
'''),(F,'"reflect"\n','"reflect"\n\t"slices"\n')]),
("R-errs",None,[(F,'''	for _, err := range req.Filter.Normalize() {
		errs = append(errs, fmt.Errorf("filter: %w", err))
	}
''','''	filterErrs := req.Filter.Normalize()
	for i := 0; i < len(filterErrs); i++ {
		wrapped := fmt.Errorf("filter: %w", filterErrs[i])
		errs = append(errs, wrapped)
	}
''')]),
]
