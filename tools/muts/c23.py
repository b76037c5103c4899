H='trcweb/assets/traces.html'
R='trcweb/render.go'
M=[
("text-template","C23",[(R,'	"html/template"\n','	"html/template"\n	ttemplate "text/template"\n'),(R,'	templateRoot, err := template.New("root").Funcs(templateFuncs).Funcs(userFuncs).ParseFS(fs, "*")','	templateRoot, err := ttemplate.New("root").Funcs(ttemplate.FuncMap(templateFuncs)).Funcs(ttemplate.FuncMap(userFuncs)).ParseFS(fs, "*")')]),
("no-htmlescape","C23",[(H,'{{ .What | HTMLEscape | InsertBreaks }}','{{ .What | InsertBreaks }}')]),
("breaks-then-escape","C23",[(H,'{{ .What | HTMLEscape | InsertBreaks }}','{{ .What | InsertBreaks | HTMLEscape }}')]),
("double-escape","C23",[(H,'{{ .What | HTMLEscape | InsertBreaks }}','{{ .What | HTMLEscape }}')]),
("double2","C23",[(H,'{{ .What | HTMLEscape | InsertBreaks }}','{{ .What | HTMLEscape | HTMLEscape | InsertBreaks }}')]),
("htmlescape-noop","C23",[(R,'func(s string) string { return template.HTMLEscapeString(s) }','func(s string) string { return s }')]),
("replacer-unescape","C23",[(R,'	`,`, `,<wbr>`,\n','	`,`, `,<wbr>`,\n	`&lt;`, `<`,\n')]),
("q-noescape","C23",[(H,'$query_params (QueryEscape $q)','$query_params $q')]),
("source-noescape","C23",[(H,'"%s&source=%s" $query_params (QueryEscape .)','"%s&source=%s" $query_params .')]),
("queryescape-noop","C23",[(R,'func(s string) string { return url.QueryEscape(s) }','func(s string) string { return strings.ReplaceAll(s, " ", "+") }')]),
("err-noescape","C23",[(R,'template.HTMLEscapeString(err.Error())','err.Error()')]),
("innerhtml","C23",[(H,'elem.replaceChildren(text.slice(0, match.index), mark, text.slice(match.index + match[0].length));','elem.innerHTML = text.replace(match[0], "<mark>" + match[0] + "</mark>");')]),
("field-typo","C23",[(H,'title="{{.Oldest}}"','title="{{.OldestTime}}"')]),
("func-args","C23",[(H,'{{HumanizeDuration (TimeSince .Oldest)}}','{{HumanizeDuration .Oldest}}')]),
("func-unknown","C23",[(R,'	"FlexGrowPercent":      flexGrowPercent,\n','')]),
("eq-kinds","C23",[(H,'{{ if eq .Request.Limit 10  }}','{{ if eq .Request.Limit "10"  }}')]),
("printf","C23",[(H,'{{ $query_params := printf "n=%d" $n | SafeURL }}','{{ $query_params := printf "n=%s" $n | SafeURL }}')]),
("sourcelink-raw","C23",[(R,'func SourceLinkVSCode(fileline string) template.URL { return template.URL("vscode://file/" + fileline) }','func SourceLinkVSCode(fileline string) template.URL { return template.URL(fileline) }')]),
("double-link","C23",[(H,'href="?category={{.Category}}"','href="?category={{QueryEscape .Category}}"')]),
("safeurl-raw","C23",[(H,'href="?source={{.Source}}"','href="?source={{SafeURL .Source}}"')]),
("ev-skip","C23",[(R,'		delta := ev.When.Sub(prev)\n','		if ev.What == "" {\n			continue\n		}\n		delta := ev.When.Sub(prev)\n')]),
("ev-break","C23",[(R,'		delta := ev.When.Sub(prev)\n','		if i >= 1000 {\n			break\n		}\n		delta := ev.When.Sub(prev)\n')]),
("ev-what","C23",[(R,'			What:         ev.What,','			What:         humanizeFunction(ev.What),')]),
("ev-prev","C23",[(R,'		prev = ev.When\n','		if ev.IsError {\n			prev = ev.When\n		}\n')]),
("ev-cumul","C23",[(R,'Cumulative:   ev.When.Sub(st.TraceStarted)','Cumulative:   ev.When.Sub(prev)')]),
("ev-stack","C23",[(R,'			Stack:        ev.Stack,\n','			Stack:        ev.Stack[:min(len(ev.Stack), 5)],\n')]),
("index-req","C23",[(H,'index $.Response.Stats.Bucketing $i','index $r.Bucketing $i')]),
("index-unguarded","C23",[(H,'{{ if gt (len $f.Sources) 0 }} {{ $first_source = index $f.Sources 0 }} {{ end }}','{{ $first_source = index $f.Sources 0 }}')]),
# preserving
("r-guard",None,[(H,'{{ if gt (len $f.Sources) 0 }} {{ $first_source','{{ if $f.Sources }} {{ $first_source')]),
("r-escape-in-func",None,[(R,'func(s string) template.HTML { return template.HTML(breaksReplacer.Replace(s)) }','func(s string) template.HTML { return template.HTML(breaksReplacer.Replace(template.HTMLEscapeString(s))) }'),(H,'{{ .What | HTMLEscape | InsertBreaks }}','{{ .What | InsertBreaks }}')]),
("r-helper",None,[(R,'func(s string) template.HTML { return template.HTML(breaksReplacer.Replace(s)) }','insertBreaks'),(R,'func humanizeFunction(','func insertBreaks(s string) template.HTML {\n	return template.HTML(breaksReplacer.Replace(s))\n}\n\nfunc humanizeFunction(')]),
("r-urlencode",None,[(H,'printf "id=%s" (QueryEscape .ID) | SafeURL','printf "id=%s" (urlquery .ID) | SafeURL')]),
("r-inline-replacer",None,[(R,'func(s string) template.HTML { return template.HTML(breaksReplacer.Replace(s)) }','func(s string) template.HTML { s = strings.ReplaceAll(s, ",", ",<wbr>"); s = strings.ReplaceAll(s, ";", ";<wbr>"); return template.HTML(s) }'),(R,'''var breaksReplacer = strings.NewReplacer(
	`,`, `,<wbr>`,
	`;`, `;<wbr>`,
)
''','')]),
("r-errpage",None,[(R,'		body = []byte(fmt.Sprintf(`<html><body><h1>Error</h1><p>%s</p>`, template.HTMLEscapeString(err.Error())))','		msg := template.HTMLEscapeString(err.Error())\n		body = append(body[:0], "<html><body><h1>Error</h1><p>"+msg+"</p>"...)')]),
("r-errpage2",None,[(R,'		body = []byte(fmt.Sprintf(`<html><body><h1>Error</h1><p>%s</p>`, template.HTMLEscapeString(err.Error())))','		body = errorPage(err)'),(R,'func renderJSON(','func errorPage(err error) []byte {\n	return []byte(`<html><body><h1>Error</h1><p>` + template.HTMLEscapeString(err.Error()) + `</p>`)\n}\n\nfunc renderJSON(')]),
("r-func-build",None,[(R,'var templateFuncs = template.FuncMap{','var templateFuncs = makeFuncs()\n\nfunc makeFuncs() template.FuncMap { return template.FuncMap{'),(R,'	"RenderEvents":         renderEvents,\n}','	"RenderEvents":         renderEvents,\n}\n}')]),
("r-events-idx",None,[(R,'	for i, ev := range st.TraceEvents {\n','	for i := range st.TraceEvents {\n		ev := st.TraceEvents[i]\n')]),
("r-events-prealloc",None,[(R,'	var events []renderEvent\n','	events := make([]renderEvent, 0, len(st.TraceEvents)+2)\n')]),
("r-events-helper",None,[(R,'''		events = append(events, renderEvent{
			Index:        i,
			When:         ev.When,
			Delta:        delta,
			DeltaPercent: 100 * float64(delta) / float64(st.TraceDuration),
			Cumulative:   ev.When.Sub(st.TraceStarted),
			What:         ev.What,
			IsError:      ev.IsError,
			Stack:        ev.Stack,
		})
''','''		events = append(events, makeEvent(st, i, ev, delta))
'''),(R,'type renderEvent struct','''func makeEvent(st *trc.StaticTrace, i int, ev trc.Event, delta time.Duration) renderEvent {
	var re renderEvent
	re.Index = i
	re.When = ev.When
	re.Delta = delta
	re.DeltaPercent = 100 * float64(delta) / float64(st.TraceDuration)
	re.Cumulative = ev.When.Sub(st.TraceStarted)
	re.What = ev.What
	re.IsError = ev.IsError
	re.Stack = ev.Stack
	return re
}

type renderEvent struct''')]),
("r-with",None,[(H,'{{ if .Source }}\n			&middot;\n			src <a href="?source={{.Source}}"><strong>{{.Source}}</strong></a>','{{ with .Source }}\n			&middot;\n			src <a href="?source={{.}}"><strong>{{.}}</strong></a>')]),
("r-events-loop2",None,[(R,'	for i, ev := range st.TraceEvents {\n','	for i := 0; i < len(st.TraceEvents); i++ {\n		ev := &st.TraceEvents[i]\n')]),
]
