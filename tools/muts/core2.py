F="trace_core.go"
R='''	res := make([]Event, len(cevs))
	for i, cev := range cevs {
		var stack'''
B="		res[i] = Event{\n			When:    cev.when,\n			What:    cev.what.String(),\n			Stack:   stack,\n			IsError: cev.iserr,\n		}\n"
A="		res = append(res, Event{\n			When:    cev.when,\n			What:    cev.what.String(),\n			Stack:   stack,\n			IsError: cev.iserr,\n		})\n"
M=[
("ap-rev","C05",[(F,R,'''	res := make([]Event, 0, len(cevs))
	for i := len(cevs) - 1; i >= 0; i-- {
		cev := cevs[i]
		var stack'''),(F,B,A)]),
("ap-skip","C05",[(F,R,'''	res := make([]Event, 0, len(cevs))
	for _, cev := range cevs {
		if cev.when.IsZero() {
			continue
		}
		var stack'''),(F,B,A)]),
("ap-cross","C05",[(F,R,'''	res := make([]Event, 0, len(cevs))
	for _, cev := range cevs {
		var stack'''),(F,B,A.replace("cev.when","cevs[0].when"))]),
("shift","C05",[(F,B,"		i = (i + 1) % len(cevs)\n"+B)]),
("r-ap-var",None,[(F,R,'''	var res []Event
	for _, cev := range cevs {
		var stack'''),(F,B,A)]),
("r-ap-idx",None,[(F,R,'''	res := []Event{}
	for i := 0; i < len(cevs); i++ {
		cev := cevs[i]
		var stack'''),(F,B,A)]),
("r-ap-ev",None,[(F,R,'''	res := make([]Event, 0, len(cevs))
	for _, cev := range cevs {
		var stack'''),(F,B,"		var ev Event\n		ev.When = cev.when\n		ev.What = cev.what.String()\n		ev.Stack = stack\n		ev.IsError = cev.iserr\n		res = append(res, ev)\n")]),
("r-idx-ev",None,[(F,B,"		ev := &res[i]\n		ev.When = cev.when\n		ev.What = cev.what.String()\n		ev.Stack = stack\n		ev.IsError = cev.iserr\n")]),
("r-free-reset",None,[(F,"	cev.iserr = flags&flagError != 0\n","	if flags&flagError != 0 {\n		cev.iserr = true\n	}\n"),(F,"	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n","	cev.pcn = 0\n	cev.iserr = false\n	cev.stack = cev.stack[:0]\n")]),
("r-free-reset2",None,[(F,"	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n	trcdebug","	*cev = coreEvent{stack: cev.stack[:0]}\n	trcdebug")]),
]
