F='broker.go'
s=open("/repo/"+F).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
LOOP=blk(s,"	// Need the reduced form","// Stream will forward")
SEL=blk(s,"		select {\n		case sub.traces <- str","	}\n}\n\n// Stream will")
BODY=blk(s,"	if err := func() error {","// StreamStats returns")
STAT=blk(s,"	sub, ok := b.subs[ch]\n	if !ok","// StreamStats is metadata")
REM=blk(s,"	sub := func() *subscriber {","	if sub == nil {")
M=[
("m-trycap","C18",[(F,SEL,'''		if len(sub.traces) < cap(sub.traces) {
			sub.traces <- str
			sub.stats.Sends++
		} else {
			sub.stats.Drops++
		}
''')]),
("m-retry","C18",[(F,SEL,'''		for i := 0; i < 2; i++ {
			select {
			case sub.traces <- str:
				sub.stats.Sends++
				continue
			default:
				sub.stats.Drops++
			}
			break
		}
''')]),
("m-lazy-orig","C18",[(F,"	for _, sub := range b.subs {\n		if","	for _, sub := range b.subs {\n		if sub.filter.IsFinished && !tr.Finished() {\n			continue\n		}\n		if")]),
("m-skiperr","C18",[(F,"		if !sub.filter.Allow(str) {","		if sub.filter.Query != \"\" && len(str.Events()) == 0 || !sub.filter.Allow(str) {")]),
("m-finish-skip","C18",[(F,"	if len(b.subs) <= 0 {","	if len(b.subs) <= 0 || ctx.Err() != nil {")]),
("m-trylock","C18",[(F,"	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	// Fast","	if !b.mtx.TryLock() {\n		return\n	}\n	defer b.mtx.Unlock()\n\n	// Fast")]),
("m-early-stats","C19",[(F,REM,'''	var stats StreamStats
	sub := func() *subscriber {
		b.mtx.Lock()
		defer b.mtx.Unlock()
		if sub := b.subs[ch]; sub != nil {
			stats = sub.stats
		}
		return b.subs[ch]
	}()
	b.mtx.Lock()
	delete(b.subs, ch)
	b.mtx.Unlock()

'''),(F,"	return sub.stats, ctx.Err()","	return stats, ctx.Err()")]),
("m-done-first","C19",[(F,"	if err := func() error {","	if ctx.Err() != nil {\n		return StreamStats{}, ctx.Err()\n	}\n	if err := func() error {"),(F,"	<-ctx.Done()\n","	select {\n	case <-ctx.Done():\n	case <-time.After(24 * time.Hour):\n	}\n"),(F,'	"sync"\n','	"sync"\n	"time"\n')]),
("m-stat-err","C19",[(F,"		return StreamStats{}, fmt.Errorf(\"not subscribed\")","		return StreamStats{}, nil")]),
("m-stat-ctx","C19",[(F,"	sub, ok := b.subs[ch]\n	if !ok {","	sub, ok := b.subs[ch]\n	if !ok || ctx.Err() != nil && sub.stats.Drops > 0 {")]),
("m-del-other","C19",[(F,"		delete(b.subs, ch)\n","		for c := range b.subs {\n			if c == ch || b.subs[c].filter.Query == f.Query && cap(c) == 0 {\n				delete(b.subs, c)\n			}\n		}\n")]),
("m-close","C19",[(F,"		delete(b.subs, ch)\n","		delete(b.subs, ch)\n		if sub != nil && sub.stats.Drops > 0 {\n			close(ch)\n		}\n")]),
("m-normfilter","C19",[(F,"			filter: f,\n","			filter: active(f),\n"),(F,"type subscriber struct","func active(f Filter) Filter {\n	if f.IsActive && f.IsFinished {\n		f.IsActive = false\n	}\n	return f\n}\n\ntype subscriber struct")]),
# refactors
("r-slice",None,[(F,"	subs map[chan<- Trace]*subscriber\n","	subs []*subscriber\n"),(F,"	return &Broker{\n		subs: map[chan<- Trace]*subscriber{},\n	}","	return &Broker{}"),
 (F,"		if _, ok := b.subs[ch]; ok {","		if b.find(ch) >= 0 {"),(F,'''		b.subs[ch] = &subscriber{
			filter: f,
			traces: ch,
		}
''','''		b.subs = append(b.subs, &subscriber{
			filter: f,
			traces: ch,
		})
'''),(F,"		sub := b.subs[ch]\n		delete(b.subs, ch)\n","		i := b.find(ch)\n		if i < 0 {\n			return nil\n		}\n		sub := b.subs[i]\n		b.subs = append(b.subs[:i], b.subs[i+1:]...)\n"),
 (F,"	sub, ok := b.subs[ch]\n	if !ok {","	i := b.find(ch)\n	if i < 0 {"),(F,"	return sub.stats, nil\n","	return b.subs[i].stats, nil\n"),
 (F,"type subscriber struct",'''func (b *Broker) find(ch chan<- Trace) int {
	for i, sub := range b.subs {
		if sub.traces == ch {
			return i
		}
	}
	return -1
}

type subscriber struct''')]),
("r-trysend",None,[(F,SEL,'''		if trySend(sub.traces, str) {
			sub.stats.Sends++
		} else {
			sub.stats.Drops++
		}
'''),(F,"type subscriber struct",'''func trySend(ch chan<- Trace, tr Trace) (ok bool) {
	select {
	case ch <- tr:
		ok = true
	default:
	}
	return ok
}

type subscriber struct''')]),
("r-counter",None,[(F,LOOP,'''	str := NewStreamTrace(tr)
	for _, sub := range b.subs {
		*sub.deliver(str)++
	}
}

func (sub *subscriber) deliver(str *StaticTrace) *int {
	if !sub.filter.Allow(str) {
		return &sub.stats.Skips
	}
	select {
	case sub.traces <- str:
		return &sub.stats.Sends
	default:
		return &sub.stats.Drops
	}
}

''')]),
("r-outcome",None,[(F,LOOP,'''	str := NewStreamTrace(tr)
	for _, sub := range b.subs {
		switch sub.deliver(str) {
		case skipped:
			sub.stats.Skips++
		case sent:
			sub.stats.Sends++
		case dropped:
			sub.stats.Drops++
		}
	}
}

type outcome int

const (
	skipped outcome = iota
	sent
	dropped
)

func (sub *subscriber) deliver(str *StaticTrace) outcome {
	if !sub.filter.Allow(str) {
		return skipped
	}
	select {
	case sub.traces <- str:
		return sent
	default:
		return dropped
	}
}

''')]),
("r-lazystr",None,[(F,LOOP,'''	var str *StaticTrace
	for _, sub := range b.subs {
		if str == nil {
			str = NewStreamTrace(tr)
		}
		sub := sub
		if ok := sub.filter.Allow(str); ok {
'''+SEL+'''			continue
		}
		sub.stats.Skips++
	}
}

''')]),
("r-defer",None,[(F,BODY,'''	sub, err := b.subscribe(f, ch)
	if err != nil {
		return StreamStats{}, err
	}
	defer func() {
		b.unsubscribe(ch)
		stats = sub.stats
	}()

	<-ctx.Done()
	return stats, ctx.Err()
}

func (b *Broker) subscribe(f Filter, ch chan<- Trace) (*subscriber, error) {
	b.mtx.Lock()
	defer b.mtx.Unlock()
	if b.subs[ch] != nil {
		return nil, fmt.Errorf("already subscribed")
	}
	sub := &subscriber{filter: f, traces: ch}
	b.subs[ch] = sub
	return sub, nil
}

func (b *Broker) unsubscribe(ch chan<- Trace) {
	b.mtx.Lock()
	delete(b.subs, ch)
	b.mtx.Unlock()
}

'''),(F,"f Filter, ch chan<- Trace) (StreamStats, error) {","f Filter, ch chan<- Trace) (stats StreamStats, _ error) {")]),
("r-value",None,[(F,"	subs map[chan<- Trace]*subscriber\n","	subs map[chan<- Trace]subscriber\n"),(F,"subs: map[chan<- Trace]*subscriber{}","subs: map[chan<- Trace]subscriber{}"),(F,LOOP,'''	str := NewStreamTrace(tr)
	for ch, sub := range b.subs {
		switch {
		case !sub.filter.Allow(str):
			sub.stats.Skips++
		default:
			select {
			case ch <- str:
				sub.stats.Sends++
			default:
				sub.stats.Drops++
			}
		}
		b.subs[ch] = sub
	}
}

'''),(F,"b.subs[ch] = &subscriber{","b.subs[ch] = subscriber{"),(F,'''	sub := func() *subscriber {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		sub := b.subs[ch]
		delete(b.subs, ch)

		return sub
	}()

	if sub == nil {''','''	sub, ok := func() (subscriber, bool) {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		sub, ok := b.subs[ch]
		delete(b.subs, ch)

		return sub, ok
	}()

	if !ok {''')]),
("r-atomic",None,[(F,"	stats  StreamStats\n","	skips, sends, drops atomic.Int64\n"),(F,"sub.stats.Skips++","sub.skips.Add(1)"),(F,"sub.stats.Sends++","sub.sends.Add(1)"),(F,"sub.stats.Drops++","sub.drops.Add(1)"),(F,"	return sub.stats, ctx.Err()","	return sub.stats(), ctx.Err()"),(F,"	return sub.stats, nil","	return sub.stats(), nil"),(F,'	"sync"\n','	"sync"\n	"sync/atomic"\n'),(F,"type subscriber struct",'''func (sub *subscriber) stats() StreamStats {
	return StreamStats{
		Skips: int(sub.skips.Load()),
		Sends: int(sub.sends.Load()),
		Drops: int(sub.drops.Load()),
	}
}

type subscriber struct''')]),
("r-withlock",None,[(F,BODY,'''	var err error
	b.locked(func() {
		if _, exists := b.subs[ch]; exists {
			err = fmt.Errorf("already subscribed")
			return
		}
		b.subs[ch] = &subscriber{traces: ch, filter: f}
	})
	if err != nil {
		return StreamStats{}, err
	}

	<-ctx.Done()

	var sub *subscriber
	b.locked(func() {
		sub = b.subs[ch]
		delete(b.subs, ch)
	})
	if sub != nil {
		return sub.stats, ctx.Err()
	}
	return StreamStats{}, fmt.Errorf("not subscribed (programmer error)")
}

func (b *Broker) locked(f func()) {
	b.mtx.Lock()
	defer b.mtx.Unlock()
	f()
}

''')]),
("r-rw",None,[(F,"	mtx  sync.Mutex\n","	mtx  sync.RWMutex\n"),(F,"	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	sub, ok","	b.mtx.RLock()\n	defer b.mtx.RUnlock()\n\n	sub, ok")]),
("r-init",None,[(F,"	return &Broker{\n		subs: map[chan<- Trace]*subscriber{},\n	}","	var b Broker\n	b.subs = make(map[chan<- Trace]*subscriber, 8)\n	return &b")]),
]
M+=[("r-over",None,[(F,"	if err := func() error {","	if err := ctx.Err(); err != nil {\n		return StreamStats{}, err\n	}\n	if err := func() error {")]),
("r-over2",None,[(F,"	if err := func() error {","	if ctx.Err() != nil {\n		return StreamStats{}, ctx.Err()\n	}\n	if err := func() error {")]),
("m-over","C19",[(F,"	if err := func() error {","	if ctx.Err() != nil {\n		return StreamStats{}, nil\n	}\n	if err := func() error {")]),
("m-over2","C19",[(F,"	if err := func() error {","	if ctx == nil || ch == nil || cap(ch) == 0 {\n		return StreamStats{}, ctx.Err()\n	}\n	if err := func() error {")]),
]
