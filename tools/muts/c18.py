F='broker.go'
SEL='''		select {
		case sub.traces <- str:
			sub.stats.Sends++
		default:
			sub.stats.Drops++
		}
'''
M=[
("blocking","C18",[(F,SEL,"		if cap(sub.traces) > 0 {\n			sub.traces <- str\n			sub.stats.Sends++\n			continue\n		}\n"+SEL)]),
("timeout","C18",[(F,"		default:\n			sub.stats.Drops++","		case <-ctx.Done():\n			sub.stats.Drops++")]),
("filter-orig","C18",[(F,"sub.filter.Allow(str)","sub.filter.Allow(tr)")]),
("send-orig","C18",[(F,"case sub.traces <- str:","case sub.traces <- tr:")]),
("skip-nocount","C18",[(F,"			sub.stats.Skips++\n			continue","			continue")]),
("drop-return","C18",[(F,"			sub.stats.Drops++\n","			sub.stats.Drops++\n			return\n")]),
("skip-break","C18",[(F,"			sub.stats.Skips++\n			continue","			sub.stats.Skips++\n			break")]),
("sends-always","C18",[(F,"			sub.stats.Drops++\n","			sub.stats.Drops++\n			sub.stats.Sends++\n")]),
("active-shortcut","C18",[(F,"	// Need the reduced","	if !tr.Finished() && len(b.subs) > 100 {\n		return\n	}\n	// Need the reduced")]),
("go-send","C18",[(F,SEL,"		go func(sub *subscriber) { sub.traces <- str }(sub)\n		sub.stats.Sends++\n")]),
("stats-copy","C18",[(F,SEL,'''		stats := sub.stats
		select {
		case sub.traces <- str:
			stats.Sends++
			sub.stats = stats
		default:
			stats.Drops++
		}
''')]),
("dup","C19",[(F,'''		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}
''','''		if sub, ok := b.subs[ch]; ok {
			sub.filter = f
			return fmt.Errorf("already subscribed")
		}
''')]),
("dup2","C19",[(F,'''		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}
''','''		if sub, ok := b.subs[ch]; ok && sub.stats.Sends > 0 {
			return fmt.Errorf("already subscribed")
		}
''')]),
("unlocked-check","C19",[(F,'''			return fmt.Errorf("already subscribed")
		}
''','''			return fmt.Errorf("already subscribed")
		}
		b.mtx.Unlock()
		f.Normalize()
		b.mtx.Lock()
''')]),
("no-delete","C19",[(F,"		delete(b.subs, ch)\n","		if sub != nil && sub.stats.Sends > 0 {\n			delete(b.subs, ch)\n		}\n")]),
("remove-dup","C19",[(F,'''	}(); err != nil {
		return StreamStats{}, err
	}

	<-ctx.Done()
''','''	}(); err != nil {
		b.mtx.Lock()
		delete(b.subs, ch)
		b.mtx.Unlock()
		return StreamStats{}, err
	}

	<-ctx.Done()
''')]),
("err-nil","C19",[(F,"	return sub.stats, ctx.Err()","	return sub.stats, nil")]),
("stats-missing","C19",[(F,"	return sub.stats, ctx.Err()","	return StreamStats{Sends: sub.stats.Sends, Skips: sub.stats.Drops, Drops: sub.stats.Drops}, ctx.Err()")]),
("statsreset","C19",[(F,"	return sub.stats, nil\n","	stats := sub.stats\n	sub.stats = StreamStats{}\n	return stats, nil\n")]),
("filter-partial","C19",[(F,"			filter: f,\n","			filter: Filter{Sources: f.Sources, IDs: f.IDs, Category: f.Category, IsActive: f.IsActive, IsFinished: f.IsFinished, MinDuration: f.MinDuration, IsSuccess: f.IsSuccess, IsErrored: f.IsErrored},\n")]),
("coll-filter","C19",[("collector.go","	return c.broker.Stream(ctx, f, ch)","	return c.broker.Stream(ctx, Filter{Category: f.Category}, ch)")]),
# refactors
("ref-offer",None,[(F,'''		if !sub.filter.Allow(str) {
			sub.stats.Skips++
			continue
		}

'''+SEL,"		sub.offer(str)\n"),(F,"type subscriber struct {",'''func (sub *subscriber) offer(str *StaticTrace) {
	if !sub.filter.Allow(str) {
		sub.stats.Skips++
		return
	}
	select {
	case sub.traces <- str:
		sub.stats.Sends++
	default:
		sub.stats.Drops++
	}
}

type subscriber struct {''')]),
("ref-key",None,[(F,"	for _, sub := range b.subs {","	for ch := range b.subs {\n		sub := b.subs[ch]")]),
("ref-nofast",None,[(F,'''	// Fast path exit if there are no subscribers.
	if len(b.subs) <= 0 {
		return
	}
''','')]),
("ref-else",None,[(F,'''			sub.stats.Skips++
			continue
		}

'''+SEL,'''			sub.stats.Skips++
		} else {
			select {
			case sub.traces <- str:
				sub.stats.Sends += 1
			default:
				sub.stats.Drops += 1
			}
		}
''')]),
("ref-sent",None,[(F,SEL,'''		sent := false
		select {
		case sub.traces <- str:
			sent = true
		default:
		}
		if sent {
			sub.stats.Sends++
		} else {
			sub.stats.Drops++
		}
''')]),
("ref-methods",None,[(F,'''	if err := func() error {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}

		b.subs[ch] = &subscriber{
			filter: f,
			traces: ch,
		}

		return nil
	}(); err != nil {
		return StreamStats{}, err
	}

	<-ctx.Done()

	sub := func() *subscriber {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		sub := b.subs[ch]
		delete(b.subs, ch)

		return sub
	}()
''','''	if err := b.subscribe(f, ch); err != nil {
		return StreamStats{}, err
	}

	<-ctx.Done()

	sub := b.unsubscribe(ch)
'''),(F,"// StreamStats returns",'''func (b *Broker) subscribe(f Filter, ch chan<- Trace) error {
	b.mtx.Lock()
	defer b.mtx.Unlock()

	if _, exists := b.subs[ch]; exists {
		return fmt.Errorf("already subscribed")
	}

	sub := &subscriber{filter: f, traces: ch}
	b.subs[ch] = sub
	return nil
}

func (b *Broker) unsubscribe(ch chan<- Trace) *subscriber {
	b.mtx.Lock()
	defer b.mtx.Unlock()

	sub := b.subs[ch]
	delete(b.subs, ch)
	return sub
}

// StreamStats returns''')]),
("ref-own-sub",None,[(F,'''	if err := func() error {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}

		b.subs[ch] = &subscriber{
			filter: f,
			traces: ch,
		}

		return nil
	}(); err != nil {
		return StreamStats{}, err
	}

	<-ctx.Done()

	sub := func() *subscriber {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		sub := b.subs[ch]
		delete(b.subs, ch)

		return sub
	}()

	if sub == nil {
		return StreamStats{}, fmt.Errorf("not subscribed (programmer error)")
	}

	return sub.stats, ctx.Err()
''','''	sub := &subscriber{filter: f, traces: ch}

	b.mtx.Lock()
	if b.subs[ch] != nil {
		b.mtx.Unlock()
		return StreamStats{}, fmt.Errorf("already subscribed")
	}
	b.subs[ch] = sub
	b.mtx.Unlock()

	<-ctx.Done()

	b.mtx.Lock()
	delete(b.subs, ch)
	stats := sub.stats
	b.mtx.Unlock()

	return stats, ctx.Err()
''')]),
("ref-stats",None,[(F,'''	sub, ok := b.subs[ch]
	if !ok {
		return StreamStats{}, fmt.Errorf("not subscribed")
	}

	return sub.stats, nil
''','''	if sub, ok := b.subs[ch]; ok {
		return sub.stats, nil
	}

	return StreamStats{}, fmt.Errorf("not subscribed")
''')]),
("ref-defer",None,[(F,'''	<-ctx.Done()

	sub := func() *subscriber {
		b.mtx.Lock()
		defer b.mtx.Unlock()

		sub := b.subs[ch]
		delete(b.subs, ch)

		return sub
	}()
''','''	select {
	case <-ctx.Done():
	}

	b.mtx.Lock()
	sub, ok := b.subs[ch]
	if ok {
		delete(b.subs, ch)
	}
	b.mtx.Unlock()
''')]),
]
