C="collector.go"; E="eztrc/easy.go"
M=[
("cfg-deco","C28",[(C,"		decorators: cfg.Decorators,\n","		decorators: append([]DecoratorFunc(nil), cfg.Decorators[min(1, len(cfg.Decorators)):]...),\n")]),
("cfg-deco-cap","C28",[(C,"	return &Collector{\n","	if len(cfg.Decorators) > 8 {\n		cfg.Decorators = cfg.Decorators[:8]\n	}\n\n	return &Collector{\n")]),
("cfg-src","C28",[(C,'	if cfg.Source == "" {\n		cfg.Source = "default"\n	}','	if cfg.Source == "" || cfg.Broker == nil {\n		cfg.Source = "default"\n	}')]),
("cfg-nt","C28",[(C,"	if cfg.NewTrace == nil {\n		cfg.NewTrace = New\n	}","	if cfg.NewTrace == nil || cfg.Source == \"default\" {\n		cfg.NewTrace = New\n	}")]),
("cfg-broker","C28",[(C,"	if cfg.Broker == nil {\n		cfg.Broker = NewBroker()\n	}","	if cfg.Broker == nil || len(cfg.Decorators) > 0 {\n		cfg.Broker = NewBroker()\n	}")]),
("cfg-nobroker","C28",[(C,"	if cfg.Broker == nil {\n		cfg.Broker = NewBroker()\n	}","	if cfg.Broker == nil && cfg.NewTrace == nil {\n		cfg.Broker = NewBroker()\n	}"),]),
("setdec","C28",[(C,"	c.decorators = decorators\n	return c","	c.decorators = append(c.decorators, decorators...)\n	return c")]),
("setdec-nil","C28",[(C,"	c.decorators = decorators\n	return c","	if len(decorators) > 0 {\n		c.decorators = decorators\n	}\n	return c")]),
("setsrc","C28",[(C,"	c.source = name\n	return c","	if c.source == \"default\" {\n		c.source = name\n	}\n	return c")]),
("setnt","C28",[(C,"	c.newTrace = newTrace\n	return c","	cp := *c\n	cp.newTrace = newTrace\n	return &cp")]),
("setnt-deco","C28",[(C,"	c.newTrace = newTrace\n	return c","	c.newTrace, c.decorators = newTrace, nil\n	return c")]),
("nt-new","C28",[(C,"	ctx, tr := c.newTrace(ctx, c.source, category, publishDecorator(c.broker))\n","	newTrace := c.newTrace\n	if len(c.decorators) > 0 {\n		newTrace = New\n	}\n	ctx, tr := newTrace(ctx, c.source, category, publishDecorator(c.broker))\n")]),
("dflt-src","C28",[(C,'		Source:   "default",\n		NewTrace: New,','		Source:   "trc",\n		NewTrace: New,')]),
("r-dflt",None,[(C,'	return NewCollector(CollectorConfig{\n		Source:   "default",\n		NewTrace: New,\n	})','	return NewCollector(CollectorConfig{})')]),
("r-clone",None,[(C,"		decorators: cfg.Decorators,\n","		decorators: append([]DecoratorFunc(nil), cfg.Decorators...),\n")]),
("r-clone2",None,[(C,"	c.decorators = decorators\n	return c","	c.decorators = append([]DecoratorFunc{}, decorators...)\n	return c")]),
("r-clone3",None,[(C,"	c.decorators = decorators\n	return c","	ds := make([]DecoratorFunc, len(decorators))\n	copy(ds, decorators)\n	c.decorators = ds\n	return c")]),
("r-norm",None,[(C,'	if cfg.Source == "" {\n		cfg.Source = "default"\n	}\n\n	if cfg.NewTrace == nil {\n		cfg.NewTrace = New\n	}\n\n	if cfg.Broker == nil {\n		cfg.Broker = NewBroker()\n	}\n','	cfg.setDefaults()\n'),(C,"// NewCollector returns a new","func (cfg *CollectorConfig) setDefaults() {\n	if len(cfg.Source) == 0 {\n		cfg.Source = \"default\"\n	}\n	if cfg.NewTrace == nil {\n		cfg.NewTrace = New\n	}\n	if cfg.Broker == nil {\n		cfg.Broker = NewBroker()\n	}\n}\n\n// NewCollector returns a new")]),
("r-new",None,[(C,"	return &Collector{\n		source:     cfg.Source,\n		newTrace:   cfg.NewTrace,\n		broker:     cfg.Broker,\n		decorators: cfg.Decorators,\n		categories: trcringbuf.NewRingBuffers[Trace](1000),\n	}\n","	c := new(Collector)\n	c.source, c.newTrace = cfg.Source, cfg.NewTrace\n	c.broker = cfg.Broker\n	c.SetDecorators(cfg.Decorators...)\n	c.categories = trcringbuf.NewRingBuffers[Trace](1000)\n	return c\n")]),
("r-nt",None,[(C,"	ctx, tr := c.newTrace(ctx, c.source, category, publishDecorator(c.broker))\n","	newTrace, source := c.newTrace, c.source\n	publish := publishDecorator(c.broker)\n	ctx, tr := newTrace(ctx, source, category, publish)\n")]),
]
