from s1 import demo
_MW = '''
type mw struct{}
func (mw) Execute(context.Context) error { return nil }
func (mw) ExecuteWithNext(context.Context, cli.Action) error { return nil }
type act func() error
func (a act) Execute(context.Context) error { return a() }
'''
SEEDS = [
 dict(id="C11-flatten-one-level", prop="C11", file="action.go",
  old="			result = append(result, n.flatten()...)", new="			result = append(result, n...)",
  needs="pipelines nested three deep with a middleware in the innermost one that does not invoke next",
  breaks="actions after the innermost pipeline run although the middleware did not invoke next",
  demo=demo('''
	ran := 0
	p := cli.Pipeline(cli.ActionPipeline{cli.ActionPipeline{cli.ActionPipeline{mw{}, act(func() error { ran++; return nil })}}, act(func() error { ran++; return nil })})
	p.Execute(context.Background())
	if ran != 0 { fail("%d actions ran", ran) }
''', ["context"]) + _MW),
 dict(id="C11-nested-first-only", prop="C11", file="action.go",
  old="	for _, i := range p {\n		if _, ok := i.(ActionPipeline); ok {\n			return true\n		}\n	}\n	return false",
  new="	if len(p) == 0 {\n		return false\n	}\n	_, ok := p[0].(ActionPipeline)\n	return ok",
  needs="a nested pipeline that is not the first member, holding a middleware",
  breaks="the nested pipeline is not flattened, so the middleware gets only part of the rest",
  demo=demo('''
	ran := 0
	n := act(func() error { ran++; return nil })
	p := cli.Pipeline(cli.ActionPipeline{n, cli.ActionPipeline{mw{}}, n})
	p.Execute(context.Background())
	if ran != 1 { fail("%d actions ran", ran) }
''', ["context"]) + _MW),
 dict(id="C11-run-on-copy", prop="C11", file="action.go",
  old="	if m, ok := o.action.(Middleware); ok {\n		return m.ExecuteWithNext(c, o.next)\n	}\n\n	if err := execute(c, o.action); err != nil {\n		return err\n	}\n	return execute(c, o.next)",
  new="	for ; o != nil; o = o.next {\n		if m, ok := o.action.(Middleware); ok {\n			if err := m.ExecuteWithNext(c, o.next); err != nil || o.next == nil {\n				return err\n			}\n			return nil\n		}\n		if err := execute(c, o.action); err != nil {\n			if o.next == nil {\n				return err\n			}\n			if _, ok := o.next.action.(Middleware); !ok {\n				return err\n			}\n		}\n	}\n	return nil",
  needs="an action that fails directly before a middleware",
  breaks="the error is lost and the middleware runs",
  demo=demo('''
	p := cli.Pipeline(act(func() error { return context.Canceled }), mw{})
	if p.Execute(context.Background()) == nil { fail("no error") }
''', ["context"]) + _MW),
]
