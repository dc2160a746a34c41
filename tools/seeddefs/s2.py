from s1 import demo
SEEDS = [
 dict(id="C05-drop-name-once", prop="C05", file="set.go",
  old="	for _, v := range m[name] {\n		res = append(res, v[index:]...)\n	}",
  new="	for i, v := range m[name] {\n		if len(v) == 1 && i > 0 {\n			continue\n		}\n		res = append(res, v[index:]...)\n	}",
  needs="a flag without values that is given twice, asked for with names",
  breaks="raw values omit the second and later occurrences of a flag that took no value",
  demo=demo('''
	m := cli.BindingMap{"f": {{"-f"}, {"-f"}}}
	if got := fmt.Sprintf("%q", m.Raw("f")); got != `["-f" "-f"]` { fail("%s", got) }
''')),
 dict(id="C06-float32-range", prop="C06", file="value.go",
  old="strconv.ParseFloat(value, 32)", new="strconv.ParseFloat(value, 64)",
  needs="a float32 destination and a number beyond the float32 range",
  breaks="a number too large for float32 is stored as infinity without an error",
  demo=demo('''
	var f float32 = 1
	if err := cli.Set(&f, "1e300"); err == nil || f != 1 { fail("%v %v", f, err) }
''')),
 dict(id="C07-map-reset-later", prop="C07", file="value.go",
  old="		case *map[string]string:\n			*p = map[string]string{}\n		}\n	}\n}",
  new="		case *map[string]string:\n			if len(*p) < 2 || flags.disableSplitting() {\n				*p = map[string]string{}\n			}\n		}\n	}\n}",
  needs="a map option initialised with two or more entries that is then set",
  breaks="the initial entries of a map survive the first occurrence without Merge",
  demo=demo('''
	m := map[string]string{"a": "1", "b": "2"}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "m", Value: &m}}}
	if err := app.RunContext(context.Background(), []string{"app", "-m", "c=3"}); err != nil { fail("%v", err) }
	if len(m) != 1 { fail("%v", m) }
''', ["context"])),
 dict(id="C07-text-count", prop="C07", file="flag.go",
  old="	f.count++\n	optionApplyValueConventions(f.Value, f.flags, f.count == 1)",
  new="	f.count++\n	optionApplyValueConventions(f.Value, f.flags, f.count%256 == 1)",
  needs="a list flag given 257 times",
  breaks="the list starts over at the 257th occurrence",
  demo=demo('''
	l := []string{}
	app := &cli.App{Name: "app", Flags: []*cli.Flag{{Name: "l", Value: &l}}}
	line := []string{"app"}
	for i := 0; i < 300; i++ { line = append(line, "-l", "x") }
	if err := app.RunContext(context.Background(), line); err != nil { fail("%v", err) }
	if len(l) != 300 { fail("%d", len(l)) }
''', ["context"])),
 dict(id="C08-trim-parts", prop="C08", file="value.go",
  old="			nvp.Name, nvp.Value, hasValue = splitValuePair(kvp)",
  new="			nvp.Name, nvp.Value, hasValue = splitValuePair(kvp)\n			nvp.Value = strings.TrimSuffix(nvp.Value, \"=\")",
  needs="a name-value list item whose value ends with =",
  breaks="a trailing = of a value is lost (base64 padding, for example)",
  demo=demo('''
	l := cli.NameValues()
	if err := cli.Set(l, "token=YQ=="); err != nil { fail("%v", err) }
	if got := (*l)[0].Value; got != "YQ==" { fail("%q", got) }
''')),
 dict(id="C08-map-continue", prop="C08", file="internal/support/support.go",
  old='			value = value + "," + k[0]',
  new='			if value == "" {\n				value = k[0]\n				break\n			}\n			value = value + "," + k[0]',
  needs="a map item with an empty value followed by an item without =",
  breaks="an item without = that follows an empty value loses its comma",
  demo=demo('''
	m := cli.SplitMap("a=,b")
	if m["a"] != ",b" { fail("%q", m) }
''')),
]
SEEDS = [s for s in SEEDS if s["old"]]
