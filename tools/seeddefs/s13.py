from s1 import demo
I = ['github.com/Carbonfrost/joe-cli/value']
SEEDS = [
 dict(id="C25-fraction", prop="C25", file="value/value.go",
  old='	return int(num * math.Pow(base, float64(magnitude))), nil',
  new='	return int(num) * int(math.Pow(base, float64(magnitude))), nil',
  needs="a size with a fraction and a unit, such as 1.5kB",
  breaks="the fraction is dropped before multiplying (1.5kB reads as 1000)",
  demo=demo('''	if n, err := value.ParseByteLength("1.5kB"); err != nil || n != 1500 {
		fail("%v %v", n, err)
	}''', I)),
 dict(id="C25-trim", prop="C25", file="value/value.go",
  old='strings.TrimPrefix(string(d), "0x")', new='strings.TrimLeft(string(d), "0x")',
  needs="the hexadecimal value zero",
  breaks="0x0, the text that zero prints as, cannot be read back",
  demo=demo('''	h := value.Hex(5)
	if err := h.UnmarshalText([]byte(value.Hex(0).String())); err != nil || h != 0 {
		fail("%v %v", h, err)
	}''', I)),
 dict(id="C25-octal-width", prop="C25", file="value/value.go",
  old='strings.TrimPrefix(string(d), "0o"), 8, 64)', new='strings.TrimPrefix(string(d), "0o"), 8, 32)',
  needs="an octal value beyond 32 bits",
  breaks="a large octal value prints text that is rejected when read back",
  demo=demo('''	var h value.Octal
	if err := h.UnmarshalText([]byte(value.Octal(1 << 40).String())); err != nil || h != 1<<40 {
		fail("%v %v", h, err)
	}''', I)),
]
