package cli_test

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/Carbonfrost/joe-cli"
)

// value types under test: a maker that gives a destination holding a non-zero previous value
type vvKind struct {
	name string
	mk   func() any
	bits int  // integers
	uns  bool // unsigned
}

func vvP[T any](x T) func() any { return func() any { y := x; return &y } }

var vvKinds = []vvKind{
	{"int", vvP(int(77)), 64, false}, {"int8", vvP(int8(77)), 8, false}, {"int16", vvP(int16(77)), 16, false},
	{"int32", vvP(int32(77)), 32, false}, {"int64", vvP(int64(77)), 64, false},
	{"uint", vvP(uint(77)), 64, true}, {"uint8", vvP(uint8(77)), 8, true}, {"uint16", vvP(uint16(77)), 16, true},
	{"uint32", vvP(uint32(77)), 32, true}, {"uint64", vvP(uint64(77)), 64, true},
}

// vvInt reads a Go integer literal with the big-number package; ok is false when it is not one.
func vvInt(s string, uns bool) (*big.Int, bool) {
	if uns && (strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-")) {
		return nil, false
	}
	return new(big.Int).SetString(s, 0)
}

func vvRange(bits int, uns bool) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

func vvShow(p any) string {
	e := reflect.ValueOf(p).Elem().Interface()
	switch x := e.(type) {
	case *url.URL:
		return fmt.Sprintf("url %v", x)
	case *regexp.Regexp:
		return fmt.Sprintf("regexp %v", x)
	case *big.Int:
		return fmt.Sprintf("bigint %v", x)
	case *big.Float:
		if x == nil {
			return "bigfloat nil"
		}
		return "bigfloat " + x.Text('p', 0)
	}
	return fmt.Sprintf("%T %#v", e, e)
}

func TestVerifC06Integers(t *testing.T) {
	v := vfNew(t, "Set of integer destinations", "every width x texts around every power-of-two boundary in decimal, hex, octal, binary, with signs, underscores and junk: stored iff the big-number value fits, else unchanged")
	defer v.done()
	var texts []string
	for _, b := range []uint{0, 7, 8, 15, 16, 31, 32, 63, 64} {
		n := new(big.Int).Lsh(big.NewInt(1), b)
		for d := int64(-2); d <= 2; d++ {
			x := new(big.Int).Add(n, big.NewInt(d))
			for _, y := range []*big.Int{x, new(big.Int).Neg(x)} {
				texts = append(texts, y.String(), fmt.Sprintf("%#x", y), fmt.Sprintf("%#o", y), fmt.Sprintf("%#b", y), strings.Replace(fmt.Sprintf("%#o", y), "0", "0o", 1), "+"+y.String())
			}
		}
	}
	texts = append(texts, "", " ", "1 ", " 1", "1_000", "0x_ff", "_1", "1__0", "08", "0x", "0b2", "1e3", "1.0", "-", "+", "--1", "９", "٣", "0X1F", "0O17", "1\x00", "abc", "true", "1,2")
	one := func(k vvKind, s string) {
		v.run(k.name+" "+strconv.Quote(s), func() (string, string) {
			d := k.mk()
			err := cli.Set(d, s)
			n, ok := vvInt(s, k.uns)
			if ok {
				lo, hi := vvRange(k.bits, k.uns)
				ok = n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
			}
			w := "77"
			if ok {
				w = n.String()
			}
			return fmt.Sprintf("ok=%v %s", ok, w), fmt.Sprintf("ok=%v %v", err == nil, reflect.ValueOf(d).Elem().Interface())
		})
	}
	for _, k := range vvKinds {
		for _, s := range texts {
			one(k, s)
		}
	}
	for i := v.n(20000, 400000); i > 0 && !v.timeUp(); i-- {
		s := vfStr(v.r, []string{"0", "1", "2", "7", "9", "f", "0x", "-", "+", "_", " ", "e", ".", "255", "127", "128", "65535", "32768"}, 6)
		one(vfPick(v.r, vvKinds), s)
	}
}

func TestVerifC06Other(t *testing.T) {
	v := vfNew(t, "Set of other destinations", "bool, float, duration, URL, IP, regexp and big-number destinations x texts: stored exactly when the text denotes a value of the type, else unchanged")
	defer v.done()
	u0, _ := url.Parse("http://before")
	r0 := regexp.MustCompile("before")
	type kind struct {
		name string
		mk   func() any
		want func(s string) (any, bool)
	}
	kinds := []kind{
		{"bool", func() any { b := v.r.Intn(2) == 0; return &b }, func(s string) (any, bool) {
			switch {
			case s == "", s == "1", strings.EqualFold(s, "t"), strings.EqualFold(s, "true"), strings.EqualFold(s, "on"):
				return true, true
			case s == "0", strings.EqualFold(s, "f"), strings.EqualFold(s, "false"), strings.EqualFold(s, "off"):
				return false, true
			}
			return nil, false
		}},
		{"float64", vvP(float64(77.5)), func(s string) (any, bool) { f, err := strconv.ParseFloat(s, 64); return f, err == nil }},
		{"float32", vvP(float32(77.5)), func(s string) (any, bool) {
			f, err := strconv.ParseFloat(s, 32)
			return float32(f), err == nil
		}},
		{"duration", vvP(77 * time.Second), func(s string) (any, bool) { d, err := time.ParseDuration(s); return d, err == nil }},
		{"url", vvP(u0), func(s string) (any, bool) { u, err := url.Parse(s); return u, err == nil }},
		{"ip", vvP(net.ParseIP("9.9.9.9")), func(s string) (any, bool) { ip := net.ParseIP(s); return ip, ip != nil }},
		{"regexp", vvP(r0), func(s string) (any, bool) { re, err := regexp.Compile(s); return re, err == nil }},
		{"bigint", vvP(big.NewInt(77)), func(s string) (any, bool) { n, ok := new(big.Int).SetString(s, 10); return n, ok }},
		{"bigfloat", vvP(big.NewFloat(77.5)), func(s string) (any, bool) {
			f, _, err := big.ParseFloat(s, 10, 53, big.ToZero)
			return f, err == nil
		}},
	}
	pieces := []string{"1", "0", "true", "True", "FALSE", "on", "oFF", "t", "F", "yes", "", "1.5", "-1", "1e400", "1e39", "3.5e38", "1e-50", "nan", "Inf", "0x1p3", "5s", "1h2m", "-3ms", "1", "9223372036854775807ns", "http://x/y?z", "%zz", ":", "a b", "1.2.3.4", "::1", "256.1.1.1", "01.2.3.4", "(", "a+", "[", "\\", "12345678901234567890123", "0x10", "1_0", " 1", "1 ", "+5", "ſ", "ON", "oﬀ", "tRUE", "\x00", "{2}"}
	one := func(k kind, s string) {
		v.run(k.name+" "+strconv.Quote(s), func() (string, string) {
			d := k.mk()
			before := vvShow(d)
			err := cli.Set(d, s)
			w, ok := k.want(s)
			want := before
			if ok {
				q := reflect.New(reflect.TypeOf(d).Elem())
				q.Elem().Set(reflect.ValueOf(w))
				want = vvShow(q.Interface())
			}
			got := vvShow(d)
			if f, isf := w.(float64); isf && f != f && ok {
				want, got = "nan", strings.ToLower(strings.TrimPrefix(got, "float64 "))
			}
			return fmt.Sprintf("ok=%v %s", ok, want), fmt.Sprintf("ok=%v %s", err == nil, got)
		})
	}
	for _, k := range kinds {
		for _, s := range pieces {
			one(k, s)
		}
	}
	for i := v.n(15000, 300000); i > 0 && !v.timeUp(); i-- {
		k := vfPick(v.r, kinds)
		if k.name == "bool" {
			one(k, vfStr(v.r, []string{"t", "T", "r", "u", "E", "e", "o", "O", "n", "f", "F", "1", "0"}, 4))
			continue
		}
		one(k, vfPick(v.r, pieces)+vfStr(v.r, []string{"0", "1", ".", ":", "s", "e", "-", "(", ")", "/"}, 3))
	}
}

func TestVerifC06Direct(t *testing.T) {
	v := vfNew(t, "setting values directly, clearing copies, implied values", "every built-in type x values: Flag.Set/Arg.Set of a typed value stores exactly it; each-occurrence copies start from zero; an optional flag without a value gets its implied value; several texts set in sequence stop at the first error")
	defer v.done()
	u0, _ := url.Parse("http://v")
	vals := []any{true, false, "s", "", []string{"a"}, map[string]string{"k": "v"}, 5, int8(-128), int16(300), int32(-70000), int64(math.MinInt64), uint(9), uint8(255), uint16(65535), uint32(1 << 31), uint64(math.MaxUint64), float32(1.25), 2.5, time.Minute, u0, net.ParseIP("1.2.3.4"), regexp.MustCompile("x"), big.NewInt(3), big.NewFloat(1.5), []byte("b")}
	for _, x := range vals {
		for _, arg := range []bool{false, true} {
			v.run(fmt.Sprintf("%T %v arg=%v", x, x, arg), func() (string, string) {
				d := reflect.New(reflect.TypeOf(x)).Interface()
				var err error
				if _, isS := x.(string); isS {
					return "", ""
				}
				if arg {
					err = (&cli.Arg{Name: "a", Value: d}).Set(x)
				} else {
					err = (&cli.Flag{Name: "a", Value: d}).Set(x)
				}
				return fmt.Sprintf("<nil> %v", reflect.ValueOf(x)), fmt.Sprintf("%v %v", err, reflect.ValueOf(d).Elem())
			})
		}
	}
	run := func(f *cli.Flag, args ...string) error {
		app := &cli.App{Name: "app", Flags: []*cli.Flag{f}, Stdout: io.Discard, Stderr: io.Discard, Action: func() {}}
		return app.RunContext(context.Background(), append([]string{"app"}, args...))
	}
	implied := []struct {
		p    any
		want string
	}{{new(bool), "true"}, {new(int), "1"}, {new(int8), "1"}, {new(int16), "1"}, {new(int32), "1"}, {new(int64), "1"}, {new(uint), "1"}, {new(uint8), "1"}, {new(uint16), "1"}, {new(uint32), "1"}, {new(uint64), "1"}, {new(float32), "1"}, {new(float64), "1"}, {new(time.Duration), "1s"}, {new(net.IP), "127.0.0.1"}}
	for _, k := range implied {
		for _, form := range [][]string{{"--a"}, {"-a"}} {
			v.run(fmt.Sprintf("implied %T %v", k.p, form), func() (string, string) {
				reflect.ValueOf(k.p).Elem().SetZero()
				err := run(&cli.Flag{Name: "a", Value: k.p, Options: cli.Optional}, form...)
				return "<nil> " + k.want, fmt.Sprintf("%v %v", err, reflect.ValueOf(k.p).Elem())
			})
		}
	}
	type occ struct {
		p     any
		texts []string
	}
	occs := []occ{{new(int), []string{"5", "6"}}, {new(int8), []string{"5", "6"}}, {new(int16), []string{"5"}}, {new(int32), []string{"5", "7"}}, {new(int64), []string{"5"}}, {new(uint), []string{"5", "9"}}, {new(uint8), []string{"5"}}, {new(uint16), []string{"5"}}, {new(uint32), []string{"5"}}, {new(uint64), []string{"5"}}, {new(float32), []string{"1.5"}}, {new(float64), []string{"1.5", "2"}}, {new(time.Duration), []string{"1s", "2m"}}, {new([]string), []string{"a", "b", "c"}}, {new(string), []string{"x", "y"}}, {new(map[string]string), []string{"a=1", "b=2"}}, {new(bool), []string{"true", "false"}}}
	for _, o := range occs {
		v.run(fmt.Sprintf("each occurrence %T %q", o.p, o.texts), func() (string, string) {
			var got, want []string
			var args []string
			for _, s := range o.texts {
				args = append(args, "--a="+s)
				q := reflect.New(reflect.TypeOf(o.p).Elem()).Interface()
				_ = cli.Set(q, s)
				want = append(want, fmt.Sprint(reflect.ValueOf(q).Elem()))
			}
			reflect.ValueOf(o.p).Elem().SetZero()
			err := run(&cli.Flag{Name: "a", Value: o.p, Options: cli.EachOccurrence, Action: func(c *cli.Context) {
				got = append(got, fmt.Sprint(c.Value("")))
			}}, args...)
			return fmt.Sprintf("<nil> %q", want), fmt.Sprintf("%v %q", err, got)
		})
	}
	for i := v.n(500, 5000); i > 0 && !v.timeUp(); i-- {
		n := v.r.Intn(4)
		var ss []string
		for j := 0; j < n; j++ {
			ss = append(ss, vfPick(v.r, []string{"1", "2", "x", "300", "-1", ""}))
		}
		v.run(fmt.Sprintf("sequence %q", ss), func() (string, string) {
			d := uint8(9)
			err := cli.Set(&d, ss...)
			w, ok := 9, true
			for _, s := range ss {
				n, err := strconv.Atoi(s)
				if err != nil || n < 0 || n > 255 {
					ok = false
					break
				}
				w = n
			}
			return fmt.Sprint(ok, w), fmt.Sprint(err == nil, d)
		})
	}
	// name-value lists and bytes: all or nothing
	for _, s := range []string{"a=b", "a", "a=b,c", "c,a=b", "", "a=b,c=d"} {
		v.run("name-values "+strconv.Quote(s), func() (string, string) {
			p := &[]*cli.NameValue{{Name: "old", Value: "1"}}
			f := &cli.Flag{Name: "a", Value: p, Options: cli.Merge}
			err := f.Set(s)
			if err != nil && len(*p) != 1 {
				return "unchanged on error", fmt.Sprint(len(*p))
			}
			return "", ""
		})
	}
	for _, s := range []string{"00ff", "zz", "0", "", "AB"} {
		v.run("bytes "+strconv.Quote(s), func() (string, string) {
			p := []byte{7}
			err := cli.Set(&p, s)
			if err != nil {
				return "[7]", fmt.Sprint(p)
			}
			var w bytes.Buffer
			w.WriteByte(7)
			for i := 0; i+1 < len(s); i += 2 {
				n, _ := strconv.ParseUint(s[i:i+2], 16, 8)
				w.WriteByte(byte(n))
			}
			return fmt.Sprint(w.Bytes()), fmt.Sprint(p)
		})
	}
}
