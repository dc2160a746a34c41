package value_test

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli/value"
)

var vfUnits = map[string]int{"k": 1, "K": 1, "M": 2, "G": 3, "T": 4, "P": 5, "E": 6, "Z": 7, "Y": 8, "R": 9, "Q": 10}

// vfSize is the documented meaning of a byte length: ok=false for an error, skip for one beyond the integers.
func vfSize(s string) (n int, ok, skip bool) {
	s = strings.TrimSpace(s)
	if !strings.HasSuffix(s, "B") {
		n, err := strconv.Atoi(s)
		return n, err == nil, false
	}
	m := regexp.MustCompile(`^([0-9.]+)\s*(?:([kKMGTPEZYRQ])(i?))?B$`).FindStringSubmatch(s)
	if m == nil {
		return 0, false, false
	}
	if m[2] == "" {
		n, err := strconv.Atoi(m[1])
		return n, err == nil, false
	}
	f, err := strconv.ParseFloat(m[1], 64)
	if err != nil {
		return 0, false, false
	}
	b := 1000.0
	if m[3] == "i" {
		b = 1024
	}
	r := f * math.Pow(b, float64(vfUnits[m[2]]))
	if r >= math.MaxInt64 {
		return 0, true, true
	}
	// exactly representable sizes must come out exactly
	if x, k := new(big.Rat).SetString(m[1]); k {
		p := new(big.Int).Exp(big.NewInt(int64(b)), big.NewInt(int64(vfUnits[m[2]])), nil)
		x.Mul(x, new(big.Rat).SetInt(p))
		if x.IsInt() && x.Num().IsInt64() && x.Num().Int64() < 1<<53 && !strings.Contains(m[1], ".") {
			return int(x.Num().Int64()), true, false
		}
	}
	return int(r), true, false
}

func TestVerifC25ByteLength(t *testing.T) {
	v := vfNew(t, "bytelength", "a byte length is its number times the power of its unit, anything else is an error and leaves the value unchanged")
	defer v.done()
	run := func(s string) {
		v.run(fmt.Sprintf("%q", s), func() (string, string) {
			n, ok, skip := vfSize(s)
			if skip {
				return "", ""
			}
			b := value.ByteLength(7919)
			err := b.UnmarshalText([]byte(s))
			m, err2 := value.ParseByteLength(s)
			if (err == nil) != (err2 == nil) {
				return "the same outcome", fmt.Sprintf("UnmarshalText: %v, ParseByteLength: %v", err, err2)
			}
			if !ok {
				if err == nil {
					return "an error", fmt.Sprintf("%d", m)
				}
				if b != 7919 {
					return "the value unchanged", fmt.Sprintf("%d", int(b))
				}
				return "", ""
			}
			if err != nil {
				return fmt.Sprintf("%d", n), "error " + err.Error()
			}
			if int(b) != n || m != n {
				return fmt.Sprintf("%d", n), fmt.Sprintf("UnmarshalText %d, ParseByteLength %d", int(b), m)
			}
			return "", ""
		})
	}
	nums := []string{"", "0", "1", "7", "12", "127", "999", "1024", "1.5", "0.5", ".5", "2.", "1.2.3", ".", "-1", "+1", "1e3", "0x10", "x", "1 0", "99999999999999999999", "3.999", "0.001"}
	units := []string{"", "B", "kB", "KB", "MB", "GB", "TB", "PB", "EB", "ZB", "YB", "RB", "QB", "KiB", "kiB", "MiB", "GiB", "TiB", "PiB", "EiB", "ZiB", "YiB", "RiB", "QiB", "iB", "b", "kb", "mB", "XB", "BB", "kBB", "kkB", "Ki", "k", "M", "BkB", "B1", "kB "}
	for _, n := range nums {
		for _, u := range units {
			for _, sp := range []string{"", " ", "  ", "\t"} {
				for _, pre := range []string{"", " ", "a", "-"} {
					run(pre + n + sp + u)
					if v.timeUp() {
						return
					}
				}
			}
		}
	}
	for i, n := 0, v.n(2000, 40000); i < n && !v.timeUp(); i++ {
		s := vfStr(v.r, strings.Split("0123456789.. kKMGTPiB-+xe\t", ""), 8)
		if v.r.Intn(2) == 0 {
			s = strconv.Itoa(v.r.Intn(2000)) + vfPick(v.r, []string{"", " ", "."}) + vfPick(v.r, units)
		}
		run(s)
	}
}

func TestVerifC25Radix(t *testing.T) {
	v := vfNew(t, "radix", "an octal or hexadecimal value prints text that reads back as the same value; other text is an error that leaves the value unchanged")
	defer v.done()
	read := func(s string) {
		v.run(fmt.Sprintf("%q", s), func() (string, string) {
			for _, r := range []struct {
				p    string
				base int
				set  func(string) (int, error)
			}{
				{"0o", 8, func(s string) (int, error) {
					h := value.Octal(7919)
					err := h.UnmarshalText([]byte(s))
					return int(h), err
				}},
				{"0x", 16, func(s string) (int, error) {
					h := value.Hex(7919)
					err := h.UnmarshalText([]byte(s))
					return int(h), err
				}},
			} {
				n, err := strconv.ParseInt(strings.TrimPrefix(s, r.p), r.base, 64)
				got, gerr := r.set(s)
				if (err == nil) != (gerr == nil) {
					return fmt.Sprintf("base %d: %d %v", r.base, n, err), fmt.Sprintf("%d %v", got, gerr)
				}
				want := 7919
				if err == nil {
					want = int(n)
				} else if gerr.Error() == "" {
					return "a message", "none"
				}
				if got != want {
					return fmt.Sprintf("base %d: value %d (error %v)", r.base, want, gerr), fmt.Sprintf("%d", got)
				}
			}
			return "", ""
		})
	}
	back := func(n int) {
		v.run(fmt.Sprintf("%d", n), func() (string, string) {
			o, h := value.Octal(n), value.Hex(n)
			for _, pfx := range []string{o.String(), fmt.Sprint(o)} {
				o2 := value.Octal(n + 1)
				if err := o2.UnmarshalText([]byte(pfx)); err != nil || o2 != o {
					return fmt.Sprintf("octal %q reads back as %d", pfx, n), fmt.Sprintf("%d %v", int(o2), err)
				}
			}
			for _, pfx := range []string{h.String(), fmt.Sprint(h)} {
				h2 := value.Hex(n + 1)
				if err := h2.UnmarshalText([]byte(pfx)); err != nil || h2 != h {
					return fmt.Sprintf("hex %q reads back as %d", pfx, n), fmt.Sprintf("%d %v", int(h2), err)
				}
			}
			return "", ""
		})
	}
	for _, s := range []string{"", "0", "7", "8", "9", "f", "F", "g", "17", "-7", "+7", "0o17", "0x17", "0O17", "0X17", "0o", "0x", "0o0o1", "0x0x1", "0o-7", "0x-A", "-0o7", "-0x7", " 7", "7 ", "1_0", "0x1_0", "777777777777777777777", "1777777777777777777777", "7fffffffffffffff", "8000000000000000", "-8000000000000000", "-8000000000000001", "ffffffffffffffff", "00", "0xdeadBEEF", "1.5", "0b1", "xff", "oxf"} {
		read(s)
	}
	for _, n := range []int{0, 1, 7, 8, 9, 15, 16, 255, 256, 4095, -1, -8, -10, -255, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32} {
		back(n)
	}
	for i, n := 0, v.n(2000, 40000); i < n && !v.timeUp(); i++ {
		read(vfPick(v.r, []string{"", "0o", "0x", "-"}) + vfStr(v.r, strings.Split("01234567789abcfFxo-+_ ", ""), 6))
		back(int(v.r.Uint64() >> uint(v.r.Intn(64))))
		back(-int(v.r.Uint64() >> uint(1+v.r.Intn(63))))
	}
}
