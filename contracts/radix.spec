// ---- C25: byte sizes and radix values -------------------------------------------------------------

pkg math
smtfun powOf(float64, float64) float64
assume Pow(x, y) (r)
  why documented behaviour of the standard library
  ensures r == powOf(x, y)

pkg regexp
// the parts of a text that is a size with a unit: its number and its magnitude
smtfun sizeMatches(string) bool
smtfun sizeNumber(string) string
smtfun sizeMagnitude(string) string
assume (re *Regexp).FindSubmatch(b) (r)
  why the documented meaning of FindSubmatch for an expression with two groups
  requires re != nil
  ensures len(r) == 0 <==> !sizeMatches(string(b))
  ensures len(r) != 0 ==> len(r) == 3 && string(r[1]) == sizeNumber(string(b)) && string(r[2]) == sizeMagnitude(string(b))
  ensures len(r) != 0 ==> forall i int :: 0 <= i && i < len(r[2]) ==> r[2][i] == tocode(at(string(r[2]), i)) && r[2][i] < 128

pkg strconv
assume Atoi(s) (r, err)
  why documented behaviour of the standard library (base 10)
  ensures err == nil <==> intOK(s, 10) && fitsInt(intText(s, 10), 64)
  ensures err == nil ==> r == intText(s, 10)
  ensures typeis(err, *NumError) ==> unbox(err, *NumError) != nil

pkg github.com/Carbonfrost/joe-cli/value

define baseOf(m string) float64 = if suffixof("i", m) :: 1024.0 else 1000.0
define sizeUnit(s string) bool = suffixof("B", s)
define sizeOK(s string) bool = if !sizeUnit(s) :: intOK(s, 10) && fitsInt(intText(s, 10), 64) else \
  (sizeMatches(s) && (if sizeMagnitude(s) == "" :: intOK(sizeNumber(s), 10) && fitsInt(intText(sizeNumber(s), 10), 64) else floatOK(sizeNumber(s), 64)))

func ParseByteLength(s) (r, err)
  props C25
  nopanic
  ensures [accepted] err == nil <==> sizeOK(trim(s))
  ensures [plain] err == nil && !sizeUnit(trim(s)) ==> r == intText(trim(s), 10)
  ensures [bytes] err == nil && sizeUnit(trim(s)) && sizeMagnitude(trim(s)) == "" ==> r == intText(sizeNumber(trim(s)), 10)
  ensures [unit] err == nil && sizeUnit(trim(s)) && sizeMagnitude(trim(s)) != "" ==> \
    r == truncated(floatText(sizeNumber(trim(s)), 64) * powOf(baseOf(sizeMagnitude(trim(s))), tofloat(magnitude[at(sizeMagnitude(trim(s)), 0)])))

func (b *ByteLength) UnmarshalText(data) (err)
  props C25
  requires b != nil
  modifies *b
  nopanic
  ensures [accepted] err == nil <==> sizeOK(trim(string(data)))
  ensures [kept] err != nil ==> *b == old(*b)
  ensures [plain] err == nil && !sizeUnit(trim(string(data))) ==> *b == intText(trim(string(data)), 10)

func formatStrconvError(err, value) (r)
  props C25
  requires typeis(err, *strconv.NumError) ==> unbox(err, *strconv.NumError) != nil
  nopanic
  ensures (r == nil) <==> (err == nil)

define without(s string, p string) string = if prefixof(p, s) :: substr(s, len(p), len(s) - len(p)) else s

func (h *Octal) UnmarshalText(d) (err)
  props C25
  requires h != nil
  modifies *h
  nopanic
  ensures [accepted] err == nil <==> intOK(without(string(d), "0o"), 8) && fitsInt(intText(without(string(d), "0o"), 8), 64)
  ensures [read] err == nil ==> *h == intText(without(string(d), "0o"), 8)
  ensures [kept] err != nil ==> *h == old(*h)

func (h *Hex) UnmarshalText(d) (err)
  props C25
  requires h != nil
  modifies *h
  nopanic
  ensures [accepted] err == nil <==> intOK(without(string(d), "0x"), 16) && fitsInt(intText(without(string(d), "0x"), 16), 64)
  ensures [read] err == nil ==> *h == intText(without(string(d), "0x"), 16)
  ensures [kept] err != nil ==> *h == old(*h)
