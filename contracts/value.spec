pkg strconv

// What the standard library's conversions mean. intOK/intText, uintOK/uintText and floatOK/floatText
// are the documented syntax and meaning of the text; a width only narrows the range.
smtfun intOK(string, int) bool
smtfun intText(string, int) int
smtfun uintOK(string, int) bool
smtfun uintText(string, int) int
smtfun floatOK(string, int) bool
smtfun floatText(string, int) float64

define fitsInt(n int, bits int) bool = \
   (bits == 8 && -128 <= n && n <= 127) || (bits == 16 && -32768 <= n && n <= 32767) \
   || (bits == 32 && -2147483648 <= n && n <= 2147483647) || (bits == 64 && -9223372036854775808 <= n && n <= 9223372036854775807)
define fitsUint(n int, bits int) bool = 0 <= n && ((bits == 8 && n <= 255) || (bits == 16 && n <= 65535) \
   || (bits == 32 && n <= 4294967295) || (bits == 64 && n <= 18446744073709551615))

assume ParseInt(s, base, bitSize) (r, err)
  why documented behaviour of the standard library
  ensures err == nil <==> intOK(s, base) && fitsInt(intText(s, base), bitSize)
  ensures err == nil ==> r == intText(s, base)
  ensures typeis(err, *NumError) ==> unbox(err, *NumError) != nil

assume ParseUint(s, base, bitSize) (r, err)
  why documented behaviour of the standard library
  ensures err == nil <==> uintOK(s, base) && fitsUint(uintText(s, base), bitSize)
  ensures err == nil ==> r == uintText(s, base)
  ensures typeis(err, *NumError) ==> unbox(err, *NumError) != nil

assume ParseFloat(s, bitSize) (r, err)
  why documented behaviour of the standard library
  ensures err == nil <==> floatOK(s, bitSize)
  ensures err == nil ==> r == floatText(s, bitSize)
  ensures typeis(err, *NumError) ==> unbox(err, *NumError) != nil

pkg strings

smtfun lower(string) string
assume ToLower(s) (r)
  why documented behaviour of the standard library
  pure
  ensures r == lower(s)

pkg time
smtfun durationOK(string) bool
smtfun durationText(string) int
assume ParseDuration(s) (d, err)
  why documented behaviour of the standard library
  ensures err == nil <==> durationOK(s)
  ensures err == nil ==> d == durationText(s)

pkg net/url
smtfun urlOK(string) bool
assume Parse(s) (u, err)
  why documented behaviour of the standard library
  ensures err == nil <==> urlOK(s)
  ensures err == nil ==> fresh(u)

pkg net
smtfun ipOK(string) bool
smtfun ipText(string) gmap[int]byte
assume ParseIP(s) (ip)
  why documented behaviour of the standard library
  ensures ip != nil <==> ipOK(s)
  ensures ip != nil ==> fresh(ip)

pkg regexp
smtfun regexpOK(string) bool
assume Compile(s) (re, err)
  why documented behaviour of the standard library
  ensures err == nil <==> regexpOK(s)
  ensures err == nil ==> fresh(re)

pkg math/big
smtfun bigIntOK(string, int) bool
smtfun bigFloatOK(string, int) bool
assume (z *Int).SetString(s, base) (r, ok)
  why documented behaviour of the standard library
  requires z != nil
  modifies z.*
  ensures ok <==> bigIntOK(s, base)
assume ParseFloat(s, base, prec, mode) (f, b, err)
  why documented behaviour of the standard library
  ensures err == nil <==> bigFloatOK(s, base)
  ensures typeis(err, *strconv.NumError) ==> unbox(err, *strconv.NumError) != nil
  ensures err == nil ==> fresh(f)

pkg encoding/hex
smtfun hexOK(string) bool
smtfun hexText(string) gmap[int]byte
assume DecodeString(s) (b, err)
  why documented behaviour of the standard library
  ensures err == nil <==> hexOK(s)
  ensures err == nil ==> fresh(b)

pkg .

// ---- C06: a value is set exactly or not at all -------------------------------------------------

define boolTrue(s string) bool = s == "" || s == "1" || s == "true" || s == "on" || s == "t"
define boolFalse(s string) bool = s == "0" || s == "false" || s == "off" || s == "f"

func formatStrconvError(err, value) (r)
  props C06
  requires typeis(err, *strconv.NumError) ==> unbox(err, *strconv.NumError) != nil
  nopanic
  ensures (r == nil) <==> (err == nil)

func parseBool(value) (r, err)
  props C06
  nopanic
  ensures err == nil <==> boolTrue(lower(value)) || boolFalse(lower(value))
  ensures err == nil ==> (r <==> boolTrue(lower(value)))

func setCore(dest, disableSplitting, value) (err)
  props C06 C07 C08
  requires !implements(dest, Value)
  opt use list
  opt depth 2
  requires (typeis(dest, *int) && unbox(dest, *int) != nil) \
     || (typeis(dest, *int8) && unbox(dest, *int8) != nil) \
     || (typeis(dest, *int16) && unbox(dest, *int16) != nil) \
     || (typeis(dest, *int32) && unbox(dest, *int32) != nil) \
     || (typeis(dest, *int64) && unbox(dest, *int64) != nil) \
     || (typeis(dest, *uint) && unbox(dest, *uint) != nil) \
     || (typeis(dest, *uint8) && unbox(dest, *uint8) != nil) \
     || (typeis(dest, *uint16) && unbox(dest, *uint16) != nil) \
     || (typeis(dest, *uint32) && unbox(dest, *uint32) != nil) \
     || (typeis(dest, *uint64) && unbox(dest, *uint64) != nil) \
     || (typeis(dest, *float32) && unbox(dest, *float32) != nil) \
     || (typeis(dest, *float64) && unbox(dest, *float64) != nil) \
     || (typeis(dest, *bool) && unbox(dest, *bool) != nil) \
     || (typeis(dest, *time.Duration) && unbox(dest, *time.Duration) != nil) \
     || (typeis(dest, **url.URL) && unbox(dest, **url.URL) != nil) \
     || (typeis(dest, *net.IP) && unbox(dest, *net.IP) != nil) \
     || (typeis(dest, **regexp.Regexp) && unbox(dest, **regexp.Regexp) != nil) \
     || (typeis(dest, **big.Int) && unbox(dest, **big.Int) != nil) \
     || (typeis(dest, **big.Float) && unbox(dest, **big.Float) != nil) \
     || (typeis(dest, *string) && unbox(dest, *string) != nil) \
     || (typeis(dest, *[]string) && unbox(dest, *[]string) != nil) \
     || (typeis(dest, *[]byte) && unbox(dest, *[]byte) != nil) \
     || (typeis(dest, *map[string]string) && unbox(dest, *map[string]string) != nil) \
     || (typeis(dest, *[]*NameValue) && unbox(dest, *[]*NameValue) != nil)
  modifies all
  ensures [C07] [string] typeis(dest, *string) ==> err == nil && *unbox(dest, *string) == (if len(old(*unbox(dest, *string))) == 0 :: value else concat(old(*unbox(dest, *string)), " ", value))
  ensures [C07] [list-added] typeis(dest, *[]string) ==> err == nil && len(*unbox(dest, *[]string)) >= len(old(*unbox(dest, *[]string))) && forall i int :: 0 <= i && i < len(old(*unbox(dest, *[]string))) ==> (*unbox(dest, *[]string))[i] == old((*unbox(dest, *[]string))[i])
  ensures [C07] [C08] [list-one] typeis(dest, *[]string) && disableSplitting ==> len(*unbox(dest, *[]string)) == len(old(*unbox(dest, *[]string))) + 1 && (*unbox(dest, *[]string))[len(old(*unbox(dest, *[]string)))] == value
  ensures [C07] [C08] [list-count] typeis(dest, *[]string) && !disableSplitting ==> splitN(value, ",", len(*unbox(dest, *[]string)) - len(old(*unbox(dest, *[]string))))
  ensures [C07] [C08] [list-items] typeis(dest, *[]string) && !disableSplitting ==> forall i int :: len(old(*unbox(dest, *[]string))) <= i && i < len(*unbox(dest, *[]string)) ==> (*unbox(dest, *[]string))[i] == splitItem(value, ",", i - len(old(*unbox(dest, *[]string))))
  ensures [C07] [map-kept] typeis(dest, *map[string]string) ==> err == nil && *unbox(dest, *map[string]string) != nil && (old(*unbox(dest, *map[string]string)) != nil ==> *unbox(dest, *map[string]string) == old(*unbox(dest, *map[string]string)))
  ensures [C07] [map-merged] typeis(dest, *map[string]string) ==> forall n string :: old(has(*unbox(dest, *map[string]string), n)) ==> has(*unbox(dest, *map[string]string), n)
  ensures [C07] [bytes] typeis(dest, *[]byte) ==> (err == nil <==> hexOK(value))
  ensures [C07] [bytes-kept] typeis(dest, *[]byte) && err != nil ==> *unbox(dest, *[]byte) == old(*unbox(dest, *[]byte))
  ensures [C07] [bytes-added] typeis(dest, *[]byte) && err == nil ==> len(*unbox(dest, *[]byte)) >= len(old(*unbox(dest, *[]byte))) && forall i int :: 0 <= i && i < len(old(*unbox(dest, *[]byte))) ==> (*unbox(dest, *[]byte))[i] == old((*unbox(dest, *[]byte))[i])
  ensures [C07] [pairs-kept] typeis(dest, *[]*NameValue) && err != nil ==> *unbox(dest, *[]*NameValue) == old(*unbox(dest, *[]*NameValue))
  ensures [C07] [C08] [pairs-added] typeis(dest, *[]*NameValue) && err == nil ==> len(*unbox(dest, *[]*NameValue)) >= len(old(*unbox(dest, *[]*NameValue))) && forall i int :: 0 <= i && i < len(old(*unbox(dest, *[]*NameValue))) ==> (*unbox(dest, *[]*NameValue))[i] == old((*unbox(dest, *[]*NameValue))[i])
  ensures [C07] [C08] [pairs-count] typeis(dest, *[]*NameValue) && err == nil ==> (if disableSplitting :: len(*unbox(dest, *[]*NameValue)) == len(old(*unbox(dest, *[]*NameValue))) + 1 else splitN(value, ",", len(*unbox(dest, *[]*NameValue)) - len(old(*unbox(dest, *[]*NameValue)))))
  inv [res []*NameValue, iter int ::] len(res) == len(old(*unbox(dest, *[]*NameValue))) + iter + 1
  inv [res []*NameValue, iter int ::] forall i int :: 0 <= i && i < len(old(*unbox(dest, *[]*NameValue))) ==> res[i] == old((*unbox(dest, *[]*NameValue))[i])
  ensures [C06] [int] typeis(dest, *int) ==> (err == nil <==> intOK(value, 0) && fitsInt(intText(value, 0), 64))
  ensures [C06] [int-value] typeis(dest, *int) && err == nil ==> *unbox(dest, *int) == intText(value, 0)
  ensures [C06] [int-kept] typeis(dest, *int) && err != nil ==> *unbox(dest, *int) == old(*unbox(dest, *int))
  ensures [C06] [int8] typeis(dest, *int8) ==> (err == nil <==> intOK(value, 0) && fitsInt(intText(value, 0), 8))
  ensures [C06] [int8-value] typeis(dest, *int8) && err == nil ==> *unbox(dest, *int8) == intText(value, 0)
  ensures [C06] [int8-kept] typeis(dest, *int8) && err != nil ==> *unbox(dest, *int8) == old(*unbox(dest, *int8))
  ensures [C06] [int16] typeis(dest, *int16) ==> (err == nil <==> intOK(value, 0) && fitsInt(intText(value, 0), 16))
  ensures [C06] [int16-value] typeis(dest, *int16) && err == nil ==> *unbox(dest, *int16) == intText(value, 0)
  ensures [C06] [int16-kept] typeis(dest, *int16) && err != nil ==> *unbox(dest, *int16) == old(*unbox(dest, *int16))
  ensures [C06] [int32] typeis(dest, *int32) ==> (err == nil <==> intOK(value, 0) && fitsInt(intText(value, 0), 32))
  ensures [C06] [int32-value] typeis(dest, *int32) && err == nil ==> *unbox(dest, *int32) == intText(value, 0)
  ensures [C06] [int32-kept] typeis(dest, *int32) && err != nil ==> *unbox(dest, *int32) == old(*unbox(dest, *int32))
  ensures [C06] [int64] typeis(dest, *int64) ==> (err == nil <==> intOK(value, 0) && fitsInt(intText(value, 0), 64))
  ensures [C06] [int64-value] typeis(dest, *int64) && err == nil ==> *unbox(dest, *int64) == intText(value, 0)
  ensures [C06] [int64-kept] typeis(dest, *int64) && err != nil ==> *unbox(dest, *int64) == old(*unbox(dest, *int64))
  ensures [C06] [uint] typeis(dest, *uint) ==> (err == nil <==> uintOK(value, 0) && fitsUint(uintText(value, 0), 64))
  ensures [C06] [uint-value] typeis(dest, *uint) && err == nil ==> *unbox(dest, *uint) == uintText(value, 0)
  ensures [C06] [uint-kept] typeis(dest, *uint) && err != nil ==> *unbox(dest, *uint) == old(*unbox(dest, *uint))
  ensures [C06] [uint8] typeis(dest, *uint8) ==> (err == nil <==> uintOK(value, 0) && fitsUint(uintText(value, 0), 8))
  ensures [C06] [uint8-value] typeis(dest, *uint8) && err == nil ==> *unbox(dest, *uint8) == uintText(value, 0)
  ensures [C06] [uint8-kept] typeis(dest, *uint8) && err != nil ==> *unbox(dest, *uint8) == old(*unbox(dest, *uint8))
  ensures [C06] [uint16] typeis(dest, *uint16) ==> (err == nil <==> uintOK(value, 0) && fitsUint(uintText(value, 0), 16))
  ensures [C06] [uint16-value] typeis(dest, *uint16) && err == nil ==> *unbox(dest, *uint16) == uintText(value, 0)
  ensures [C06] [uint16-kept] typeis(dest, *uint16) && err != nil ==> *unbox(dest, *uint16) == old(*unbox(dest, *uint16))
  ensures [C06] [uint32] typeis(dest, *uint32) ==> (err == nil <==> uintOK(value, 0) && fitsUint(uintText(value, 0), 32))
  ensures [C06] [uint32-value] typeis(dest, *uint32) && err == nil ==> *unbox(dest, *uint32) == uintText(value, 0)
  ensures [C06] [uint32-kept] typeis(dest, *uint32) && err != nil ==> *unbox(dest, *uint32) == old(*unbox(dest, *uint32))
  ensures [C06] [uint64] typeis(dest, *uint64) ==> (err == nil <==> uintOK(value, 0) && fitsUint(uintText(value, 0), 64))
  ensures [C06] [uint64-value] typeis(dest, *uint64) && err == nil ==> *unbox(dest, *uint64) == uintText(value, 0)
  ensures [C06] [uint64-kept] typeis(dest, *uint64) && err != nil ==> *unbox(dest, *uint64) == old(*unbox(dest, *uint64))
  ensures [C06] [float32] typeis(dest, *float32) ==> (err == nil <==> floatOK(value, 32))
  ensures [C06] [float32-value] typeis(dest, *float32) && err == nil ==> *unbox(dest, *float32) == float32(floatText(value, 32))
  ensures [C06] [float32-kept] typeis(dest, *float32) && err != nil ==> *unbox(dest, *float32) == old(*unbox(dest, *float32))
  ensures [C06] [float64] typeis(dest, *float64) ==> (err == nil <==> floatOK(value, 64))
  ensures [C06] [float64-value] typeis(dest, *float64) && err == nil ==> *unbox(dest, *float64) == floatText(value, 64)
  ensures [C06] [float64-kept] typeis(dest, *float64) && err != nil ==> *unbox(dest, *float64) == old(*unbox(dest, *float64))
  ensures [C06] [bool] typeis(dest, *bool) ==> (err == nil <==> boolTrue(lower(value)) || boolFalse(lower(value)))
  ensures [C06] [bool-value] typeis(dest, *bool) && err == nil ==> (*unbox(dest, *bool) <==> boolTrue(lower(value)))
  ensures [C06] [bool-kept] typeis(dest, *bool) && err != nil ==> (*unbox(dest, *bool) <==> old(*unbox(dest, *bool)))
  ensures [C06] [time-Duration] typeis(dest, *time.Duration) ==> (err == nil <==> durationOK(value))
  ensures [C06] [time-Duration-value] typeis(dest, *time.Duration) && err == nil ==> *unbox(dest, *time.Duration) == durationText(value)
  ensures [C06] [time-Duration-kept] typeis(dest, *time.Duration) && err != nil ==> *unbox(dest, *time.Duration) == old(*unbox(dest, *time.Duration))
  ensures [C06] [url-URL] typeis(dest, **url.URL) ==> (err == nil <==> urlOK(value))
  ensures [C06] [url-URL-kept] typeis(dest, **url.URL) && err != nil ==> *unbox(dest, **url.URL) == old(*unbox(dest, **url.URL))
  ensures [C06] [url-URL-set] typeis(dest, **url.URL) && err == nil ==> fresh(*unbox(dest, **url.URL))
  ensures [C06] [net-IP] typeis(dest, *net.IP) ==> (err == nil <==> ipOK(value))
  ensures [C06] [net-IP-kept] typeis(dest, *net.IP) && err != nil ==> *unbox(dest, *net.IP) == old(*unbox(dest, *net.IP))
  ensures [C06] [net-IP-set] typeis(dest, *net.IP) && err == nil ==> fresh(*unbox(dest, *net.IP))
  ensures [C06] [regexp-Regexp] typeis(dest, **regexp.Regexp) ==> (err == nil <==> regexpOK(value))
  ensures [C06] [regexp-Regexp-kept] typeis(dest, **regexp.Regexp) && err != nil ==> *unbox(dest, **regexp.Regexp) == old(*unbox(dest, **regexp.Regexp))
  ensures [C06] [regexp-Regexp-set] typeis(dest, **regexp.Regexp) && err == nil ==> fresh(*unbox(dest, **regexp.Regexp))
  ensures [C06] [big-Int] typeis(dest, **big.Int) ==> (err == nil <==> bigIntOK(value, 10))
  ensures [C06] [big-Int-kept] typeis(dest, **big.Int) && err != nil ==> *unbox(dest, **big.Int) == old(*unbox(dest, **big.Int))
  ensures [C06] [big-Int-set] typeis(dest, **big.Int) && err == nil ==> fresh(*unbox(dest, **big.Int))
  ensures [C06] [big-Float] typeis(dest, **big.Float) ==> (err == nil <==> bigFloatOK(value, 10))
  ensures [C06] [big-Float-kept] typeis(dest, **big.Float) && err != nil ==> *unbox(dest, **big.Float) == old(*unbox(dest, **big.Float))
  ensures [C06] [big-Float-set] typeis(dest, **big.Float) && err == nil ==> fresh(*unbox(dest, **big.Float))

func setDirect(dest, v) (err)
  props C06
  modifies all
  nopanic
  requires (typeis(dest, *bool) && unbox(dest, *bool) != nil && typeis(v, bool)) \
     || (typeis(dest, *string) && unbox(dest, *string) != nil && typeis(v, string)) \
     || (typeis(dest, *int) && unbox(dest, *int) != nil && typeis(v, int)) \
     || (typeis(dest, *int8) && unbox(dest, *int8) != nil && typeis(v, int8)) \
     || (typeis(dest, *int16) && unbox(dest, *int16) != nil && typeis(v, int16)) \
     || (typeis(dest, *int32) && unbox(dest, *int32) != nil && typeis(v, int32)) \
     || (typeis(dest, *int64) && unbox(dest, *int64) != nil && typeis(v, int64)) \
     || (typeis(dest, *uint) && unbox(dest, *uint) != nil && typeis(v, uint)) \
     || (typeis(dest, *uint8) && unbox(dest, *uint8) != nil && typeis(v, uint8)) \
     || (typeis(dest, *uint16) && unbox(dest, *uint16) != nil && typeis(v, uint16)) \
     || (typeis(dest, *uint32) && unbox(dest, *uint32) != nil && typeis(v, uint32)) \
     || (typeis(dest, *uint64) && unbox(dest, *uint64) != nil && typeis(v, uint64)) \
     || (typeis(dest, *float32) && unbox(dest, *float32) != nil && typeis(v, float32)) \
     || (typeis(dest, *float64) && unbox(dest, *float64) != nil && typeis(v, float64)) \
     || (typeis(dest, *time.Duration) && unbox(dest, *time.Duration) != nil && typeis(v, time.Duration)) \
     || (typeis(dest, **url.URL) && unbox(dest, **url.URL) != nil && typeis(v, *url.URL)) \
     || (typeis(dest, *net.IP) && unbox(dest, *net.IP) != nil && typeis(v, net.IP)) \
     || (typeis(dest, **regexp.Regexp) && unbox(dest, **regexp.Regexp) != nil && typeis(v, *regexp.Regexp)) \
     || (typeis(dest, **big.Int) && unbox(dest, **big.Int) != nil && typeis(v, *big.Int)) \
     || (typeis(dest, **big.Float) && unbox(dest, **big.Float) != nil && typeis(v, *big.Float)) \
     || (typeis(dest, *[]string) && unbox(dest, *[]string) != nil && typeis(v, []string)) \
     || (typeis(dest, *map[string]string) && unbox(dest, *map[string]string) != nil && typeis(v, map[string]string)) \
     || (typeis(dest, *[]byte) && unbox(dest, *[]byte) != nil && typeis(v, []byte))
  ensures err == nil
  ensures [bool] typeis(dest, *bool) ==> *unbox(dest, *bool) == unbox(v, bool)
  ensures [string] typeis(dest, *string) ==> *unbox(dest, *string) == unbox(v, string)
  ensures [int] typeis(dest, *int) ==> *unbox(dest, *int) == unbox(v, int)
  ensures [int8] typeis(dest, *int8) ==> *unbox(dest, *int8) == unbox(v, int8)
  ensures [int16] typeis(dest, *int16) ==> *unbox(dest, *int16) == unbox(v, int16)
  ensures [int32] typeis(dest, *int32) ==> *unbox(dest, *int32) == unbox(v, int32)
  ensures [int64] typeis(dest, *int64) ==> *unbox(dest, *int64) == unbox(v, int64)
  ensures [uint] typeis(dest, *uint) ==> *unbox(dest, *uint) == unbox(v, uint)
  ensures [uint8] typeis(dest, *uint8) ==> *unbox(dest, *uint8) == unbox(v, uint8)
  ensures [uint16] typeis(dest, *uint16) ==> *unbox(dest, *uint16) == unbox(v, uint16)
  ensures [uint32] typeis(dest, *uint32) ==> *unbox(dest, *uint32) == unbox(v, uint32)
  ensures [uint64] typeis(dest, *uint64) ==> *unbox(dest, *uint64) == unbox(v, uint64)
  ensures [float32] typeis(dest, *float32) ==> *unbox(dest, *float32) == unbox(v, float32)
  ensures [float64] typeis(dest, *float64) ==> *unbox(dest, *float64) == unbox(v, float64)
  ensures [time-Duration] typeis(dest, *time.Duration) ==> *unbox(dest, *time.Duration) == unbox(v, time.Duration)
  ensures [url-URL] typeis(dest, **url.URL) ==> *unbox(dest, **url.URL) == unbox(v, *url.URL)
  ensures [net-IP] typeis(dest, *net.IP) ==> *unbox(dest, *net.IP) == unbox(v, net.IP)
  ensures [regexp-Regexp] typeis(dest, **regexp.Regexp) ==> *unbox(dest, **regexp.Regexp) == unbox(v, *regexp.Regexp)
  ensures [big-Int] typeis(dest, **big.Int) ==> *unbox(dest, **big.Int) == unbox(v, *big.Int)
  ensures [big-Float] typeis(dest, **big.Float) ==> *unbox(dest, **big.Float) == unbox(v, *big.Float)
  ensures [string] typeis(dest, *[]string) ==> *unbox(dest, *[]string) == unbox(v, []string)
  ensures [mapstringstring] typeis(dest, *map[string]string) ==> *unbox(dest, *map[string]string) == unbox(v, map[string]string)
  ensures [byte] typeis(dest, *[]byte) ==> *unbox(dest, *[]byte) == unbox(v, []byte)

func valueCloneZero(p) (r)
  props C06
  requires typeis(p, *bool) \
     || typeis(p, *string) \
     || typeis(p, *int) \
     || typeis(p, *int8) \
     || typeis(p, *int16) \
     || typeis(p, *int32) \
     || typeis(p, *int64) \
     || typeis(p, *uint) \
     || typeis(p, *uint8) \
     || typeis(p, *uint16) \
     || typeis(p, *uint32) \
     || typeis(p, *uint64) \
     || typeis(p, *float32) \
     || typeis(p, *float64) \
     || typeis(p, *time.Duration) \
     || typeis(p, **url.URL) \
     || typeis(p, *net.IP) \
     || typeis(p, **regexp.Regexp) \
     || typeis(p, **big.Int) \
     || typeis(p, **big.Float) \
     || typeis(p, *[]string) \
     || typeis(p, *map[string]string) \
     || typeis(p, *[]byte) \
     || typeis(p, *[]*NameValue)
  nopanic
  ensures [bool] typeis(p, *bool) ==> typeis(r, *bool) && fresh(r) && *unbox(r, *bool) == false
  ensures [string] typeis(p, *string) ==> typeis(r, *string) && fresh(r) && *unbox(r, *string) == ""
  ensures [int] typeis(p, *int) ==> typeis(r, *int) && fresh(r) && *unbox(r, *int) == 0
  ensures [int8] typeis(p, *int8) ==> typeis(r, *int8) && fresh(r) && *unbox(r, *int8) == 0
  ensures [int16] typeis(p, *int16) ==> typeis(r, *int16) && fresh(r) && *unbox(r, *int16) == 0
  ensures [int32] typeis(p, *int32) ==> typeis(r, *int32) && fresh(r) && *unbox(r, *int32) == 0
  ensures [int64] typeis(p, *int64) ==> typeis(r, *int64) && fresh(r) && *unbox(r, *int64) == 0
  ensures [uint] typeis(p, *uint) ==> typeis(r, *uint) && fresh(r) && *unbox(r, *uint) == 0
  ensures [uint8] typeis(p, *uint8) ==> typeis(r, *uint8) && fresh(r) && *unbox(r, *uint8) == 0
  ensures [uint16] typeis(p, *uint16) ==> typeis(r, *uint16) && fresh(r) && *unbox(r, *uint16) == 0
  ensures [uint32] typeis(p, *uint32) ==> typeis(r, *uint32) && fresh(r) && *unbox(r, *uint32) == 0
  ensures [uint64] typeis(p, *uint64) ==> typeis(r, *uint64) && fresh(r) && *unbox(r, *uint64) == 0
  ensures [float32] typeis(p, *float32) ==> typeis(r, *float32) && fresh(r) && *unbox(r, *float32) == zero(float32)
  ensures [float64] typeis(p, *float64) ==> typeis(r, *float64) && fresh(r) && *unbox(r, *float64) == zero(float64)
  ensures [time-Duration] typeis(p, *time.Duration) ==> typeis(r, *time.Duration) && fresh(r) && *unbox(r, *time.Duration) == 0
  ensures [url-URL] typeis(p, **url.URL) ==> typeis(r, **url.URL) && fresh(r) && *unbox(r, **url.URL) == nil
  ensures [net-IP] typeis(p, *net.IP) ==> typeis(r, *net.IP) && fresh(r) && *unbox(r, *net.IP) == nil
  ensures [regexp-Regexp] typeis(p, **regexp.Regexp) ==> typeis(r, **regexp.Regexp) && fresh(r) && *unbox(r, **regexp.Regexp) == nil
  ensures [big-Int] typeis(p, **big.Int) ==> typeis(r, **big.Int) && fresh(r) && *unbox(r, **big.Int) == nil
  ensures [big-Float] typeis(p, **big.Float) ==> typeis(r, **big.Float) && fresh(r) && *unbox(r, **big.Float) == nil
  ensures [string] typeis(p, *[]string) ==> typeis(r, *[]string) && fresh(r) && *unbox(r, *[]string) == nil
  ensures [mapstringstring] typeis(p, *map[string]string) ==> typeis(r, *map[string]string) && fresh(r) && *unbox(r, *map[string]string) == nil
  ensures [byte] typeis(p, *[]byte) ==> typeis(r, *[]byte) && fresh(r) && *unbox(r, *[]byte) == nil
  ensures [NameValues] typeis(p, *[]*NameValue) ==> typeis(r, *[]*NameValue) && fresh(r) && len(*unbox(r, *[]*NameValue)) == 0

func valueSmartOptionalDefault(v) (r)
  props C06
  nopanic
  ensures [bool] typeis(v, *bool) ==> typeis(r, bool) && unbox(r, bool)
  ensures [int] typeis(v, *int) ==> typeis(r, int) && unbox(r, int) == 1
  ensures [int8] typeis(v, *int8) ==> typeis(r, int8) && unbox(r, int8) == 1
  ensures [int16] typeis(v, *int16) ==> typeis(r, int16) && unbox(r, int16) == 1
  ensures [int32] typeis(v, *int32) ==> typeis(r, int32) && unbox(r, int32) == 1
  ensures [int64] typeis(v, *int64) ==> typeis(r, int64) && unbox(r, int64) == 1
  ensures [uint] typeis(v, *uint) ==> typeis(r, uint) && unbox(r, uint) == 1
  ensures [uint8] typeis(v, *uint8) ==> typeis(r, uint8) && unbox(r, uint8) == 1
  ensures [uint16] typeis(v, *uint16) ==> typeis(r, uint16) && unbox(r, uint16) == 1
  ensures [uint32] typeis(v, *uint32) ==> typeis(r, uint32) && unbox(r, uint32) == 1
  ensures [uint64] typeis(v, *uint64) ==> typeis(r, uint64) && unbox(r, uint64) == 1
  ensures [duration] typeis(v, *time.Duration) ==> typeis(r, time.Duration) && unbox(r, time.Duration) == 1000000000
  ensures [ip] typeis(v, *net.IP) ==> typeis(r, net.IP)
  ensures [float32] typeis(v, *float32) ==> typeis(r, float32)
  ensures [float64] typeis(v, *float64) ==> typeis(r, float64)
  ensures [other] typeis(v, *string) || typeis(v, *[]string) || typeis(v, *map[string]string) || typeis(v, **url.URL) ==> r == nil

