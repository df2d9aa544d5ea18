package main

import (
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"pol/bp"
	"pol/common"
	"pol/pp"

	math "github.com/IBM/mathlib"
)

var (
	curve = math.Curves[1]
	order = bigOf(curve.GroupOrder)
)

// bigOf gives the integer behind a scalar, sign and all.
func bigOf(z *math.Zr) *big.Int {
	n, ok := new(big.Int).SetString(z.String(), 16)
	if !ok {
		fatal("cannot read scalar %s", z.String())
	}
	return n
}

// residue gives the representative of a scalar in [0, group order).
func residue(z *math.Zr) *big.Int {
	n := bigOf(z)
	return n.Mod(n, order)
}

func zrOf(n *big.Int) *math.Zr {
	return curve.NewZrFromBytes(new(big.Int).Mod(n, order).Bytes())
}

// limbs renders a non-negative integer the way Amounts.tla does.
func limbs(n *big.Int) []int {
	res := []int{}
	m := new(big.Int).Set(n)
	mask := big.NewInt(1<<24 - 1)
	for m.Sign() > 0 {
		res = append(res, int(new(big.Int).And(m, mask).Int64()))
		m.Rsh(m, 24)
	}
	return res
}

func limbs64(n int64) []int { return limbs(big.NewInt(n)) }

func g1Hex(g *math.G1) string {
	if g == nil {
		return ""
	}
	h := sha256.Sum256(g.Bytes())
	return hex.EncodeToString(h[:10])
}

func shortHash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:10])
}

func zrHex(z *math.Zr) string {
	if z == nil {
		return ""
	}
	return residue(z).Text(16)
}

// opens tells whether C is the commitment to m under the given parameters; it
// is computed from the published group elements alone.
func opens(p *pp.PP, C *math.G1, m []*big.Int) bool {
	if C == nil {
		return false
	}
	acc := identity()
	for i, x := range m {
		if x.Sign() != 0 {
			acc.Add(p.G1s[i].Mul(zrOf(x)))
		}
	}
	return acc.Equals(C)
}

func identity() *math.G1 {
	z := curve.GenG1.Copy()
	z.Sub(z)
	return z
}

func commitTo(p *pp.PP, m []*big.Int) *math.G1 {
	acc := identity()
	for i, x := range m {
		if new(big.Int).Mod(x, order).Sign() != 0 {
			acc.Add(p.G1s[i].Mul(zrOf(x)))
		}
	}
	return acc
}

// dotted paths: "0.3.1"
func parseDotted(id string) []uint16 {
	var res []uint16
	for _, s := range strings.Split(id, ".") {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic("not a dotted id: " + id)
		}
		res = append(res, uint16(n))
	}
	return res
}

func dotted(path []uint16) string {
	ss := make([]string, len(path))
	for i, p := range path {
		ss[i] = strconv.Itoa(int(p))
	}
	return strings.Join(ss, ".")
}

// keyPath parses a database key (".p1.p2", "" for the root).
func keyPath(key string) ([]int, bool) {
	res := []int{}
	if key == "" {
		return res, true
	}
	if key[0] != '.' {
		return nil, false
	}
	for _, s := range strings.Split(key[1:], ".") {
		n, err := strconv.Atoi(s)
		if err != nil || n < 0 {
			return nil, false
		}
		res = append(res, n)
	}
	return res, true
}

func ints(p []uint16) []int {
	res := make([]int, len(p))
	for i, x := range p {
		res[i] = int(x)
	}
	return res
}

// Leaf is one group element or scalar somewhere inside a value.
type Leaf struct {
	Path string
	G1   **math.G1
	Zr   **math.Zr
}

var (
	tG1 = reflect.TypeOf((*math.G1)(nil))
	tZr = reflect.TypeOf((*math.Zr)(nil))
	tG2 = reflect.TypeOf((*math.G2)(nil))
	tGt = reflect.TypeOf((*math.Gt)(nil))
)

// leaves lists every group element and scalar reachable from v (a pointer),
// unexported fields included, in a fixed order.
func leaves(v interface{}) []Leaf {
	var res []Leaf
	walk(reflect.ValueOf(v).Elem(), "", &res)
	return res
}

func walk(v reflect.Value, path string, out *[]Leaf) {
	v = exposed(v)
	switch v.Type() {
	case tG1:
		*out = append(*out, Leaf{Path: path, G1: (**math.G1)(unsafe.Pointer(v.UnsafeAddr()))})
		return
	case tZr:
		*out = append(*out, Leaf{Path: path, Zr: (**math.Zr)(unsafe.Pointer(v.UnsafeAddr()))})
		return
	case tG2, tGt:
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walk(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			walk(v.Field(i), path+"/"+fieldName(v.Type().Field(i)), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), path+"["+strconv.Itoa(i)+"]", out)
		}
	}
}

// fieldName names a nested inner product argument the same way everywhere.
func fieldName(f reflect.StructField) string {
	if f.Type == tIPP {
		return "IPP"
	}
	return f.Name
}

var tIPP = reflect.TypeOf((*bp.InnerProductProof)(nil))

func exposed(v reflect.Value) reflect.Value {
	if v.CanAddr() && !v.CanSet() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// field returns the named field of the struct v points to, whether exported or not.
func field(v interface{}, name string) (reflect.Value, bool) {
	f := reflect.ValueOf(v).Elem().FieldByName(name)
	if !f.IsValid() {
		return f, false
	}
	return exposed(f), true
}

func setField(v interface{}, name string, val interface{}) bool {
	f, ok := field(v, name)
	if !ok || !reflect.TypeOf(val).AssignableTo(f.Type()) {
		return false
	}
	f.Set(reflect.ValueOf(val))
	return true
}

// deepCopy clones a value: pointers, slices, arrays, maps and structs.
func deepCopy(v interface{}) interface{} {
	src := reflect.ValueOf(v)
	dst := reflect.New(src.Type()).Elem()
	tmp := reflect.New(src.Type()).Elem()
	tmp.Set(src)
	copyInto(dst, tmp)
	return dst.Interface()
}

func copyInto(dst, src reflect.Value) {
	dst, src = exposed(dst), exposed(src)
	switch src.Type() {
	case tG1:
		if g := src.Interface().(*math.G1); g != nil {
			dst.Set(reflect.ValueOf(g.Copy()))
		}
		return
	case tZr:
		if z := src.Interface().(*math.Zr); z != nil {
			dst.Set(reflect.ValueOf(z.Copy()))
		}
		return
	case tG2, tGt:
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(src.Type().Elem()))
			copyInto(dst.Elem(), src.Elem())
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			copyInto(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				copyInto(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyInto(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

// snapshot lists what is reachable from v: group elements, scalars, bytes and
// strings wherever they are, numbers in exported fields.
func snapshot(v interface{}) map[string]string {
	res := map[string]string{}
	src := reflect.ValueOf(v)
	tmp := reflect.New(src.Type()).Elem()
	tmp.Set(src)
	snap(tmp, "", true, res)
	return res
}

// changed gives a path whose content in before is not the same in after.
// Things that are only in after are fine (a value computed once and kept).
func changed(before, after map[string]string) string {
	for p, x := range before {
		if y, ok := after[p]; !ok || x != y {
			return p
		}
	}
	return ""
}

func snap(v reflect.Value, path string, exported bool, out map[string]string) {
	v = exposed(v)
	switch v.Type() {
	case tG1:
		if g := v.Interface().(*math.G1); g != nil {
			out[path] = shortHash(g.Bytes())
		}
		return
	case tZr:
		if z := v.Interface().(*math.Zr); z != nil {
			out[path] = z.String()
		}
		return
	case tG2:
		if g := v.Interface().(*math.G2); g != nil {
			out[path] = shortHash(g.Bytes())
		}
		return
	case tGt:
		if g := v.Interface().(*math.Gt); g != nil {
			out[path] = shortHash(g.Bytes())
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			snap(v.Elem(), path, exported, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			snap(v.Field(i), path+"/"+f.Name, f.PkgPath == "", out)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			out[path] = shortHash(b)
			return
		}
		if exported {
			out[path+"#"] = strconv.Itoa(v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			snap(v.Index(i), path+"["+strconv.Itoa(i)+"]", exported, out)
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if exported {
			out[path] = strconv.FormatInt(v.Int(), 10)
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		if exported {
			out[path] = strconv.FormatUint(v.Uint(), 10)
		}
	case reflect.Bool:
		if exported {
			out[path] = strconv.FormatBool(v.Bool())
		}
	case reflect.String:
		out[path] = v.String()
	}
}

func isPow2(n int) bool { return n > 1 && n&(n-1) == 0 }

func vecOf(ns []*big.Int) common.Vec {
	res := make(common.Vec, len(ns))
	for i, n := range ns {
		res[i] = zrOf(n)
	}
	return res
}

func negG1(g *math.G1) *math.G1 {
	r := identity()
	r.Sub(g)
	return r
}
