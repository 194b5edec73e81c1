// Check of the set types (C24).
package main

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"strings"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"verif/vh"
)

type set[E cmp.Ordered, T any] interface {
	~map[E]sets.Empty
	Insert(...E) T
	Delete(...E) T
	Has(E) bool
	HasAll(...E) bool
	HasAny(...E) bool
	Difference(T) T
	Union(T) T
	Intersection(T) T
	IsSuperset(T) bool
	Equal(T) bool
	List() []E
	UnsortedList() []E
	PopAny() (E, bool)
	Len() int
}

func main() {
	vh.Main(vh.Check{ID: "C24", Bounds: bounds, Run: run})
}

func bounds(q bool) string {
	return fmt.Sprintf("for each of 6 element types: every pair of subsets of a 6-element universe of extreme values (plus nil and shared operands) under every operation, and every sequence of <=%d operations over two possibly shared sets of 3 elements (14 operations); sets of every size up to 20 (thorough: 40) and up to 1000 with every one of these, overlapping in 6 ways", map[bool]int{true: 5, false: 6}[q])
}

func run(h *vh.H) {
	large(h, "Byte", sets.NewByte, sets.ByteKeySet, 256, func(i int) byte { return byte(i) })
	large(h, "Int", sets.NewInt, sets.IntKeySet, 2000, func(i int) int { return (i - 1000) << 40 })
	large(h, "Int32", sets.NewInt32, sets.Int32KeySet, 2000, func(i int) int32 { return int32(i-1000) << 20 })
	large(h, "Int64", sets.NewInt64, sets.Int64KeySet, 2000, func(i int) int64 { return int64(i-1000) << 40 })
	large(h, "Uint64", sets.NewUint64, sets.Uint64KeySet, 2000, func(i int) uint64 { return uint64(i) << 53 })
	large(h, "String", sets.NewString, sets.StringKeySet, 2000, func(i int) string { return fmt.Sprintf("e%05d", i) })
	one(h, "Byte", sets.NewByte, sets.ByteKeySet, []byte{0, 1, 2, 127, 128, 255})
	one(h, "Int", sets.NewInt, sets.IntKeySet, []int{math.MinInt, -1, 0, 1, 2, math.MaxInt})
	one(h, "Int32", sets.NewInt32, sets.Int32KeySet, []int32{math.MinInt32, -1, 0, 1, 2, math.MaxInt32})
	one(h, "Int64", sets.NewInt64, sets.Int64KeySet, []int64{math.MinInt64, -1, 0, 1, math.MaxInt32 + 1, math.MaxInt64})
	one(h, "Uint64", sets.NewUint64, sets.Uint64KeySet, []uint64{0, 1, 2, math.MaxInt64, 1 << 63, math.MaxUint64})
	one(h, "String", sets.NewString, sets.StringKeySet, []string{"", "A", "a", "aa", "é", "\xff"})
}

// one enumerates everything for one element type.  univ is in ascending order.
func one[E cmp.Ordered, T set[E, T]](h *vh.H, name string, mk func(...E) T, keySet func(interface{}) T, univ []E) {
	n := len(univ)
	if !slices.IsSorted(univ) {
		panic("universe not sorted")
	}
	pick := func(mask int) []E {
		var out []E
		for i, e := range univ {
			if mask&(1<<i) != 0 {
				out = append(out, e)
			}
		}
		return out
	}
	// build makes the set of mask, inserting in descending order with repeats
	build := func(mask int) T {
		l := pick(mask)
		slices.Reverse(l)
		s := mk(l...)
		if r := s.Insert(l...); !sameMap(r, s) {
			panic("Insert does not return its receiver")
		}
		return s
	}
	must := func(c *vh.C, what string, s T, mask int) {
		want := pick(mask)
		if s.Len() != len(want) || len(s) != len(want) {
			c.Failf("%s: length %d, want %d", what, s.Len(), len(want))
		}
		if got := s.List(); len(got) != len(want) || !slices.Equal(got, want) {
			c.Failf("%s: List %v, want %v", what, got, want)
		}
		u := s.UnsortedList()
		slices.Sort(u)
		if !slices.Equal(u, want) {
			c.Failf("%s: UnsortedList %v, want %v", what, u, want)
		}
		for i, e := range univ {
			if s.Has(e) != (mask&(1<<i) != 0) {
				c.Failf("%s: Has(%v) = %v", what, e, s.Has(e))
			}
		}
	}
	for a := -1; a < 1<<n; a++ {
		for b := -2; b < 1<<n; b++ { // -1: nil, -2: the same set as a
			a, b := a, b
			h.Case(func() string { return fmt.Sprintf("%s a=%b b=%b", name, a, b) }, func(c *vh.C) {
				ma, mb := max(a, 0), max(b, 0)
				var sa, sb T
				if a >= 0 {
					sa = build(a)
				}
				if b == -2 {
					sb, mb = sa, ma
				} else if b >= 0 {
					sb = build(b)
				}
				same := func(after string) {
					must(c, "first operand after "+after, sa, ma)
					must(c, "second operand after "+after, sb, mb)
					c.Trans(1)
				}
				same("construction")
				fresh := func(op string, r T, mr int) {
					must(c, op, r, mr)
					same(op)
					if sameMap(r, sa) && sa != nil || sameMap(r, sb) && sb != nil {
						c.Failf("%s returns one of its operands", op)
					}
					// changing the result must not change the operands
					r.Insert(univ...)
					same(op + " and growing its result")
					r.Delete(univ...)
					same(op + " and emptying its result")
				}
				fresh("Union", sa.Union(sb), ma|mb)
				fresh("Intersection", sa.Intersection(sb), ma&mb)
				fresh("Difference", sa.Difference(sb), ma&^mb)
				if g, w := sa.IsSuperset(sb), ma&mb == mb; g != w {
					c.Failf("IsSuperset = %v, want %v", g, w)
				}
				if g, w := sa.Equal(sb), ma == mb; g != w {
					c.Failf("Equal = %v, want %v", g, w)
				}
				same("comparison")
				// listings are the caller's own
				l := sa.List()
				for i := range l {
					l[i] = univ[0]
				}
				same("changing a listing")
				if g, w := sa.HasAll(pick(mb)...), ma&mb == mb; g != w {
					c.Failf("HasAll = %v, want %v", g, w)
				}
				if g, w := sa.HasAny(pick(mb)...), ma&mb != 0; g != w {
					c.Failf("HasAny = %v, want %v", g, w)
				}
				m := map[E]int{}
				for i, e := range pick(ma) {
					m[e] = i
				}
				ks := keySet(m)
				must(c, "KeySet", ks, ma)
				ks.Insert(univ...)
				if len(m) != len(pick(ma)) {
					c.Failf("KeySet changed its argument")
				}
				if b != -2 && a >= 0 {
					d := build(a)
					if r := d.Delete(pick(mb)...); !sameMap(r, d) {
						c.Failf("Delete does not return its receiver")
					}
					must(c, "Delete", d, ma&^mb)
					d = build(a)
					d.Insert(pick(mb)...)
					must(c, "Insert", d, ma|mb)
				}
				if a >= 0 && b < 1 {
					d := build(a)
					for k, md := 0, ma; ; k++ {
						e, ok := d.PopAny()
						i := slices.Index(univ, e)
						if !ok {
							var zero E
							if md != 0 || e != zero {
								c.Failf("PopAny of %d elements gives %v, %v", len(pick(md)), e, ok)
							}
							break
						}
						if i < 0 || md&(1<<i) == 0 {
							c.Failf("PopAny gives %v which is not an element", e)
						}
						md &^= 1 << i
						must(c, "PopAny", d, md)
					}
				}
				c.Trace()
				c.State(name, fmt.Sprint(ma, mb))
				c.Outcome(fmt.Sprint(ma|mb, ma&mb, ma&^mb))
			})
		}
	}

	ops := []string{"A+0", "A+1", "A+2", "A-0", "A-1", "A-2", "A+(0,2,2)", "A-(1,0)", "pop A", "B=A|B", "B=A&B", "B=A\\B", "B=A", "swap"}
	vh.Seqs(len(ops), 1, h.Pick(5, 6), func(ix []int) {
		h.Case(func() string {
			var s []string
			for _, i := range ix {
				s = append(s, ops[i])
			}
			return name + ": " + strings.Join(s, "; ")
		}, func(c *vh.C) {
			A, B := mk(), mk()
			ra, rb := new(int), new(int)
			e := univ[n-3:]
			off := n - 3
			for _, o := range ix {
				switch {
				case o < 3:
					A.Insert(e[o])
					*ra |= 1 << o
				case o < 6:
					A.Delete(e[o-3])
					*ra &^= 1 << (o - 3)
				case o == 6:
					A.Insert(e[0], e[2], e[2])
					*ra |= 5
				case o == 7:
					A.Delete(e[1], e[0])
					*ra &^= 3
				case o == 8:
					x, ok := A.PopAny()
					if ok != (*ra != 0) {
						c.Failf("PopAny gives %v with elements %03b", ok, *ra)
					}
					if ok {
						i := slices.Index(e, x)
						if i < 0 || *ra&(1<<i) == 0 {
							c.Failf("PopAny gives %v with elements %03b", x, *ra)
						}
						*ra &^= 1 << i
					}
				case o == 9:
					v := *ra | *rb
					B, rb = A.Union(B), &v
				case o == 10:
					v := *ra & *rb
					B, rb = A.Intersection(B), &v
				case o == 11:
					v := *ra &^ *rb
					B, rb = A.Difference(B), &v
				case o == 12:
					B, rb = A, ra
				case o == 13:
					A, B, ra, rb = B, A, rb, ra
				}
				must(c, "A after "+ops[o], A, *ra<<off)
				must(c, "B after "+ops[o], B, *rb<<off)
				c.Trans(1)
			}
			c.Trace()
			c.State(name, fmt.Sprint(*ra, *rb, ra == rb))
		})
	})
}

// large checks the operations on sets of every size.
func large[E cmp.Ordered, T set[E, T]](h *vh.H, name string, mk func(...E) T, keySet func(interface{}) T, univ int, at func(int) E) {
	var ns []int
	for n := 0; n <= h.Pick(20, 40); n++ {
		ns = append(ns, n)
	}
	for _, n := range []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 500, 1000} {
		if n > ns[len(ns)-1] && n <= univ/2 || n == univ {
			ns = append(ns, n)
		}
	}
	span := func(lo, n int) []E {
		var l []E
		for i := lo; i < min(lo+n, univ); i++ {
			l = append(l, at(i))
		}
		return l
	}
	for _, na := range ns {
		for _, nb := range ns {
			for _, lo := range []int{0, 1, na / 2, na - 1, na, univ - nb} { // b starts there
				if lo < 0 || lo+nb > univ {
					continue
				}
				h.Case(func() string { return fmt.Sprintf("%s of %d and %d elements, the second from %d", name, na, nb, lo) }, func(c *vh.C) {
					la, lb := span(0, na), span(lo, nb)
					var a, b T
					a, b = mk(la...), mk()
					for i := len(lb) - 1; i >= 0; i-- {
						b.Insert(lb[i])
					}
					in := func(l []E, e E) bool { _, ok := slices.BinarySearch(l, e); return ok }
					var un, is, di []E
					un = append(un, lb...)
					for _, e := range la {
						if in(lb, e) {
							is = append(is, e)
						} else {
							di = append(di, e)
							un = append(un, e)
						}
					}
					slices.Sort(un)
					must := func(what string, s T, want []E) {
						c.Trans(1)
						got := s.UnsortedList()
						slices.Sort(got)
						if s.Len() != len(want) || !slices.Equal(s.List(), want) || !slices.Equal(got, want) {
							c.Failf("%s: %v, want %v", what, s.List(), want)
						}
					}
					both := func(after string) {
						must("first operand after "+after, a, la)
						must("second operand after "+after, b, lb)
					}
					for i, r := range []T{a.Union(b), a.Intersection(b), a.Difference(b)} {
						op := []string{"Union", "Intersection", "Difference"}[i]
						must(op, r, [][]E{un, is, di}[i])
						r.Insert(at(0), at(univ-1))
						r.Delete(lb...)
						r.Delete(la...)
						both(op)
					}
					for _, t := range []struct {
						op        string
						got, want bool
					}{
						{"IsSuperset", a.IsSuperset(b), len(is) == len(lb)},
						{"Equal", a.Equal(b), len(is) == len(lb) && len(la) == len(lb)},
						{"HasAll", a.HasAll(lb...), len(is) == len(lb)},
						{"HasAny", a.HasAny(lb...), len(is) > 0},
					} {
						if t.got != t.want {
							c.Failf("%s = %v", t.op, t.got)
						}
					}
					both("comparing")
					m := map[E]bool{}
					for _, e := range la {
						m[e] = true
					}
					must("KeySet", keySet(m), la)
					d := mk(la...)
					must("Delete", d.Delete(lb...), di)
					must("Insert", d.Insert(lb...), un)
					var popped []E
					for {
						e, ok := d.PopAny()
						if !ok {
							break
						}
						if d.Has(e) {
							c.Failf("PopAny leaves %v", e)
						}
						popped = append(popped, e)
					}
					slices.Sort(popped)
					if !slices.Equal(popped, un) {
						c.Failf("PopAny gives %v, want %v", popped, un)
					}
					c.Trace()
				})
			}
		}
	}
}

// sameMap tells whether two sets are one object: what is put in one is in the other.
func sameMap[E cmp.Ordered, T set[E, T]](a, b T) bool {
	return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b)
}
