package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// art is what a compilation produced.
type art struct {
	prog   *cc.Program
	gates  []*cc.Gate
	dense  *cc.ER1CS
	sparse *cc.ER1CSSparse
}

func compileArt(src string, kind int) *art {
	a := &art{prog: cc.Parse(src, true)}
	a.gates = a.prog.Execute()
	if kind&1 != 0 {
		a.dense = a.prog.GatesToR1CS(a.gates, false)
	}
	if kind&2 != 0 {
		a.sparse = a.prog.GatesToSparseR1CS(a.gates, false)
	}
	return a
}

// csys is a constraint system as plain numbers: rows of column -> coefficient, mod the order.
type csys struct {
	pub, in []string
	width   int
	gates   int
	rows    [4][]map[int]*big.Int // L R E O
}

func rowDense(r []*big.Int) map[int]*big.Int {
	m := map[int]*big.Int{}
	for i, v := range r {
		if w := red(v); w.Sign() != 0 {
			m[i] = w
		}
	}
	return m
}

func rowSparse(t *utils.AvlTree) map[int]*big.Int {
	m := map[int]*big.Int{}
	for ch := t.ChannelNodes(true); ; {
		n, ok := ch.Recv2()
		if !ok {
			break
		}
		if w := red(n.Value); w.Sign() != 0 {
			m[int(n.Key)] = w
		}
	}
	return m
}

func csysDense(p *cc.Program, r *cc.ER1CS) *csys {
	c := &csys{width: r.WitnessLength, gates: r.NumberOfGates}
	c.names(p)
	for k, m := range [][][]*big.Int{r.L, r.R, r.E, r.O} {
		for _, row := range m {
			c.rows[k] = append(c.rows[k], rowDense(row))
		}
	}
	return c
}

func csysSparse(p *cc.Program, r *cc.ER1CSSparse) *csys {
	c := &csys{width: r.WitnessLength, gates: r.NumberOfGates}
	c.names(p)
	for k, m := range [][]*utils.AvlTree{r.L, r.R, r.E, r.O} {
		for _, row := range m {
			c.rows[k] = append(c.rows[k], rowSparse(row))
		}
	}
	return c
}

func (c *csys) names(p *cc.Program) {
	if p == nil {
		return
	}
	c.pub = append([]string{}, p.PublicInputs...)
	c.in = append([]string{}, p.GetMainCircuit().Inputs...)
}

func (c *csys) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "public %v inputs %v width %d gates %d\n", c.pub, c.in, c.width, c.gates)
	for k := range c.rows {
		for i, r := range c.rows[k] {
			var ks []int
			for j := range r {
				ks = append(ks, j)
			}
			sort.Ints(ks)
			fmt.Fprintf(&b, "%c%d:", "LREO"[k], i)
			for _, j := range ks {
				fmt.Fprintf(&b, " %d*%v", j, r[j])
			}
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// unsatisfied returns the first constraint the assignment does not satisfy, or -1.
func (c *csys) unsatisfied(w []*big.Int) int {
	dot := func(r map[int]*big.Int) *big.Int {
		s := new(big.Int)
		for j, v := range r {
			if j >= len(w) {
				return bi(-1)
			}
			s.Add(s, new(big.Int).Mul(v, w[j]))
		}
		return red(s)
	}
	for i := range c.rows[0] {
		l := fMul(dot(c.rows[0][i]), dot(c.rows[1][i]))
		if e := dot(c.rows[2][i]); e.Sign() != 0 {
			l = fAdd(l, refX(e))
		}
		if l.Cmp(dot(c.rows[3][i])) != 0 {
			return i
		}
	}
	return -1
}

// order gives the position of every input in the witness, as the documents say:
// the constant one, the public inputs in their order, the other inputs in theirs.
func (p *program) order1() []string {
	l := append([]string{"1"}, p.public...)
	pub := map[string]bool{}
	for _, n := range p.public {
		pub[n] = true
	}
	for _, n := range p.inputs {
		if !pub[n] {
			l = append(l, n)
		}
	}
	return l
}

func (p *program) head(inputs []*big.Int) []*big.Int {
	at := map[string]*big.Int{"1": bi(1)}
	for i, n := range p.inputs {
		at[n] = inputs[i]
	}
	var l []*big.Int
	for _, n := range p.order1() {
		l = append(l, at[n])
	}
	return l
}

func ints(l []*big.Int) string {
	var b strings.Builder
	for i, v := range l {
		if i > 0 {
			b.WriteByte(' ')
		}
		if v == nil {
			b.WriteByte('-')
		} else {
			b.WriteString(v.String())
		}
	}
	return b.String()
}

func cloneInts(l []*big.Int) []*big.Int {
	r := make([]*big.Int, len(l))
	for i, v := range l {
		if v != nil {
			r[i] = cp(v)
		}
	}
	return r
}

func sameInts(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || b[i] == nil {
			if a[i] != b[i] {
				return false
			}
		} else if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// witnessOf computes a witness of the chosen representation.
func (a *art) witnessOf(sparse bool, names []string, vals []*big.Int) ([]*big.Int, error) {
	in := cc.CombineInputs(names, vals)
	if sparse {
		return cc.CalculateSparseWitness(a.sparse, in)
	}
	return cc.CalculateWitness(a.dense, in)
}
