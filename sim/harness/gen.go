package main

import (
	"math"

	"verifrt/simrt"
)

var (
	sliceTypes = []string{"i32", "i64", "u32", "u64", "f32", "f64", "str", "byt", "i32", "i64", "u32", "u64", "f32", "f64", "str", "byt", "int", "uint", "uptr", "ptr", "uns", "ni32", "nf64"}
	lenTypes   = []string{"lstr", "lstr", "lbyt", "lbyt", "lemp", "lhuge", "lu64", "lss", "lbig"}
)

// codeTypes: one for each copy of the algorithm.
var codeTypes = []string{"lsw", "i32", "i64", "u32", "u64", "f32", "f64", "str", "byt", "lstr", "lbyt", "ptr"}

// killerTypes: for which code collections are also made that defeat its choice of pivots.
var killerTypes = map[string][]string{
	"C01": {"i32", "i64", "u32", "u64", "f32", "f64", "str", "byt", "ptr"},
	"C02": codeTypes,
	"C04": codeTypes,
	"C09": codeTypes,
	"C10": {"lsw"},
	"C11": {"lstr", "lbyt"},
	"C12": {"f32", "f64"},
	"C14": codeTypes,
}

// refType: the first word of an element is a reference.
var refType = map[string]bool{"ptr": true, "uns": true, "str": true, "byt": true, "lstr": true, "lbyt": true, "lu64": true, "lss": true, "lbig": true}

var refTypes = []string{"ptr", "ptr", "uns", "str", "str", "byt", "byt", "lstr", "lbyt", "lu64", "lss", "lbig"}

func mixSeed(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ b*0xd1342543de82ef95
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func hashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type gen struct {
	r  *simrt.RNG
	sc *Scenario
	// running estimate of the work
	work float64
}

func (g *gen) n(k int) int       { return g.r.N(k) }
func (g *gen) p(pm int) bool     { return g.r.P(pm) }
func (g *gen) rng(a, b int) int  { return a + g.r.N(b-a+1) }
func (g *gen) pick(v ...int) int { return g.r.Pick(v...) }
func (g *gen) str(v ...string) string {
	return v[g.r.N(len(v))]
}

// genLimits draws length limits within the documented constraints.
func (g *gen) genLimits(wild bool) [4]int {
	if !tunable {
		return limits()
	}
	insFC := 9
	switch {
	case wild:
		insFC = g.pick(9, 9, 10, 12, 16, 30, 60)
	case g.p(300):
		insFC = g.rng(9, 16)
	}
	ins := insFC + 1
	if g.p(400) {
		ins += g.n(8)
	}
	recFC := 2*ins + 1
	if g.p(300) {
		recFC += g.n(30)
	}
	rec := recFC + 1
	if g.p(300) {
		rec += g.n(40)
	}
	if wild {
		switch g.n(10) {
		case 0: // no recursion limit in reach
			rec = math.MaxInt
			if g.p(500) {
				recFC = math.MaxInt - 1
			}
		case 1:
			rec = math.MaxInt/2 + g.pick(-1, 0, 1)
		case 2:
			ins += g.n(100)
			recFC = 2*ins + 1 + g.n(100)
			rec = recFC + 1 + g.n(400)
		case 3:
			rec = recFC + 1 + g.n(2000)
		case 4:
			recFC = 2*ins + 1 + g.n(300)
			rec = recFC + 1
		case 5: // everything by insertion
			if g.p(500) {
				ins = math.MaxInt/2 - 1 - g.n(3)
				if g.p(500) {
					insFC = ins - 1 - g.n(3)
				}
				recFC = math.MaxInt - 1
				rec = math.MaxInt
			}
		}
	}
	return [4]int{ins, insFC, rec, recFC}
}

// length draws a collection length around the places where the algorithm changes.
func (g *gen) length(limit, ins int, max int) int {
	if limit > 1<<20 {
		limit = 22 + g.n(200)
	}
	if ins > 1<<20 {
		ins = 10
	}
	if max > 200000 {
		return g.rng(60000, max)
	}
	var n int
	switch g.n(20) {
	case 0:
		n = g.n(4)
	case 1:
		n = g.n(2*ins + 4)
	case 2:
		n = ins + g.rng(-1, 2)
	case 3:
		n = limit + g.rng(-2, 3)
	case 4:
		n = 2*limit + g.rng(-3, 6)
	case 5, 6:
		n = 2*(limit+1) + g.n(limit)
	case 7, 8:
		n = 4*(limit+1) + g.rng(-3, limit)
	case 9:
		n = 8*(limit+1) + g.n(limit*8)
	case 10:
		n = g.n(40 * limit)
	default:
		n = 2*limit + g.n(10*limit)
	}
	if n > max {
		n = max - g.n(max/4+1)
	}
	if n < 0 {
		n = 0
	}
	return n
}

func (g *gen) limitOf(do, typ string) (limit, ins int) {
	l := g.sc.Lim
	if do == "lsw" || do == "slice" && (typ == "str" || typ == "byt") {
		return l[3], l[1]
	}
	return l[2], l[0]
}

func (g *gen) coll(typ string, n int) Coll {
	c := Coll{Typ: typ, N: n, Seed: g.r.U64()}
	c.Pat = patterns[g.n(len(patterns))]
	switch g.n(4) {
	case 0:
		c.Mod = 1 + g.n(6)
	case 1:
		c.Mod = 1 + g.n(40)
	default:
		c.Mod = 1 + g.n(n+2)
	}
	switch g.n(5) {
	case 0:
		c.Off = 1 << 63
	case 1:
		c.Off = 1 << 31
	case 2:
		c.Off = ^uint64(0) - uint64(g.n(n+1))
	case 3:
		c.Off = g.r.U64()
	}
	if typ == "f32" || typ == "f64" || typ == "nf64" {
		c.Spec = g.pick(0, 0, 10, 100, 500)
		if g.p(500) {
			c.Mod = c.Mod / 5 * 5 // plain scale
		}
	}
	if typ == "str" || typ == "byt" {
		c.Pre = g.pick(0, 0, 0, 1, 7, 8, 20, 16, 31, 64, 250)
		if n > 20000 {
			c.Pre = g.pick(0, 7, 8)
		}
	}
	return c
}

func (g *gen) doFor(typ string) string {
	switch typ {
	case "lsw":
		return "lsw"
	case "lstr", "lbyt", "lemp", "lhuge", "lu64", "lss", "lbig":
		return "len"
	}
	return "slice"
}

func (g *gen) anyType() string {
	switch g.n(10) {
	case 0, 1, 2:
		return "lsw"
	case 3:
		return lenTypes[g.n(len(lenTypes))]
	}
	return sliceTypes[g.n(len(sliceTypes))]
}

// sortOp adds a collection of type typ and returns an operation sorting all of it.
func (g *gen) sortOp(typ string, max int) Op {
	do := g.doFor(typ)
	limit, ins := g.limitOf(do, typ)
	n := g.length(limit, ins, max)
	return g.sortOpN(typ, n)
}

func (g *gen) sortOpN(typ string, n int) Op {
	do := g.doFor(typ)
	odd := true
	if do == "lsw" && g.sc.Variant != "tune" && g.sc.Variant != "tune386" && g.sc.Prop != "C17" {
		// collections with few distinct keys take a quadratic number of comparisons
		if odd = n <= 2500 || g.p(200); odd && n > 2500 {
			n = g.rng(1500, 2500)
		}
	}
	lo, tail := 0, 0
	if g.p(300) {
		lo, tail = g.n(4), g.n(4)
	}
	g.sc.Colls = append(g.sc.Colls, g.coll(typ, lo+n+tail))
	op := Op{Do: do, C: len(g.sc.Colls) - 1, Lo: lo, Hi: lo + n}
	if do == "lsw" {
		op.Ord = g.str("asc", "asc", "asc", "desc", "mod", "eq")
		if !odd {
			c := &g.sc.Colls[op.C]
			c.Pat, c.Mod = g.str("rand", "perm", "nearly", "half", "rot", "rand"), lo+n+tail
			if op.Ord == "mod" || op.Ord == "eq" {
				op.Ord = "desc"
			}
		}
	}
	g.count(n)
	return op
}

func (g *gen) count(n int) {
	g.work += 12 * float64(n) * math.Log2(float64(n)+2)
}

func (g *gen) nestSpec(op *Op, max int) {
	typ := g.anyType()
	do := g.doFor(typ)
	limit, ins := g.limitOf(do, typ)
	n := g.length(limit, ins, max)
	c := g.coll(typ, n)
	op.NestColl = &c
	op.NestOp = &Op{Do: do, Lo: 0, Hi: n}
	if do == "lsw" {
		op.NestOp.Ord = g.str("asc", "desc", "mod")
	}
	op.NestEach = uint64(1 + g.n(400))
	op.NestMax = 1 + g.n(3)
	g.count(n * op.NestMax)
}

func (g *gen) stall(op *Op) {
	op.StallEach = uint64(g.pick(1, 7, 50, 300, 1000))
	op.StallLen = uint64(g.pick(10, 200, 3000, 100000))
	op.StallMax = g.pick(1, 5, 50, 300)
}

func (g *gen) gorValue() uint64 {
	switch g.n(12) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3, 4:
		return 2
	case 5, 6:
		return 3
	case 7:
		return 4
	case 8:
		return uint64(g.rng(5, 16))
	case 9:
		return []uint64{64, 4096, 1 << 32, 1 << 63, ^uint64(0)}[g.n(5)]
	}
	return uint64(g.rng(2, 6))
}

func (g *gen) operator(k int) {
	span := g.work
	for i := 0; i < k; i++ {
		at := uint64(1 + g.n(int(span)+2))
		if g.p(300) {
			at = uint64(1 + g.n(int(span/8)+2))
		}
		g.sc.Oper = append(g.sc.Oper, GorSet{at, g.gorValue()})
	}
	o := g.sc.Oper
	for i := 1; i < len(o); i++ {
		for j := i; j > 0 && o[j].At < o[j-1].At; j-- {
			o[j], o[j-1] = o[j-1], o[j]
		}
	}
}

func (g *gen) client(ops ...Op) *Client {
	g.sc.Clients = append(g.sc.Clients, Client{Ops: ops})
	return &g.sc.Clients[len(g.sc.Clients)-1]
}

// pieces makes one collection cut into neighbouring parts, each sorted by its own client.
func (g *gen) pieces(typ string, k int, max int) {
	do := g.doFor(typ)
	limit, ins := g.limitOf(do, typ)
	var lens []int
	tot := g.n(3)
	start := tot
	for i := 0; i < k; i++ {
		l := g.length(limit, ins, max)
		lens = append(lens, l)
		tot += l
		g.count(l)
	}
	g.sc.Colls = append(g.sc.Colls, g.coll(typ, tot+g.n(3)))
	ci := len(g.sc.Colls) - 1
	ord := g.str("asc", "desc", "mod")
	for _, l := range lens {
		op := Op{Do: do, C: ci, Lo: start, Hi: start + l, Use: g.p(300)}
		if do == "lsw" {
			op.Ord = ord
		}
		start += l
		c := g.client(op)
		c.Delay = uint64(g.pick(0, 0, 0, 5, 50, 500))
	}
}

func (g *gen) query(ci int, n int) Op {
	c := &g.sc.Colls[ci]
	lo, hi := 0, n
	if g.p(300) && n > 0 {
		lo = g.n(n)
		hi = lo + g.n(n-lo+1)
	}
	op := Op{C: ci, Lo: lo, Hi: hi}
	switch g.doFor(c.Typ) {
	case "lsw":
		op.Do = "islsw"
		op.Ord = g.str("asc", "desc", "mod", "eq")
	case "len":
		op.Do = "islen"
	default:
		op.Do = "isslice"
	}
	if g.p(300) {
		op.Do, op.Ord = "search", ""
		op.K = g.pick(0, 1, hi-lo, hi-lo-1, g.n(hi-lo+1), g.n(hi-lo+1), (hi-lo)/2)
	}
	return op
}

// genScenario derives run number run of a property.
func genScenario(prop, variant string, seed, run uint64) *Scenario {
	g := &gen{r: simrt.NewRNG(mixSeed(mixSeed(seed, hashS(prop+variant)), run))}
	sc := &Scenario{Prop: prop, Variant: variant, Run: run}
	g.sc = sc
	sc.Lim = g.genLimits(prop == "C14")
	sc.Gor = g.gorValue()
	if g.p(500) {
		sc.Gor = uint64(g.rng(2, 5))
	}
	sc.NaN = 1
	if g.p(200) {
		sc.NaN = g.pick(0, -1)
	}
	sc.Sched = g.r.U64()

	// sizes a single collection may have
	max := 1500
	switch variant {
	case "const":
		max = 12000
	case "coarse":
		max = 60000
		if prop != "C16" && g.p(40) {
			max = 300000
		}
		switch prop {
		case "C01", "C02", "C03", "C11", "C12":
			if g.p(1) {
				max = 1500000
			}
		}
	}
	small := max / 4

	if typ := killerTypes[prop]; len(typ) > 0 && variant == "tune" && g.p(2) {
		g.lopsided(typ[g.n(len(typ))], true)
		sc.Gor = uint64(g.pick(0, 1, 2, 3, 5))
		prop = ""
	}
	switch prop {
	case "":
	case "C01":
		g.plain(max, func() string { return sliceTypes[g.n(len(sliceTypes))] }, false)
	case "C02":
		g.plain(max, g.anyType, true)
	case "C03", "C04", "C05", "C06", "C09":
		if tunable && g.p(3) {
			g.crowd()
			break
		}
		if variant != "coarse" && prop != "C06" && g.p(2) {
			g.client(g.history(codeTypes[g.n(len(codeTypes))], false)...)
			max /= 4
		}
		g.plain(max, g.anyType, false)
		if prop == "C03" || prop == "C09" || prop == "C04" {
			for i := range sc.Clients {
				for k := range sc.Clients[i].Ops {
					op := &sc.Clients[i].Ops[k]
					op.Use = (prop != "C04" || g.p(200)) && isSort(op.Do)
				}
			}
		}
		if prop == "C06" && g.p(400) {
			sc.Gor = uint64(g.n(2))
		}
		if (prop == "C04" || prop == "C05" || prop == "C03") && g.p(400) {
			g.operator(1 + g.n(4))
		}
		if prop == "C09" && g.p(200) {
			g.operator(1 + g.n(3))
		}
	case "C07":
		g.plain(max, g.anyType, false)
		switch g.n(4) {
		case 0: // lower once, with a lot of work left
			sc.Gor = uint64(g.rng(2, 6))
			sc.Oper = []GorSet{{uint64(1 + g.n(int(g.work/6)+2)), uint64(g.n(int(sc.Gor)))}}
		case 1: // storm
			g.operator(10 + g.n(60))
		default:
			g.operator(1 + g.n(8))
		}
	case "C08":
		if variant != "coarse" && g.p(3) {
			typ := codeTypes[g.n(len(codeTypes))]
			for k := g.rng(1, 3); k > 0; k-- {
				g.client(g.history(typ, false)...)
			}
			if g.p(500) {
				g.client(g.sortOp(typ, max))
				break
			}
		}
		switch g.n(4) {
		case 0, 1:
			g.pieces(g.anyType(), g.rng(2, 6), small)
			if g.p(300) {
				g.pieces(g.anyType(), 2, small)
			}
		case 2: // nested
			for k := g.rng(1, 2); k > 0; k-- {
				op := g.sortOp("lsw", small)
				g.nestSpec(&op, small/2)
				op.Use = g.p(300)
				g.client(op)
			}
			if g.p(500) {
				g.client(g.sortOp(g.anyType(), small))
			}
		default:
			for k := g.rng(2, 5); k > 0; k-- {
				a := g.sortOp(g.anyType(), small)
				b := g.sortOp(g.anyType(), small)
				a.Use, b.Use = g.p(300), g.p(300)
				g.client(a, b)
			}
		}
	case "C10":
		g.plain(max, func() string { return "lsw" }, false)
		for i := range sc.Clients {
			for k := range sc.Clients[i].Ops {
				op := &sc.Clients[i].Ops[k]
				if op.Do != "lsw" {
					continue
				}
				if g.p(150) {
					g.stall(op)
				}
				if g.p(60) && variant == "tune" && op.Hi-op.Lo < 800 {
					op.Ord = "adv"
				}
			}
			if g.p(100) {
				cl := &sc.Clients[i]
				cl.Ops = append(cl.Ops, g.nothing("Sort"))
			}
		}
	case "C11":
		g.plain(max, func() string { return lenTypes[g.n(len(lenTypes))] }, false)
	case "C12":
		g.plain(max, func() string { return g.str("f32", "f64", "f32", "f64", "nf64") }, true)
		sc.NaN = g.pick(1, 1, -1)
		for i := range sc.Colls {
			sc.Colls[i].Nan = g.pick(0, 1, 10, 100, 300, 500, 900, 1000)
		}
		for i := range sc.Clients {
			ops := sc.Clients[i].Ops
			var out []Op
			for _, op := range ops {
				if g.p(300) {
					q := op
					q.Do, q.Use = "isslice", false
					out = append(out, q)
				}
				out = append(out, op)
				if op.Do == "slice" {
					q := op
					q.Do, q.Use = "isslice", false
					out = append(out, q)
				}
			}
			sc.Clients[i].Ops = out
		}
	case "C13":
		for k := g.rng(1, 3); k > 0; k-- {
			typ := g.anyType()
			limit, ins := g.limitOf(g.doFor(typ), typ)
			n := g.length(limit, ins, small)
			long := variant != "coarse" && g.p(50)
			if long {
				n = g.rng(1000, 20000)
			}
			c := g.coll(typ, n)
			if long || g.p(200) {
				c.Pat, c.Mod, c.Off = g.str("dip", "dip", "dip", "asc"), 1+g.pick(0, 0, g.n(9)), 0
			} else if g.p(600) {
				c.Pat = g.str("asc", "equal", "asc", "nearly", "desc", "rot")
				c.Mod = 1 + g.n(4)
				c.Off = 0
			}
			if (typ == "f32" || typ == "f64" || typ == "nf64") && g.p(600) {
				c.Nan = g.pick(1, 20, 300, 1000)
			}
			sc.Colls = append(sc.Colls, c)
			ci := len(sc.Colls) - 1
			first := Op{}
			if !long && g.p(500) { // sorted by the first client, which then lets the others in
				first = Op{Do: g.doFor(typ), C: ci, Lo: 0, Hi: n}
				if first.Do == "lsw" {
					first.Ord = "asc"
				}
				g.count(n)
			}
			if first.Do != "" {
				cl := g.client(first)
				for q := g.rng(1, 4); q > 0; q-- {
					cl.Ops = append(cl.Ops, g.query(ci, n))
				}
				g.count(n / 2)
			} else {
				for m := g.rng(1, 4); m > 0; m-- {
					cl := g.client()
					for q := g.rng(1, 4); q > 0; q-- {
						cl.Ops = append(cl.Ops, g.query(ci, n))
					}
					g.count(n / 2)
				}
			}
		}
		if g.p(500) {
			g.client(g.sortOp(g.anyType(), small))
		}
		if g.p(200) {
			cl := &sc.Clients[g.n(len(sc.Clients))]
			cl.Ops = append(cl.Ops, g.nothing("IsSorted", "Search"))
		}
		for k := g.pick(0, 0, 1, 2, 3); k > 0; k-- { // searches in collections of any length
			op := Op{Do: "vsearch", N: g.bigInt()}
			op.K = op.N - g.n(5)
			switch g.n(4) {
			case 0:
				op.K = g.n(5)
			case 1:
				op.K = op.N/2 + g.rng(-2, 2)
			case 2:
				op.K = int(g.r.U64() % (uint64(op.N) + 2))
			}
			cl := &sc.Clients[g.n(len(sc.Clients))]
			cl.Ops = append(cl.Ops, op)
		}
		sc.NaN = g.pick(1, 1, -1)
		if g.p(150) { // ignored NaNs make the result of sorting undefined: queries only
			ok := true
			for _, cl := range sc.Clients {
				for _, op := range cl.Ops {
					ok = ok && (!isSort(op.Do) || sc.Colls[op.C].Nan == 0)
				}
			}
			if ok {
				sc.NaN = 0
			}
		}
	case "C14":
		g.plain(max, g.anyType, false)
		if g.p(150) {
			g.operator(1 + g.n(4))
		}
	case "C15":
		if variant != "coarse" && g.p(20) {
			g.quota(max)
			break
		}
		op := g.sortOp("lsw", small)
		n := op.Hi - op.Lo
		op.PanicAt = uint64(1 + g.n(n*8+2))
		if g.p(400) {
			op.PanicAt = uint64(1 + g.n(40))
		}
		if g.p(200) {
			g.nestSpec(&op, small/3)
			if op.NestOp.Do == "lsw" && g.p(500) {
				op.NestOp.PanicAt = uint64(1 + g.n(op.NestOp.Hi*4+2))
				op.NestOp.PanicKind = g.n(10)
			}
		}
		if g.p(150) {
			g.stall(&op)
		}
		op.PanicKind, op.PanicLate = g.n(10), g.p(300)
		cl := g.client(op)
		if g.p(700) { // later calls of the same goroutine
			o2 := g.sortOp(g.anyType(), small)
			o2.Use = g.p(300)
			g.sc.Clients[0].Ops = append(g.sc.Clients[0].Ops, o2)
		}
		_ = cl
		for k := g.n(4); k > 0; k-- {
			o := g.sortOp(g.anyType(), small)
			if o.Do == "lsw" && g.p(300) {
				o.PanicAt = uint64(1 + g.n((o.Hi-o.Lo)*6+2))
				o.PanicKind, o.PanicLate = g.n(10), g.p(300)
			} else {
				o.Use = g.p(300)
			}
			g.client(o)
		}
		if g.p(200) {
			g.operator(1 + g.n(3))
		}
	case "C16":
		g.memory(max)
	case "C18":
		for k := g.rng(1, 4); k > 0; k-- {
			cl := g.client()
			cl.Delay = uint64(g.pick(0, 0, 10, 300))
			for m := g.rng(2, 10); m > 0; m-- {
				cl.Ops = append(cl.Ops, Op{Do: "misuse", Fn: anyFuncs[g.n(4)], K: g.n(len(argTypes)), N: g.pick(0, 1, 2, 5, 20, g.n(200)), Seed: g.r.U64()})
			}
			g.count(100)
		}
		if g.p(500) {
			g.client(g.sortOp(g.anyType(), small))
		}
	case "C19":
		g.start()
		for k := g.rng(1, 2); k > 0; k-- {
			g.client(g.sortOp(g.anyType(), small))
		}
	case "C17":
		g.quota(max)
	case "C20":
		g.plain(max, func() string { return refTypes[g.n(len(refTypes))] }, false)
		g.collections(g.rng(1, 6))
	default:
		fatal("unknown property %s", prop)
	}
	sc.Size = int(g.work) + 10
	if sc.Cap == 0 {
		sc.Cap = 2000000 + uint64(g.work)*60
		for i := range sc.Clients {
			for _, op := range sc.Clients[i].Ops {
				n := uint64(op.Hi - op.Lo)
				if op.Do == "lsw" || variant != "coarse" {
					sc.Cap += 20 * n * n
				}
				sc.Cap += uint64(op.StallMax) * op.StallLen
			}
		}
		for _, o := range sc.Oper {
			if o.At > sc.Cap/2 {
				sc.Cap = o.At * 2
			}
		}
	}
	return sc
}

// crowd: one call with as many goroutines as its length allows.
func (g *gen) crowd() {
	sc := g.sc
	sc.Lim = [4]int{10, 9, 22, 21}
	sc.Gor = []uint64{48, 65, 100, 128, 129, 200, 257, 1 << 20, 1 << 63, ^uint64(0)}[g.n(10)]
	typ := codeTypes[g.n(len(codeTypes))]
	op := g.sortOpN(typ, g.rng(5000, 40000))
	c := &sc.Colls[op.C]
	c.Pat, c.Spec, c.Mod = g.str("rand", "perm"), 0, 5
	if g.doFor(typ) == "len" {
		c.Pat = "rand"
	}
	if op.Do == "lsw" {
		op.Ord = g.str("asc", "desc")
	}
	op.Use = sc.Prop != "C04" && g.p(500)
	sc.Pol = g.str("fair", "breadth", "breadth", "breadth", "breadth", "parent", "")
	sc.Size = 1 << 20
	g.client(op)
}

// plain: one to a few clients with one or two sorting calls each.
func (g *gen) plain(max int, typ func() string, nan bool) {
	nc := 1
	if g.p(350) {
		nc = g.rng(2, 4)
		max /= nc
	}
	if g.p(80) {
		g.pieces(typ(), g.rng(2, 4), max/2)
	} else {
		for i := 0; i < nc; i++ {
			op := g.sortOp(typ(), max)
			op.Use = g.p(200)
			if op.Do == "lsw" && g.p(80) {
				g.nestSpec(&op, max/4)
			}
			if op.Do == "lsw" && g.p(60) {
				g.stall(&op)
			}
			c := g.client(op)
			c.Delay = uint64(g.pick(0, 0, 0, 10, 300))
			if g.p(250) {
				o2 := g.sortOp(typ(), max/2)
				if g.p(300) {
					o2 = op
				}
				c := &g.sc.Clients[len(g.sc.Clients)-1]
				c.Ops = append(c.Ops, o2)
			}
		}
	}
	if nan && g.sc.NaN != 0 {
		for i := range g.sc.Colls {
			g.sc.Colls[i].Nan = g.pick(0, 20, 300)
		}
	}
	if g.p(100) {
		g.operator(1 + g.n(3))
	}
}

// memory: inputs and comparators that defeat pivots.
func (g *gen) memory(max int) {
	sc := g.sc
	if sc.Variant == "coarse" {
		typ := g.anyType()
		n := g.rng(max/2, max*3)
		op := g.sortOpN(typ, n)
		sc.OpAlloc = true
		if g.p(400) {
			sc.Gor = 1
		}
		if op.Do != "lsw" {
			sc.Colls[0].Pat = g.str("rand", "perm", "geo", "few", "organ", "asc", "equi")
		} else if op.Ord == "mod" {
			op.Ord = "asc"
		}
		if sc.Gor > 1 {
			sc.Pol = g.str("child", "parent") // switches cost the simulator memory
		}
		g.client(op)
		return
	}
	if tunable {
		if x := g.n(1000); x < 17 {
			typ := "lsw"
			if x < 7 {
				typ = codeTypes[1+g.n(len(codeTypes)-1)]
			}
			g.lopsided(typ, false)
			return
		}
	}
	switch g.n(4) {
	case 0: // adversarial comparator
		n := g.rng(60, 700)
		if sc.Variant == "const" {
			n = g.rng(300, 2500)
		}
		op := g.sortOpN("lsw", n)
		op.Ord = "adv"
		g.client(op)
	case 1:
		op := g.sortOp(g.anyType(), max)
		sc.Colls[op.C].Pat = "geo"
		g.client(op)
	case 2:
		op := g.sortOp(g.anyType(), max)
		sc.Colls[op.C].Pat = g.str("equi", "outl", "organ", "few", "two", "equal")
		g.client(op)
	default:
		g.plain(max, g.anyType, false)
	}
	if g.p(400) {
		sc.Gor = uint64(g.n(2))
	}
}

// lopsided: every partition splits off little more than the recursion limit.
func (g *gen) lopsided(typ string, small bool) {
	sc := g.sc
	lsw := typ == "lsw"
	ins := 9 + g.n(3)
	sc.Lim = [4]int{ins + 1, ins, 2*ins + 4, 2*ins + 3}
	n := g.rng(1300, 1800)
	if lsw {
		n = g.rng(2500, 4000)
	}
	if small {
		n = g.rng(300, 700)
	}
	if g.p(500) { // of which recursion?
		if !lsw && !small {
			n = g.rng(900, 1200)
		}
		sc.Lim[2], sc.Lim[3] = n+1, n
	}
	sc.Gor = uint64(g.pick(0, 1, 1, 2, 3))
	do := g.doFor(typ)
	limit, insLim := g.limitOf(do, typ)
	k := limit + g.rng(1, 6)
	if limit >= n {
		k = insLim + g.rng(2, 8)
	}
	c := Coll{Typ: typ, N: n, Pat: "perm", Seed: g.r.U64()}
	op := Op{Do: do, C: len(sc.Colls), Hi: n}
	if lsw {
		op.Ord, op.Peel = "peel", k*g.rng(75, 100)/100
	} else {
		c.Vals = killer(typ, n, k, sc.Lim, c.Seed)
	}
	sc.Colls = append(sc.Colls, c)
	g.count(n)
	g.work *= 10
	g.client(op)
}

// quota: large spread inputs under schedules that free quota early or late.
func (g *gen) quota(max int) {
	sc := g.sc
	var ops []Op
	typ := g.anyType()
	if sc.Prop == "C15" && g.p(150) {
		ops = g.history("lsw", true)
		if g.p(500) {
			typ = "lsw"
		}
	} else if g.p(20) {
		typ = codeTypes[g.n(len(codeTypes))]
		ops = g.history(typ, false)
	}
	do := g.doFor(typ)
	limit, _ := g.limitOf(do, typ)
	n := limit * g.rng(20, 40)
	if sc.Variant == "const" {
		n = limit * g.rng(12, 20)
	}
	op := g.sortOpN(typ, n)
	c := &sc.Colls[op.C]
	c.Pat, c.Spec, c.Mod = g.str("rand", "perm"), 0, 5
	if do == "len" {
		c.Pat = "rand"
	}
	if do == "lsw" {
		op.Ord = g.str("asc", "desc")
	}
	op.Judge = true
	if len(ops) > 0 {
	} else if g.sc.Prop == "C15" { // the quota of later calls is whole
		bad := g.sortOp("lsw", max/3)
		bad.PanicAt = uint64(1 + g.n((bad.Hi-bad.Lo)*4+2))
		bad.PanicKind, bad.PanicLate = g.n(10), g.p(300)
		ops = append(ops, bad)
	} else if g.p(150) {
		for k := g.rng(1, 3); k > 0; k-- {
			ops = append(ops, g.sortOp(g.anyType(), max/4))
		}
	}
	g.client(append(ops, op)...)
	mode := g.n(4)
	if len(ops) > 0 {
		mode = g.pick(0, 0, 2, 3)
	}
	if len(ops) >= 10 { // turns are too long for the last call to be shared
		mode = g.pick(0, 3)
	}
	if g.p(150) { // calls of others have no part in it
		for k := g.rng(1, 2); k > 0; k-- {
			g.client(g.sortOp(g.anyType(), max/2))
		}
		mode = g.pick(0, 0, 3)
	}
	switch mode {
	case 0: // helpers finish as early as they can: quota is free again and again
		sc.Expect, sc.Pol = "reuse", "child"
		sc.Gor = uint64(g.rng(2, 4))
	case 1: // quota raised during the call
		sc.Expect, sc.Pol = "raise", "fair"
		sc.Gor = 2
		sc.Oper = []GorSet{{uint64(g.work / 60 * float64(1+g.n(6))), uint64(g.rng(6, 12))}}
	case 2: // everyone advances alike
		sc.Expect, sc.Pol = "share", "fair"
		sc.Gor = uint64(g.rng(2, 8))
	default: // any schedule
		sc.Expect = "some"
		sc.Gor = uint64(g.rng(2, 12))
	}
	if g.p(100) { // no limit at all
		huge := []uint64{1 << 16, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 62, 1 << 63, ^uint64(0)}[g.n(7)]
		if mode == 1 {
			sc.Oper[0].Val = huge
		} else {
			sc.Gor = huge
		}
	}
}

// history is a long sequence of short calls of one goroutine, most of them just long enough
// for goroutines; with fail, comparators panic.
func (g *gen) history(typ string, fail bool) []Op {
	sc := g.sc
	k := g.pick(20, 70, 70, 140, 300)
	if tunable {
		sc.Lim = [4]int{10, 9, 22, 21}
	} else if sc.Variant == "const" {
		k = g.pick(10, 20, 40)
	}
	if sc.Gor < 2 {
		sc.Gor = uint64(g.rng(2, 5))
	}
	limit, _ := g.limitOf(g.doFor(typ), typ)
	tiny := g.n(1000)
	var ops []Op
	for ; k > 0; k-- {
		n := 2*(limit+1) + g.n(limit)
		if g.p(tiny) {
			n = g.n(8)
		}
		op := g.sortOpN(typ, n)
		if fail {
			op.PanicAt = uint64(1 + g.n(n+2))
			if g.p(300) {
				op.PanicAt = uint64(1 + g.n(8*n+2))
			}
			op.PanicKind, op.PanicLate = g.n(10), g.p(300)
		}
		ops = append(ops, op)
	}
	return ops
}

// collections lets the garbage collector run k times.
func (g *gen) collections(k int) {
	slots := 1
	for i := range g.sc.Colls {
		slots += g.sc.Colls[i].N
	}
	at := 0.0
	for ; k > 0; k-- {
		c := Collect{Ord: g.n(4), Seed: g.r.U64(), Piece: g.pick(1, 4, 16, 64, 512, slots/2+1, slots)}
		if min := slots/400 + 1; c.Piece < min {
			c.Piece = min
		}
		span := g.work * []float64{0.01, 0.03, 0.08, 0.15, 0.3}[g.n(5)]
		c.Gap = 1 + uint64(span*float64(c.Piece)/float64(slots))
		if g.p(600) {
			at += g.work * float64(g.n(1000)) / 4000
		}
		c.At = uint64(at)
		at += span
		g.sc.GC = append(g.sc.GC, c)
	}
}

// nothing is a call without any work to do.
func (g *gen) nothing(fns ...string) Op {
	op := Op{Do: "nothing", Fn: g.str(fns...), K: g.n(2)}
	switch g.n(4) {
	case 0:
		op.N = math.MinInt + g.pick(0, 0, 1, 2, 3)
	case 1:
		op.N = -g.n(10)
	case 2:
		op.N = -g.bigInt()
	default:
		if op.Fn != "Search" {
			op.N = g.n(2)
		}
	}
	return op
}

// bigInt draws a length of any size.
func (g *gen) bigInt() int {
	switch g.n(6) {
	case 0:
		return math.MaxInt - g.n(3)
	case 1:
		return math.MaxInt/2 + g.rng(-2, 3)
	case 2:
		return g.n(20)
	}
	return int(g.r.U64()>>uint(1+g.n(60))) & math.MaxInt
}

// start draws start-up parameters, about half of them inconsistent, mostly by a hair.
func (g *gen) start() {
	sc := g.sc
	sc.Boot = true
	sc.Gor = uint64(g.pick(1, 2, 3, 4, 100, 4095, 4096))
	insFC := g.pick(9, 9, 10, 12, 30, 100, 1000)
	ins := insFC + g.pick(1, 1, 2, 5, 30)
	if g.p(120) {
		ins = math.MaxInt/2 - g.n(3)
		if g.p(500) {
			insFC = ins - 1 - g.n(2)
		}
	}
	recFC := 2*ins + g.pick(1, 1, 2, 40)
	if recFC < 0 || recFC == math.MaxInt {
		recFC = math.MaxInt - 1
	}
	rec := recFC + g.pick(1, 1, 2, 40)
	if g.p(100) {
		rec = math.MaxInt - g.n(2)
	}
	if rec < 0 {
		rec = math.MaxInt
	}
	for k := g.pick(0, 0, 1, 1, 1, 2); k > 0; k-- {
		switch g.n(6) {
		case 0:
			sc.Gor = []uint64{0, 0, 4097, 4098, 1 << 32, 1 << 63, ^uint64(0)}[g.n(7)]
		case 1:
			insFC = g.pick(8, 8, 7, 1, 0, -1, -100, math.MinInt, ins, ins+1)
		case 2:
			ins = g.pick(insFC, insFC, insFC-1, 0, -5, math.MinInt, recFC/2, recFC/2+1, recFC, math.MaxInt/2+1, math.MaxInt, math.MaxInt/2+2+insFC)
		case 3:
			recFC = g.pick(2*ins, 2*ins, 2*ins-1, ins, 0, -1, rec, rec+1, math.MinInt, math.MinInt+1, math.MaxInt)
		case 4:
			rec = g.pick(recFC, recFC, recFC-1, 0, -1, math.MinInt)
		default:
			d := g.pick(-1, 1)
			switch g.n(4) {
			case 0:
				ins += d
			case 1:
				insFC += d
			case 2:
				recFC += d
			default:
				rec += d
			}
		}
	}
	if tunable {
		sc.Lim = [4]int{ins, insFC, rec, recFC}
	}
}
