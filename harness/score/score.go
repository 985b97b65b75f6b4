// Package score checks the numbers: inverse document frequency and BM25.
// Integers are mathematical and every float operation carries an arbitrary rounding error of at most 2^-53 (no overflow within the bounds).
package score

import (
	"math"
	"strconv"

	"github.com/sira-serverless-ir-arch/goirlib/metric"
	"github.com/sira-serverless-ir-arch/goirlib/model"
	"github.com/sira-serverless-ir-arch/goirlib/similarity"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

func near(a, b, tol float64) bool {
	d := a - b
	lim := tol * (1 + b)
	return sym.And(d <= lim, -d <= lim)
}

// N documents with the field, n of them with the term.
func counts(what string, max int) (float64, float64, int) {
	n := sym.IntRange(what+"-with", 0, max)
	rest := sym.IntRange(what+"-without", 0, max)
	return float64(n + rest), float64(n), n
}

// The formula ln(1 + (N-n+0.5)/(n+0.5)).
func H_idf() {
	N, n, _ := counts("docs", 1<<26)
	idf := metric.IdfBM25(N, n)
	ref := math.Log(1 + (N-n+0.5)/(n+0.5))
	sym.Assert(near(idf, ref, 1e-3), "idf: far from the formula")
	sym.Assert(near(idf, ref, 1e-9), "idf: differs from the formula by more than rounding")
	sym.Reach("end")
}

// Always positive, never larger for a more frequent term, never smaller in a larger collection.
func H_idf_order() {
	N, n, _ := counts("docs", 1<<26)
	more := sym.IntRange("more", 1, 1<<20)
	a := metric.IdfBM25(N, n)
	sym.Assert(a > 0, "idf: not positive")
	if sym.Choose("which", 2) == 0 {
		sym.Assume(n+float64(more) <= N)
		sym.Assert(metric.IdfBM25(N, n+float64(more)) <= a+1e-9, "idf: a more frequent term weighs more")
	} else {
		sym.Assert(metric.IdfBM25(N+float64(more), n) >= a-1e-9, "idf: a term weighs less in a larger collection")
	}
	sym.Reach("end")
}

type input struct {
	N, avg    float64
	n, f, len int
	boost     float64
	k1, b     float64
}

func arbitrary() input {
	var x input
	x.n = sym.IntRange("with", 0, 1<<20)
	x.N = float64(x.n + sym.IntRange("without", 0, 1<<20))
	x.f = sym.IntRange("f", 0, 1<<20)
	x.len = sym.IntRange("len", 0, 1<<20)
	x.avg = float64(sym.IntRange("avg", 1, 1<<22)) * 0.25
	x.boost = []float64{1, 0, 2.5}[sym.Choose("boost", 3)]
	x.k1, x.b = 1.2, 0.75
	switch sym.Choose("params", 3) {
	case 1:
		x.k1, x.b = 2, 0.5
	case 2:
		x.k1, x.b = 1.2, 0
	}
	return x
}

func (x input) field() model.Field {
	return model.Field{Name: "text", Length: x.len, TF: map[string]int{"t": x.f, "other": 3}}
}

func (x input) score() float64 {
	return similarity.BM25([]string{"t"}, x.k1, x.b, x.boost, x.avg, x.N, map[string]int{"t": x.n, "u": 1}, x.field())
}

func (x input) formula(idf float64) float64 {
	boost := x.boost
	if boost == 0 {
		boost = 1
	}
	f := float64(x.f)
	return boost * idf * ((f * (x.k1 + 1)) / (f + x.k1*(1-x.b+x.b*(float64(x.len)/x.avg))))
}

// One term: boost * idf * f(k1+1) / (f + k1(1-b+b*len/avg)), a boost of 0 counting as 1.
func H_bm25() {
	x := arbitrary()
	got := x.score()
	want := x.formula(metric.IdfBM25(x.N, float64(x.n)))
	sym.Assert(near(got, want, 1e-3), "bm25: far from the formula")
	sym.Assert(near(got, want, 1e-9), "bm25: differs from the formula by more than rounding")
	sym.Reach("end")
}

// Several terms: the sum over the terms of the query, a repeated term counting each time and one that is not in the field counting nothing.
func H_bm25_sum() {
	f, g := sym.IntRange("f", 0, 1000), sym.IntRange("g", 0, 1000)
	l := sym.IntRange("len", 1, 10000)
	avg := float64(sym.IntRange("avg", 1, 10000))
	fd := model.Field{Name: "text", Length: l, TF: map[string]int{}}
	if f > 0 {
		fd.TF["t"] = f
	}
	if g > 0 {
		fd.TF["u"] = g
	}
	n, m := sym.IntRange("n", 0, 1000), sym.IntRange("m", 0, 1000)
	nd := map[string]int{"t": n, "u": m, "v": 5}
	queries := [][]string{{"t", "u"}, {"u", "t"}, {"t", "t"}, {"v", "t"}, {"t", "v", "u"}, {}, {"v"}, {"x"}}
	q := queries[sym.Choose("query", len(queries))]
	one := func(term string) float64 {
		k, c := f, n
		switch term {
		case "u":
			k, c = g, m
		case "v":
			k, c = 0, 5
		case "x":
			k, c = 0, 0
		}
		idf := metric.IdfBM25(5000, float64(c))
		return 1 * idf * ((float64(k) * (1.2 + 1)) / (float64(k) + 1.2*(1-0.75+0.75*(float64(l)/avg))))
	}
	want := 0.0
	for _, t := range q {
		want += one(t)
	}
	got := similarity.BM25(q, 1.2, 0.75, 1, avg, 5000, nd, fd)
	sym.Assert(near(got, want, 1e-3), "bm25: far from the sum over the terms")
	sym.Assert(near(got, want, 1e-9), "bm25: differs from the sum over the terms by more than rounding")
	sym.Reach("end")
}

// Queries of many terms.
func H_bm25_many() {
	n := []int{12, 33, 70, 300}[sym.Choose("terms", 4)]
	k := sym.Choose("from", 3)
	boost := []float64{1, 0, 2.5}[sym.Choose("boost", 3)]
	fd := model.Field{Name: "text", Length: 3000, TF: map[string]int{}}
	df := map[string]int{}
	var q []string
	want := 0.0
	for i := 0; i < n; i++ {
		t := "t" + strconv.Itoa(i)
		q = append(q, t)
		df[t] = i * 7 % 400
		if i%3 == k {
			continue
		}
		f := 1 + i*i%90
		fd.TF[t] = f
		idf := math.Log(1 + (400-float64(df[t])+0.5)/(float64(df[t])+0.5))
		want += idf * float64(f) * 2.2 / (float64(f) + 1.2*(0.25+0.75*3000/812.5))
	}
	if boost != 0 {
		want *= boost
	}
	got := similarity.BM25(q, 1.2, 0.75, boost, 812.5, 400, df, fd)
	sym.Assert(math.Abs(got-want) <= 1e-9*want, "bm25: differs from the sum over many terms by more than rounding")
	sym.Reach("end")
}

// The score is never negative, and positive exactly if the term is in the field.
func H_bm25_sign() {
	x := arbitrary()
	got := x.score()
	sym.Assert(got >= 0, "bm25: negative")
	sym.Assert(sym.Iff(got > 0, x.f > 0), "bm25: positive exactly for a term of the field")
	sym.Reach("end")
}

// More occurrences never lower the score, a longer field never raises it.
func H_bm25_order() {
	x := arbitrary()
	x.boost, x.k1, x.b = 1, 1.2, 0.75
	y := x
	more := sym.IntRange("more", 1, 1<<20)
	a := x.score()
	if sym.Choose("which", 2) == 0 {
		y.f += more
		b := y.score()
		sym.Assert(b >= a-1e-9*(1+a), "bm25: more occurrences lower the score")
	} else {
		y.len += more
		b := y.score()
		sym.Assert(b <= a+1e-9*(1+a), "bm25: a longer field raises the score")
	}
	sym.Reach("end")
}
