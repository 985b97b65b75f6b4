package main

import (
	"math"
	"net/url"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/sira-serverless-ir-arch/goirlib/zzverif/alike"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
	gin "github.com/sira-serverless-ir-arch/goirlib/zzverif/vgin"
	"github.com/sira-serverless-ir-arch/porter2"
)

func zzDeep(quick, thorough int) int {
	if sym.Deep() {
		return thorough
	}
	return quick
}

// zzDoc is a document that was posted; title and text are words that preprocessing keeps as they are.
type zzDoc struct {
	id          string
	title, text []string
}

var zzWords = []string{"sun", "star", "moon", "comet"}

func zzWord(what string, n int) string { return zzWords[sym.Choose(what, n)] }

func zzPost(d zzDoc) *gin.Response {
	return gin.Serve("POST", "/nir", nil, map[string]any{"id": d.id, "title": strings.Join(d.title, " "), "text": strings.Join(d.text, " ")})
}

func zzCount(l []string, t string) int {
	n := 0
	for _, x := range l {
		if x == t {
			n++
		}
	}
	return n
}

// zzScore is the definition of the score of document d.
func zzScore(l []zzDoc, d zzDoc, terms []string) (float64, bool) {
	total, hit := 0.0, false
	for f := 0; f < 2; f++ {
		field := func(d zzDoc) []string {
			if f == 0 {
				return d.title
			}
			return d.text
		}
		length := 0
		for _, o := range l {
			length += len(field(o))
		}
		N := float64(len(l))
		for _, t := range terms {
			n := 0
			for _, o := range l {
				if zzCount(field(o), t) > 0 {
					n++
				}
			}
			c := zzCount(field(d), t)
			if c == 0 {
				continue
			}
			hit = true
			idf := math.Log(1 + (N-float64(n)+0.5)/(float64(n)+0.5))
			tf := float64(c)
			total += idf * tf * 2.2 / (tf + 1.2*(0.25+0.75*float64(len(field(d)))/(float64(length)/N)))
		}
	}
	return total, hit
}

func zzGet(terms []string) (*gin.Response, []any, float64) {
	return zzRead(gin.Serve("GET", "/nir", url.Values{"query": {strings.Join(terms, " ")}}, nil))
}

func zzRead(r *gin.Response) (*gin.Response, []any, float64) {
	sym.Assert(r.Status == 200, "http: status of a search")
	body, ok := r.Body.(map[string]any)
	sym.Assert(ok && r.Wrote == 1, "http: a search has no answer")
	list, _ := body["queryResults"].([]any)
	total, _ := body["total"].(float64)
	return r, list, total
}

// zzCheck searches for terms and compares the answer with the documents posted.
func zzCheck(l []zzDoc, terms []string) {
	zzAnswer(l, terms, gin.Serve("GET", "/nir", url.Values{"query": {strings.Join(terms, " ")}}, nil))
}

func zzAnswer(l []zzDoc, terms []string, r *gin.Response) {
	_, list, total := zzRead(r)
	hits := 0
	var scores []float64
	for _, d := range l {
		if s, hit := zzScore(l, d, terms); hit {
			hits++
			scores = append(scores, s)
		}
	}
	want := hits
	if want > 10 {
		want = 10
	}
	sym.Assert(len(list) == want, "http: number of results (at most ten)")
	sym.Assert(total == float64(len(list)), "http: total in the answer")
	last := math.Inf(1)
	seen := map[string]bool{}
	for _, x := range list {
		m := x.(map[string]any)
		sim, _ := m["similarity"].(float64)
		doc, _ := m["document"].(map[string]any)
		id, _ := doc["id"].(string)
		sym.Assert(!seen[id], "http: a document is found twice")
		seen[id] = true
		sym.Assert(sim <= last, "http: order of the results")
		last = sim
		found := false
		for _, d := range l {
			if d.id == id {
				s, hit := zzScore(l, d, terms)
				found = hit && math.Abs(s-sim) <= 1e-9*(1+s)
			}
		}
		sym.Assert(found, "http: a result with its score")
	}
	// the best ones, in order
	sort.Sort(sort.Reverse(sort.Float64Slice(scores)))
	for i, x := range list {
		sim, _ := x.(map[string]any)["similarity"].(float64)
		sym.Assert(math.Abs(sim-scores[i]) <= 1e-9*(1+sim), "http: a better document is left out")
	}
}

// Documents that were accepted are found by searches for their words, with the scores of BM25.
func H_http() {
	main()
	var l []zzDoc
	for i := 0; i < 2; i++ {
		d := zzDoc{id: string(rune('p' + i))}
		d.title = append(d.title, zzWord("title", 2))
		for j := 0; j < 1+i; j++ {
			d.text = append(d.text, zzWord("text", zzDeep(2, 3)))
		}
		r := zzPost(d)
		sym.Assert(r.Status == 201 && r.Wrote == 1, "http: a document is not accepted")
		l = append(l, d)
	}
	q := []string{zzWord("query", 3)}
	if sym.Choose("two", 2) == 1 {
		q = append(q, zzWord("query", 2))
	}
	zzCheck(l, q)
	sym.Reach("end")
}

// A document that was accepted is found from then on, under every schedule.
func H_http_schedules() {
	main()
	l := []zzDoc{{"a", []string{"moon"}, []string{"sun"}}, {"b", []string{"star"}, []string{"moon", "sun"}}}
	sym.SetCPUs(1)
	sym.Explore(zzDeep(1, 2))
	zzPost(l[0])
	zzPost(l[1])
	zzCheck(l, []string{"moon"})
	sym.StopExplore()
	sym.Reach("end")
}

// More than ten hits: the ten best, in order.
func H_http_many() {
	main()
	n := []int{9, 10, 11, 12, 26}[sym.Choose("docs", 5)]
	extra := sym.Choose("extra", zzDeep(2, 8))
	var l []zzDoc
	for i := 0; i < n; i++ {
		d := zzDoc{id: "id" + string(rune('a'+i)), title: []string{"moon"}, text: []string{"sun"}}
		for j := 0; j < i; j++ {
			d.text = append(d.text, "star")
		}
		if i == extra {
			d.text = append(d.text, "comet", "sun")
		}
		sym.Assert(zzPost(d).Status == 201, "http: a document is not accepted")
		l = append(l, d)
	}
	q := []string{"sun", zzWord("query", 4)}
	switch sym.Choose("more", 3) {
	case 1:
		q = append(q, "comet")
	case 2:
		q = []string{"moon", "comet", "nebula", "sun", "star", "sun"}
	}
	zzCheck(l, q)
	sym.Reach("end")
}

// Documents with the same words, all or in two groups.
func H_http_ties() {
	main()
	n := []int{2, 3, 4, 6, 10, 11, 13}[sym.Choose("docs", 7)]
	other := sym.Choose("other", n+1)
	var l []zzDoc
	for i := 0; i < n; i++ {
		d := zzDoc{id: "id" + string(rune('a'+i)), title: []string{"moon"}, text: []string{"sun", "star"}}
		if i >= other {
			d.title, d.text = []string{"star"}, []string{"moon", "moon"}
		}
		sym.Assert(zzPost(d).Status == 201, "http: a document is not accepted")
		l = append(l, d)
	}
	zzCheck(l, [][]string{{"moon"}, {"sun", "moon"}, {"star"}}[sym.Choose("query", 3)])
	sym.Reach("end")
}

// Documents whose ids are easily taken for one.
func H_http_alike() {
	main()
	p := alike.Pairs[sym.Choose("pair", len(alike.Pairs))]
	i := sym.Choose("swap", 2)
	var l []zzDoc
	for _, id := range []string{p[i], p[1-i]} {
		if id == "" || !utf8.ValidString(id) { // JSON text has no other characters
			id = "-"
		}
		l = append(l, zzDoc{id, []string{"moon"}, []string{"sun"}})
	}
	l[1].text = append(l[1].text, "star")
	for _, d := range l {
		sym.Assert(zzPost(d).Status == 201, "http: a document is not accepted")
	}
	if l[0].id != l[1].id {
		zzCheck(l, []string{"moon", "star"})
	}
	sym.Reach("end")
}

// A document that is sent again is found by its new words, once.
func H_http_again() {
	main()
	l := []zzDoc{{"a", []string{zzWord("title", 2)}, []string{"sun"}}, {"b", []string{"moon"}, []string{"sun", "moon"}}, {"a", []string{zzWord("title", 2)}, []string{"star", zzWord("text", 4)}}}
	for _, d := range l {
		r := zzPost(d)
		sym.Assert(r.Status == 201 && r.Wrote == 1, "http: a document is not accepted")
	}
	for _, terms := range [][]string{l[2].title, {"star"}, {l[2].text[1], "comet"}} {
		_, list, total := zzGet(terms)
		n := 0
		for _, x := range list {
			if doc, _ := x.(map[string]any)["document"].(map[string]any); doc["id"] == "a" {
				n++
			}
		}
		sym.Assert(n == 1, "http: a document that was sent again is not found once")
		sym.Assert(total == float64(len(list)), "http: total in the answer")
	}
	sym.Reach("end")
}

// A document without an id, or a body that is not JSON, is refused and not indexed; any other id is accepted and given back.
func H_http_accept() {
	main()
	gin.SentAs = []string{"application/json", "", "application/x-www-form-urlencoded", "application/json; charset=utf-8", "text/plain"}[sym.Choose("sent as", 5)]
	id := sym.String("id", sym.Choose("idlen", 3))
	for i := 0; i < len(id); i++ {
		sym.Assume(sym.And(id[i] >= ' ', id[i] < 0x7f))
	}
	r := zzPost(zzDoc{id: id, title: []string{"moon"}, text: []string{"sun"}})
	if id == "" {
		sym.Assert(r.Status == 400 && r.Wrote == 1, "http: a document without an id is accepted")
	} else {
		sym.Assert(r.Status == 201 && r.Wrote == 1, "http: a document is not accepted")
	}
	bad := gin.Serve("POST", "/nir", nil, nil)
	sym.Assert(bad.Status == 400 && bad.Wrote == 1, "http: a body that is not JSON is accepted")
	for _, other := range []any{true, 7.0, nil, []any{"x"}, map[string]any{"x": "y"}} {
		bad = gin.Serve("POST", "/nir", nil, map[string]any{"id": other, "title": "moon", "text": "sun"})
		sym.Assert(bad.Status == 400 && bad.Wrote == 1, "http: an id that is not a string is accepted")
	}
	_, list, _ := zzGet([]string{"moon"})
	if id == "" {
		sym.Assert(len(list) == 0, "http: a refused document is found")
	} else {
		sym.Assert(len(list) == 1, "http: an accepted document is not found")
		doc, _ := list[0].(map[string]any)["document"].(map[string]any)
		sym.Assert(doc["id"] == id, "http: the id of a document")
	}
	sym.Reach("end")
}

// Documents with empty or missing titles and texts, or entries of other names, are accepted; the empty field counts.
func H_http_shapes() {
	main()
	var l []zzDoc
	for i := 0; i < 2; i++ {
		d := zzDoc{id: string(rune('p' + i)), title: []string{"moon"}, text: []string{"sun", zzWord("text", 2)}}
		body := map[string]any{"id": d.id, "title": "moon", "text": strings.Join(d.text, " ")}
		switch sym.Choose("shape", 8) {
		case 1:
			d.title = nil
			body["title"] = ""
		case 2:
			d.title = nil
			delete(body, "title")
		case 3:
			d.text = nil
			body["text"] = ""
		case 4:
			d.text = nil
			delete(body, "text")
		case 5:
			d.title, d.text = nil, nil
			delete(body, "title")
			body["text"] = " . "
		case 6:
			body["author"] = "moon"
			body["year"] = 2023.0
		case 7:
			d.title = nil
			body["title"] = nil
		}
		r := gin.Serve("POST", "/nir", nil, body)
		sym.Assert(r.Status == 201 && r.Wrote == 1, "http: a document with an id is not accepted")
		l = append(l, d)
	}
	zzCheck(l, []string{"moon", zzWord("query", 3)})
	sym.Reach("end")
}

// Words are found in whatever form the document and the query have them.
func H_http_forms() {
	main()
	texts := []string{"The Galaxies of André", "galaxy; GALAXIES... andre?", "a galaxy named Andre's galaxy", "running and runs"}
	a, b := sym.Choose("first", len(texts)), sym.Choose("second", len(texts))
	var stems [][]string
	for _, w := range texts {
		stems = append(stems, Preprocessing(w)) // checked with C29
	}
	l := []zzDoc{{"1", stems[3], stems[a]}, {"2", stems[a], stems[b]}}
	sym.Assert(gin.Serve("POST", "/nir", nil, map[string]any{"id": "1", "title": texts[3], "text": texts[a]}).Status == 201, "http: a document is not accepted")
	sym.Assert(gin.Serve("POST", "/nir", nil, map[string]any{"id": "2", "title": texts[a], "text": texts[b]}).Status == 201, "http: a document is not accepted")
	q := []string{"GALAXY", "galaxies", "andré", "Runs, the running", "of the galaxy", "Andre"}[sym.Choose("query", 6)]
	terms := Preprocessing(q)
	r := gin.Serve("GET", "/nir", url.Values{"query": {q}}, nil)
	zzAnswer(l, terms, r)
	r = gin.Serve("GET", "/nir", url.Values{"other": {"moon"}, "query": {q, "moon"}}, nil)
	zzAnswer(l, terms, r)
	sym.Reach("end")
}

// Queries of all kinds are answered, the empty one with nothing.
func H_http_queries() {
	main()
	if sym.Choose("docs", 2) == 1 {
		zzPost(zzDoc{id: "1", title: []string{"moon"}, text: []string{"sun", "the"}})
	}
	for i := 0; i < 2; i++ {
		q := sym.String("query", sym.Choose("len", zzDeep(2, 3)))
		for i := 0; i < len(q); i++ {
			sym.Assume(sym.And(q[i] >= ' ', q[i] < 0x7f))
		}
		_, list, total := zzGet([]string{q})
		sym.Assert(len(list) == 0 && total == 0, "http: a word that no document has is found")
	}
	_, list, _ := zzGet([]string{"the"})
	sym.Assert(len(list) == 0, "http: a stop word is found")
	sym.Reach("end")
}

// Requests at the same time: no data races, accepted documents are found.
func H_http_concurrent() {
	main()
	l := []zzDoc{{"a", []string{"moon"}, []string{"sun"}}, {"b", []string{"star"}, []string{"moon", "sun"}}, {"c", []string{"moon"}, []string{"comet"}}}
	zzPost(l[0])
	sym.SetCPUs(1)
	sym.Races(true)
	sym.Explore(zzDeep(1, 2))
	done := make(chan bool, 3)
	go func() {
		sym.Assert(zzPost(l[1]).Status == 201, "http: a document is not accepted")
		done <- true
	}()
	go func() {
		sym.Assert(zzPost(l[2]).Status == 201, "http: a document is not accepted")
		done <- true
	}()
	go func() {
		_, list, _ := zzGet([]string{"moon"})
		sym.Assert(len(list) >= 1 && len(list) <= 3, "http: a document posted before the search is found")
		done <- true
	}()
	<-done
	<-done
	<-done
	sym.StopExplore()
	zzCheck(l, []string{"moon"})
	sym.Reach("end")
}

// Searches at the same time.
func H_http_searches() {
	main()
	l := []zzDoc{{"a", []string{"moon"}, []string{"sun"}}, {"b", []string{"star"}, []string{"moon", "sun"}}}
	zzPost(l[0])
	sym.SetCPUs(1)
	sym.Races(true)
	sym.Explore(zzDeep(1, 2))
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		q := []string{"moon", "sun"}[i]
		go func() {
			_, list, _ := zzGet([]string{q})
			sym.Assert(len(list) == 1, "http: a document posted before the searches is found")
			done <- true
		}()
	}
	<-done
	<-done
	sym.StopExplore()
	zzPost(l[1])
	zzCheck(l, []string{"moon", "sun"})
	sym.Reach("end")
}

// What was accepted and written is found after a restart of the service, together with what is posted then.
func H_http_restart() {
	l := []zzDoc{{"a/b", []string{"moon"}, []string{"sun"}}, {"..", []string{"star"}, []string{"moon", "sun"}}, {"c", []string{zzWord("title", 3)}, []string{"comet", "comet"}}}
	q := []string{zzWord("query", 4), "sun"}
	n := sym.Choose("before", 3) + 1
	r := sym.Process(func() {
		main()
		for _, d := range l[:n] {
			sym.Assert(zzPost(d).Status == 201, "http: a document is not accepted")
		}
		time.Sleep(30 * time.Second)
	}, false)
	sym.Assert(r == 1, "http: the service ends on its own")
	r = sym.Process(func() {
		main()
		zzCheck(l[:n], q)
		for _, d := range l[n:] {
			sym.Assert(zzPost(d).Status == 201, "http: a document is not accepted after a restart")
		}
		zzCheck(l, q)
		time.Sleep(30 * time.Second)
	}, false)
	sym.Assert(r == 1, "http: the service does not start again")
	r = sym.Process(func() {
		main()
		zzCheck(l, q)
	}, false)
	sym.Assert(r == 1, "http: the service does not start a third time")
	sym.Reach("end")
}

// Long texts, long queries and long ids.
func H_http_long() {
	main()
	n := zzDeep(700, 2000)
	var l []zzDoc
	for i := 0; i < 3; i++ {
		d := zzDoc{id: strings.Repeat("long-id", 20) + string(rune('a'+i)), title: []string{"moon"}}
		for j := 0; j < 30+n*(i%2); j++ {
			d.text = append(d.text, "sun")
		}
		for j := 0; j < 40*i; j++ {
			d.title = append(d.title, "comet")
		}
		d.text = append(d.text, zzWord("last", 4))
		if i == 1 {
			d.text = append(d.text, strings.Repeat("x", 3000))
		}
		sym.Assert(zzPost(d).Status == 201, "http: a long document is not accepted")
		l = append(l, d)
	}
	q := []string{"sun"}
	switch sym.Choose("query", 3) {
	case 1:
		for i := 0; i < 40; i++ {
			q = append(q, "word"+string(rune('0'+i%10)))
		}
		q = append(q, "star")
	case 2:
		q = []string{strings.Repeat("x", 3000), "moon"}
	}
	zzCheck(l, q)
	sym.Reach("end")
}

var zzStop = []string{"a", "an", "and", "are", "as", "at", "be", "but", "by", "for", "if", "in", "into", "is", "it", "no", "not", "of", "on", "or", "such", "that", "the", "their", "then", "there", "these", "they", "this", "to", "was", "will", "with"}

// The terms of a text are the stems of its words in lower case that are not stop words, in order.
func H_preprocess() {
	preprocess(zzDeep(2, 3), func(c byte) bool {
		return sym.Or(c == ' ', c == '-', sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'), c == '7')
	})
}

// Longer texts over few letters.
func H_preprocess_long() {
	preprocess(zzDeep(4, 5), func(c byte) bool { return sym.Or(c == ' ', c == 's', c == 'A', c == 'i', c == 'e') })
}

func preprocess(n int, in func(byte) bool) {
	t := sym.String("text", n)
	for i := 0; i < n; i++ {
		sym.Assume(in(t[i]))
	}
	var words []string
	start := 0
	for i := 0; i <= n; i++ {
		if i < n && t[i] != ' ' && t[i] != '-' {
			continue
		}
		if i > start {
			b := make([]byte, i-start)
			for j := range b {
				c := t[start+j]
				b[j] = sym.IteByte(sym.And(c >= 'A', c <= 'Z'), c+0x20, c)
			}
			w := string(b)
			stop := false
			for _, s := range zzStop {
				if len(s) == len(w) {
					stop = stop || s == w
				}
			}
			if !stop {
				words = append(words, porter2.Stem(w))
			}
		}
		start = i + 1
	}
	got := Preprocessing(t)
	sym.Assert(len(got) == len(words), "preprocessing: number of terms")
	for i := range words {
		sym.Assert(got[i] == words[i], "preprocessing: the terms in order")
	}
	sym.Reach("end")
}

// Whole texts: accents, case, stop words, punctuation and inflection do not keep a query from its document.
func H_preprocess_texts() {
	cases := []struct {
		in   string
		want []string
	}{
		{"The Running of the GALAXIES!", []string{"run", "galaxi"}},
		{"", nil},
		{"to be, or not to be", nil},
		{"Café-au-lait 42", []string{"cafe", "au", "lait", "42"}},
		{"don't stop", []string{"don't", "stop"}},
		{"stars; star. STARS", []string{"star", "star", "star"}},
		{"Its résumé: being WILLING", []string{"it", "resume", "be", "will"}},
		{"日本 2½ naïve_x 'as", []string{"日本", "2½", "naiv", "x", "as"}},
	}
	c := cases[sym.Choose("case", len(cases))]
	d := cases[sym.Choose("case", len(cases))]
	sym.Races(true)
	got := Preprocessing(c.in + " " + d.in)
	want := append(append([]string{}, c.want...), d.want...)
	sym.Assert(len(got) == len(want), "preprocessing: number of terms")
	for i := range want {
		sym.Assert(got[i] == want[i], "preprocessing: the terms in order")
	}
	sym.Reach("end")
}

// Texts at the same time: no data races, each has its own terms.
func H_preprocess_together() {
	in := []string{"The Stars", "Café RUNNING", "the", "été-star"}
	want := [][]string{{"star"}, {"cafe", "run"}, nil, {"ete", "star"}}
	a, b := sym.Choose("first", len(in)), sym.Choose("second", len(in))
	sym.Races(true)
	sym.Explore(zzDeep(1, 2))
	done := make(chan bool, 2)
	for _, k := range []int{a, b} {
		k := k
		go func() {
			got := Preprocessing(in[k])
			sym.Assert(len(got) == len(want[k]), "preprocessing: of a text beside another")
			for i := range want[k] {
				sym.Assert(got[i] == want[k][i], "preprocessing: of a text beside another")
			}
			done <- true
		}()
	}
	<-done
	<-done
	sym.StopExplore()
	sym.Reach("end")
}

// A long text with one arbitrary word.
func H_preprocess_many() {
	w := sym.String("word", 2)
	sym.Assume(sym.And(w[0] >= 'a', w[0] <= 'z', w[1] >= 'A', w[1] <= 'Z'))
	l := string([]byte{w[0], w[1] + 0x20})
	stop := false
	for _, s := range zzStop {
		if len(s) == 2 {
			stop = stop || s == l
		}
	}
	var t strings.Builder
	var want []string
	for i := 0; i < zzDeep(40, 200); i++ {
		switch i % 5 {
		case 0:
			t.WriteString("Galaxies ")
			want = append(want, "galaxi")
		case 1:
			t.WriteString("the\t")
		case 2:
			t.WriteString(w + "... ")
			if !stop {
				want = append(want, porter2.Stem(l))
			}
		case 3:
			t.WriteString("ação-4\n")
			want = append(want, "acao", "4")
		case 4:
			t.WriteString("RUNNING,")
			want = append(want, "run")
		}
	}
	got := Preprocessing(t.String())
	sym.Assert(len(got) == len(want), "preprocessing: number of terms")
	for i := range want {
		sym.Assert(got[i] == want[i], "preprocessing: the terms in order")
	}
	sym.Reach("end")
}
