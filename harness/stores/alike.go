package stores

import (
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/storage"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/alike"
	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

// twins are saves whose documents, fields or terms have names that are easily taken for one.
func twins() []saved {
	p := alike.Pairs[sym.Choose("pair", len(alike.Pairs))]
	x, y := p[0], p[1]
	if sym.Choose("swap", 2) == 1 {
		x, y = y, x
	}
	l := []saved{{"d", "f", sym.IntRange("len", 0, 1<<28), []string{"t", "u"}, []int{2, 3}}, {"d2", "f", 4, []string{"t"}, []int{sym.IntRange("tf", 1, 1<<28)}}}
	switch sym.Choose("part", 3) {
	case 0:
		l[0].doc, l[1].doc = x, y
	case 1:
		l[1].doc = "d"
		l[0].field, l[1].field = x, y
	case 2:
		l[0].terms[0], l[1].terms[0] = x, y
	}
	return l
}

func memAlike(what int) {
	st := storage.NewMemory()
	l := twins()
	save(st, l)
	everything(st, l, what, "memory")
	sym.Reach("end")
}

func H_mem_alike_postings() { memAlike(postingsOnly) }
func H_mem_alike_stats()    { memAlike(statsOnly) }
func H_mem_alike_fields()   { memAlike(fieldsOnly) }

func diskAlike(what int, reopen bool) {
	st := openDisk(2 * sym.Choose("cache", 2))
	l := twins()
	save(st, l[:1])
	if sym.Choose("pause", 2) == 1 {
		time.Sleep(flushed)
	}
	save(st, l[1:])
	everything(st, l, what, "disk")
	if reopen {
		time.Sleep(flushed)
		everything(openDisk(2), l, what, "reopened")
	}
	sym.Reach("end")
}

func H_disk_alike_postings() { diskAlike(postingsOnly, false) }
func H_disk_alike_stats()    { diskAlike(statsOnly, false) }
func H_disk_alike_fields()   { diskAlike(fieldsOnly, false) }
func H_disk_alike()          { diskAlike(all3, true) }

// Numbers that are zero, negative or large; a term is in a field whatever its number.
func anyNumbers(st storage.Storage, what int, label string) []saved {
	l := []saved{{"d", "f", sym.IntRange("len", -1<<31, 1<<31-1), []string{"t", "u"}, []int{sym.IntRange("tf", -1<<31, 1<<31-1), 1}},
		{"e", "f", 0, []string{"t", "v"}, []int{1, 0}}, {"e", "g", 0, nil, nil}}
	save(st, l)
	everything(st, l, what, label)
	return l
}

func memNumbers(what int) {
	anyNumbers(storage.NewMemory(), what, "memory")
	sym.Reach("end")
}

func H_mem_numbers_postings() { memNumbers(postingsOnly) }
func H_mem_numbers_stats()    { memNumbers(statsOnly) }
func H_mem_numbers_fields()   { memNumbers(fieldsOnly) }

func diskNumbers(what int) {
	l := anyNumbers(openDisk(1), what, "disk")
	time.Sleep(flushed)
	everything(openDisk(1), l, what, "reopened")
	sym.Reach("end")
}

func H_disk_numbers_postings() { diskNumbers(postingsOnly) }
func H_disk_numbers_stats()    { diskNumbers(statsOnly) }
func H_disk_numbers_fields()   { diskNumbers(fieldsOnly) }
func H_disk_numbers()          { diskNumbers(all3) }
