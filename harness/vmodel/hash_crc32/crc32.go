// Package crc32 computes checksums bit by bit.
package crc32

import (
	"hash"
	real "hash/crc32"
)

func update(crc, poly uint32, data []byte) uint32 {
	crc = ^crc
	for _, b := range data {
		crc ^= uint32(b)
		for i := 0; i < 8; i++ {
			crc = crc>>1 ^ poly&-(crc&1)
		}
	}
	return ^crc
}

func MakeTable(poly uint32) *real.Table {
	t := new(real.Table)
	t[128] = poly
	return t
}

// poly is the polynomial a table belongs to; the tables of the package itself are complete ones.
func poly(t *real.Table) uint32 {
	if t == nil {
		return real.IEEE
	}
	return t[128]
}

func ChecksumIEEE(data []byte) uint32                      { return update(0, real.IEEE, data) }
func Checksum(data []byte, t *real.Table) uint32           { return update(0, poly(t), data) }
func Update(crc uint32, t *real.Table, data []byte) uint32 { return update(crc, poly(t), data) }
func NewIEEE() hash.Hash32                                 { return &digest{0, real.IEEE} }
func New(t *real.Table) hash.Hash32                        { return &digest{0, poly(t)} }

type digest struct{ crc, poly uint32 }

func (d *digest) Size() int      { return 4 }
func (d *digest) BlockSize() int { return 1 }
func (d *digest) Reset()         { d.crc = 0 }
func (d *digest) Sum32() uint32  { return d.crc }
func (d *digest) Write(b []byte) (int, error) {
	d.crc = update(d.crc, d.poly, b)
	return len(b), nil
}
func (d *digest) Sum(in []byte) []byte {
	s := d.crc
	return append(in, byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
}
