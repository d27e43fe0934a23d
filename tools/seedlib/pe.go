package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
)

// sec describes one section of a synthetic executable.
type sec struct {
	name       string
	va, vs     uint32
	data       []byte
	characters uint32
}

// img builds a small PE image: file alignment 0x200, section alignment 0x1000, headers in the first 0x400 bytes.
type img struct {
	is32     bool
	secs     []sec
	dirs     [16][2]uint32
	checksum uint32
	tail     []byte // after the sections
	cert     []byte // after the tail, described by the certificate entry
	hdrSize  int    // 0: 0x400
}

func le(b *bytes.Buffer, v ...interface{}) {
	for _, x := range v {
		if err := binary.Write(b, binary.LittleEndian, x); err != nil {
			panic(err)
		}
	}
}

func (m *img) bytes() []byte {
	hs := m.hdrSize
	if hs == 0 {
		hs = 0x400
	}
	off := hs
	var raw []byte
	var offs []uint32
	for _, s := range m.secs {
		offs = append(offs, uint32(off))
		d := append([]byte{}, s.data...)
		for len(d)%0x200 != 0 {
			d = append(d, 0)
		}
		raw = append(raw, d...)
		off += len(d)
	}
	if len(m.cert) > 0 {
		m.dirs[4] = [2]uint32{uint32(off + len(m.tail)), uint32(len(m.cert))}
	}
	b := &bytes.Buffer{}
	stub := make([]byte, 0x80)
	copy(stub, "MZ")
	binary.LittleEndian.PutUint32(stub[0x3c:], 0x80)
	b.Write(stub)
	b.WriteString("PE\x00\x00")
	opt := uint16(112 + 128)
	machine := uint16(0x8664)
	if m.is32 {
		opt, machine = 96+128, 0x14c
	}
	le(b, machine, uint16(len(m.secs)), uint32(0), uint32(0), uint32(0), opt, uint16(0x22))
	if m.is32 {
		le(b, uint16(0x10b))
	} else {
		le(b, uint16(0x20b))
	}
	le(b, uint8(14), uint8(0), uint32(0x200), uint32(len(raw)), uint32(0), uint32(0x1000), uint32(0x1000))
	if m.is32 {
		le(b, uint32(0x2000), uint32(0x400000))
	} else {
		le(b, uint64(0x140000000))
	}
	end := uint32(0x1000)
	for _, s := range m.secs {
		if e := (s.va + s.vs + 0xFFF) &^ 0xFFF; e > end {
			end = e
		}
	}
	le(b, uint32(0x1000), uint32(0x200), uint16(6), uint16(0), uint16(0), uint16(0), uint16(6), uint16(0), uint32(0), end, uint32(hs), m.checksum, uint16(3), uint16(0))
	if m.is32 {
		le(b, [4]uint32{0x100000, 0x1000, 0x100000, 0x1000})
	} else {
		le(b, [4]uint64{0x100000, 0x1000, 0x100000, 0x1000})
	}
	le(b, uint32(0), uint32(16), m.dirs)
	for i, s := range m.secs {
		var n [8]byte
		copy(n[:], s.name)
		c := s.characters
		if c == 0 {
			c = 0x40000040
		}
		le(b, n, s.vs, s.va, uint32((len(s.data)+0x1FF)&^0x1FF), offs[i], uint32(0), uint32(0), uint16(0), uint16(0), c)
	}
	for b.Len() < hs {
		b.WriteByte(0)
	}
	b.Write(raw)
	b.Write(m.tail)
	b.Write(m.cert)
	return b.Bytes()
}

func fill(n int, c byte) []byte { return bytes.Repeat([]byte{c}, n) }

// out is an in-memory io.WriteSeeker.
type out struct {
	b   []byte
	pos int
}

func (o *out) Write(p []byte) (int, error) {
	for len(o.b) < o.pos+len(p) {
		o.b = append(o.b, 0)
	}
	copy(o.b[o.pos:], p)
	o.pos += len(p)
	return len(p), nil
}

func (o *out) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		o.pos = int(off)
	case io.SeekCurrent:
		o.pos += int(off)
	case io.SeekEnd:
		o.pos = len(o.b) + int(off)
	}
	return int64(o.pos), nil
}

// hdr reads back the parts of a PE image the demonstrations look at.
type hdr struct {
	dirs     [16][2]uint32
	secs     [][4]uint32 // virtual size, virtual address, raw size, raw offset
	names    []string
	checksum uint32
	imgSize  uint32
}

func parse(b []byte) (h hdr) {
	p := int(binary.LittleEndian.Uint32(b[0x3c:]))
	n := int(binary.LittleEndian.Uint16(b[p+6:]))
	o := p + 24
	so := int(binary.LittleEndian.Uint16(b[p+20:]))
	h.imgSize = binary.LittleEndian.Uint32(b[o+56:])
	h.checksum = binary.LittleEndian.Uint32(b[o+64:])
	d := o + so - 128
	for i := range h.dirs {
		h.dirs[i] = [2]uint32{binary.LittleEndian.Uint32(b[d+8*i:]), binary.LittleEndian.Uint32(b[d+8*i+4:])}
	}
	for i := 0; i < n; i++ {
		s := b[o+so+40*i:]
		h.names = append(h.names, string(bytes.TrimRight(s[:8], "\x00")))
		var v [4]uint32
		for k := range v {
			v[k] = binary.LittleEndian.Uint32(s[8+4*k:])
		}
		h.secs = append(h.secs, v)
	}
	return
}

func fail(format string, a ...interface{}) {
	fmt.Printf("FAIL: "+format+"\n", a...)
	os.Exit(1)
}

func check(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}
