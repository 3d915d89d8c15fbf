package harness

// Strict reference readers for what the library writes.

import (
	"encoding/binary"
	"fmt"
	"sort"
)

type dirEntry struct {
	tag            string
	sum, off, size uint32
}

type directory struct {
	version string
	entries []dirEntry
	b       []byte
}

func (d *directory) tables() map[string][]byte {
	t := map[string][]byte{}
	for _, e := range d.entries {
		t[e.tag] = d.b[e.off : e.off+e.size : e.off+e.size]
	}
	return t
}

func be16(b []byte, i int) int    { return int(binary.BigEndian.Uint16(b[i:])) }
func bei16(b []byte, i int) int   { return int(int16(binary.BigEndian.Uint16(b[i:]))) }
func be32(b []byte, i int) uint32 { return binary.BigEndian.Uint32(b[i:]) }

// refDirectory checks everything about the container of a single-font SFNT file: header search
// fields, sorted unique tags, 4-byte aligned tables inside the file that do not overlap and whose
// padding is zero, table checksums and the whole-file checksum.
func refDirectory(b []byte) (*directory, error) {
	if len(b) < 12 {
		return nil, fmt.Errorf("file of %d bytes", len(b))
	}
	if len(b)%4 != 0 {
		return nil, fmt.Errorf("file length %d is not a multiple of four", len(b))
	}
	d := &directory{version: string(b[:4]), b: b}
	n := be16(b, 4)
	if n == 0 || len(b) < 12+16*n {
		return nil, fmt.Errorf("%d tables in %d bytes", n, len(b))
	}
	sr, es, rs := searchParams(n, 16)
	if be16(b, 6) != sr || be16(b, 8) != es || be16(b, 10) != rs {
		return nil, fmt.Errorf("search fields %d %d %d, expected %d %d %d", be16(b, 6), be16(b, 8), be16(b, 10), sr, es, rs)
	}
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		e := dirEntry{string(b[p : p+4]), be32(b, p+4), be32(b, p+8), be32(b, p+12)}
		if i > 0 && e.tag <= d.entries[i-1].tag {
			return nil, fmt.Errorf("directory not sorted: %q after %q", e.tag, d.entries[i-1].tag)
		}
		if e.off%4 != 0 {
			return nil, fmt.Errorf("table %q at offset %d", e.tag, e.off)
		}
		padded := (uint64(e.size) + 3) &^ 3
		if uint64(e.off) < uint64(12+16*n) || uint64(len(b)) < uint64(e.off)+padded {
			return nil, fmt.Errorf("table %q extent %d+%d outside file of %d bytes", e.tag, e.off, e.size, len(b))
		}
		for _, z := range b[e.off+e.size : uint64(e.off)+padded] {
			if z != 0 {
				return nil, fmt.Errorf("padding of %q is not zero", e.tag)
			}
		}
		t := append([]byte{}, b[e.off:uint64(e.off)+padded]...)
		if e.tag == "head" && 12 <= e.size {
			copy(t[8:12], []byte{0, 0, 0, 0})
		}
		if c := checksum(t); c != e.sum {
			return nil, fmt.Errorf("checksum of %q is %08x, directory says %08x", e.tag, c, e.sum)
		}
		d.entries = append(d.entries, e)
	}
	byOff := append([]dirEntry{}, d.entries...)
	sort.Slice(byOff, func(i, j int) bool {
		return byOff[i].off < byOff[j].off || byOff[i].off == byOff[j].off && byOff[i].size < byOff[j].size
	})
	for i := 1; i < len(byOff); i++ {
		if byOff[i].off < byOff[i-1].off+byOff[i-1].size {
			return nil, fmt.Errorf("tables %q and %q overlap", byOff[i-1].tag, byOff[i].tag)
		}
	}
	for _, e := range d.entries {
		if e.tag == "head" && 12 <= e.size {
			if c := checksum(b); c != 0xB1B0AFBA {
				return nil, fmt.Errorf("whole-file checksum is %08x", c)
			}
		}
	}
	return d, nil
}
