package rt

// Content at and beyond Near is kept in pages, so that files of any size can
// be simulated; below it files are plain byte slices.
const (
	Near    = 256 << 20
	farPage = 64 << 10
)

type farStore struct {
	size  int64 // end of the content, 0 when nothing lies beyond Near
	pages map[int64][]byte
}

func (f *farStore) write(off int64, b []byte) {
	if f.pages == nil {
		f.pages = map[int64][]byte{}
	}
	if e := off + int64(len(b)); e > f.size {
		f.size = e
	}
	for len(b) > 0 {
		p, o := off/farPage, int(off%farPage)
		pg := f.pages[p]
		if pg == nil {
			pg = make([]byte, farPage)
			f.pages[p] = pg
		}
		n := copy(pg[o:], b)
		b, off = b[n:], off+int64(n)
	}
}

func (f *farStore) read(b []byte, off int64) {
	for len(b) > 0 {
		p, o := off/farPage, int(off%farPage)
		n := farPage - o
		if n > len(b) {
			n = len(b)
		}
		if pg := f.pages[p]; pg != nil {
			copy(b[:n], pg[o:])
		} else {
			clear(b[:n])
		}
		b, off = b[n:], off+int64(n)
	}
}

func (f *farStore) clone() farStore {
	c := farStore{size: f.size}
	if f.pages != nil {
		c.pages = make(map[int64][]byte, len(f.pages))
		for k, v := range f.pages {
			c.pages[k] = append([]byte(nil), v...)
		}
	}
	return c
}

func (f *farStore) truncate(n int64) {
	if f.size <= n {
		return
	}
	f.size = n
	if n <= Near {
		f.size = 0
		f.pages = nil
		return
	}
	for p, pg := range f.pages {
		if p*farPage >= n {
			delete(f.pages, p)
		} else if (p+1)*farPage > n {
			clear(pg[n-p*farPage:])
		}
	}
}

// putBytes writes b at off into a content of a near slice and far pages.
func putBytes(near []byte, far *farStore, off int64, b []byte) []byte {
	if e := off + int64(len(b)); e > Near {
		if off >= Near {
			far.write(off, b)
			return near
		}
		k := Near - off
		far.write(Near, b[k:])
		b = b[:k]
	}
	old := len(near)
	near = grow(near, off+int64(len(b)))
	if int64(old) < off {
		clear(near[old:off])
	}
	copy(near[off:], b)
	return near
}

// Size is the length of the file.
func (i *Inode) Size() int64 {
	if i.FarCur.size > 0 {
		return i.FarCur.size
	}
	return int64(len(i.Cur))
}

// readAt fills b from off; the range lies within the file.
func (i *Inode) readAt(b []byte, off int64) {
	if off < Near {
		k := len(b)
		if int64(k) > Near-off {
			k = int(Near - off)
		}
		n := 0
		if off < int64(len(i.Cur)) {
			n = copy(b[:k], i.Cur[off:])
		}
		clear(b[n:k])
		b, off = b[k:], off+int64(k)
	}
	if len(b) > 0 {
		i.FarCur.read(b, off)
	}
}

// setSize extends or cuts one content.
func setSize(near []byte, far *farStore, n int64) []byte {
	far.truncate(n)
	if n > Near {
		far.size = n
		return near
	}
	if int64(len(near)) > n {
		return near[:n]
	}
	o := len(near)
	near = grow(near, n)
	clear(near[o:])
	return near
}

// Install writes durable content (harness use).
func (i *Inode) Install(off int64, b []byte) {
	i.Cur = putBytes(i.Cur, &i.FarCur, off, b)
	i.Durable = putBytes(i.Durable, &i.FarDurable, off, b)
}
