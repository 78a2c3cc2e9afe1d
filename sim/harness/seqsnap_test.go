package harness

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/thesues/cannyls-go/nvm"

	"verif.local/sim/rt"
)

// seqSnap is what the model knows about the snapshot of the storage.
type seqSnap struct {
	st   int      // 0: none, 1: there is one, 2: a crash left that open
	imgs [][]byte // what it may hold
}

// snapSick: saving a region for the snapshot may have failed. Nothing that
// needs such a region to be saved works until the storage is opened again, and
// reading an embedded lump writes the buffered journal first.
func (e *seq) snapSick() bool { return e.failedIO && e.snap.st != 0 }

func (e *seq) image() []byte {
	return append([]byte(nil), e.sim.Host0.FS.Files[absPath(e.path)].Cur...)
}

func (e *seq) snapFiles() (out []string) {
	for _, f := range e.sim.Host0.FS.List("/") {
		if strings.HasSuffix(f, snapSuffix) {
			out = append(out, f)
		}
	}
	return
}

// snapMaybe: the process died while a snapshot was being created.
func (e *seq) snapMaybe() {
	if e.snap.st == 0 {
		e.snap = seqSnap{2, [][]byte{e.image()}}
	}
}

// leftover: removing the file of a creation that failed has failed as well;
// somebody else has to do it.
func (e *seq) leftover(files []string) bool {
	if e.sim.Disk.LastIO != files[0] || e.sim.Stats.Faults["eremove"] == 0 {
		return false
	}
	e.probe("snap-leftover")
	for _, f := range files {
		delete(e.sim.Host0.FS.Files, f)
	}
	return true
}

func (e *seq) stepSnap(op Op) {
	st := e.st
	var err error
	switch op.K {
	case "snapc":
		died, io := e.call(func() { err = st.CreateSnapshot() })
		if died {
			e.snapMaybe()
			e.recover(nil)
			return
		}
		if err != nil {
			if e.snap.st == 0 {
				if !io && !e.failedIO {
					e.fail("snap", "CreateSnapshot failed: %v", err)
				}
				if n := e.snapFiles(); len(n) > 0 && !e.leftover(n) {
					e.fail("snapfiles", "CreateSnapshot failed (%v) and left %v", err, n)
				}
				e.probe("snap-create-failed")
			}
			return
		}
		if io {
			e.fail("ioerr", "CreateSnapshot returned success although the device reported an error to it")
		}
		if e.snap.st == 1 {
			e.fail("snap", "a second snapshot was created while there is one")
		}
		e.m.didSync()
		e.snap = seqSnap{1, [][]byte{e.image()}}
		e.probe("snap-created")
		if n := e.snapFiles(); len(n) != 1 {
			e.fail("snapfiles", "after CreateSnapshot there are %v", n)
		}
	case "snapd":
		died, io := e.call(func() { err = st.DeleteSnapshot() })
		if died {
			if e.snap.st == 1 {
				e.snap.st = 2
			}
			e.recover(nil)
			return
		}
		if err != nil {
			if !io && !e.failedIO {
				e.fail("snap", "DeleteSnapshot failed: %v", err)
			}
			return
		}
		if e.snap.st == 1 {
			e.probe("snap-deleted")
		}
		e.snap = seqSnap{}
		if n := e.snapFiles(); len(n) > 0 {
			e.fail("snapfiles", "DeleteSnapshot left %v", n)
		}
		if n := e.sim.Host0.FS.Handles(e.proc); n != 1 {
			e.fail("snapfiles", "after DeleteSnapshot %d file handles are open", n)
		}
	case "snapr":
		var rd *nvm.SnapshotReader
		died, io := e.call(func() { rd, err = st.GetSnapshotReader() })
		if died {
			e.snapMaybe()
			e.recover(nil)
			return
		}
		if err != nil {
			if !io && !e.failedIO {
				e.fail("snap", "GetSnapshotReader failed: %v", err)
			}
			if n := e.snapFiles(); len(n) > 0 && e.snap.st == 0 && !e.leftover(n) {
				e.fail("snapfiles", "GetSnapshotReader failed (%v) and left %v", err, n)
			}
			return
		}
		if io {
			e.fail("ioerr", "GetSnapshotReader returned success although the device reported an error to it")
		}
		e.m.didSync()
		if e.snap.st == 0 {
			e.snap = seqSnap{1, [][]byte{e.image()}}
		}
		if died = e.snapRead(rd, op.D); died {
			e.recover(nil)
		}
	}
}

// snapRead reads the snapshot to its end and compares.
func (e *seq) snapRead(rd *nvm.SnapshotReader, d uint64) (died bool) {
	size := len(e.snap.imgs[0])
	r := rt.NewRNG(e.tr.Seed+d, "pieces")
	most := []int{size * 2, 1 << 20, 70000, 5000}[r.Intn(4)]
	if most < size/50 {
		most = size / 50
	}
	var all []byte
	for i := 0; ; i++ {
		b := make([]byte, 1+r.Intn(most))
		var n int
		var err error
		died, fired := e.call(func() { n, err = rd.Read(b) })
		if died {
			return true
		}
		all = append(all, b[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			if fired {
				e.probe("snap-read-failed")
				return false
			}
			e.fail("snap", "reading the snapshot at %d of %d failed: %v", len(all), size, err)
		}
		if i > 10000 || len(all) > size+1<<21 {
			e.fail("snap", "reading the snapshot (%d bytes) does not end", size)
		}
	}
	for _, m := range e.snap.imgs {
		if bytes.Equal(m, all) {
			e.probe("snap-checked")
			return false
		}
	}
	e.fail("snap", "the snapshot is not the storage file as it was when it was created: %s", e.snapDiff(all))
	return
}

func (e *seq) snapDiff(b []byte) string {
	w := e.snap.imgs[0]
	if len(w) != len(b) {
		return fmt.Sprintf("%d bytes instead of %d", len(b), len(w))
	}
	n, first := 0, -1
	for i := range w {
		if w[i] != b[i] {
			if n++; first < 0 {
				first = i
			}
		}
	}
	return fmt.Sprintf("%d of %d bytes differ, first at %d (journal %d-%d)", n, len(w), first, e.ringLo, e.ringHi)
}

// snapOpened: the storage has just been opened; is the snapshot what it should be?
func (e *seq) snapOpened(after string) {
	if !e.tr.Conf.Snaps {
		return
	}
	fl := e.snapFiles()
	if len(fl) > 1 {
		e.fail("snapfiles", "after a %s there are %d files of snapshots: %v", after, len(fl), fl)
	}
	switch {
	case e.snap.st == 0 && len(fl) > 0:
		e.fail("snapfiles", "after a %s there is %s; no snapshot exists", after, fl[0])
	case e.snap.st == 1 && len(fl) == 0:
		e.fail("snap", "after a %s the snapshot is gone", after)
	case e.snap.st == 2:
		e.probe("snap-settled")
		if len(fl) == 0 {
			e.snap = seqSnap{}
		} else {
			e.snap.st = 1
		}
	}
	if n := e.sim.Host0.FS.Handles(e.proc); n != 1+len(fl) {
		e.fail("handles", "after a %s %d file handles are open, there are a storage and %d snapshots", after, n, len(fl))
	}
	if len(fl) == 0 || rt.Mix(e.tr.Seed^uint64(e.op)*77)%2 == 0 {
		return
	}
	e.snapVerify(after)
}

func (e *seq) snapVerify(after string) {
	st := e.st
	var rd *nvm.SnapshotReader
	var err error
	e.callOK(func() { rd, err = st.GetSnapshotReader() })
	if err != nil {
		e.fail("snap", "after a %s: GetSnapshotReader failed: %v", after, err)
	}
	e.m.didSync()
	if e.snapRead(rd, uint64(e.op)) {
		e.fail("panic", "process died reading the snapshot: %s", e.proc.PanicV)
	}
	e.probe("snap-checked-" + after)
}
