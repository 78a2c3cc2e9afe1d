package harness

import "unsafe"

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

const realStorage = "storage, storage/journal, storage/allocator, lumpindex, lump, portion, block, address, nvm (FileNVM, SnapNVM, headers), util, metrics, the Judy arrays"
const stubIO = "the operating system: os.File, open, read, write, sync, fallocate, flock, glob, remove (simulated disk); locks, goroutine scheduling and clocks (simulated); opencensus recording (dropped)"

func init() {
	seqRule := "a run is one seeded sequence of operations on a storage of a drawn geometry with drawn faults, each observation compared with the reference model"
	add := func(id, classes, rule string, gens ...wgen) {
		props[id] = &prop{id: id, classes: classes, rule: rule, real: realStorage, stub: stubIO, gens: gens}
	}
	s := wgen{2, genSeq, "seq"}
	cc := wgen{1, genConc, "conc"}
	add("C01", "crash", seqRule, s, cc)
	add("C02", "power", seqRule, s, cc)
	add("C03", "reopen handles", seqRule, s)
	add("C04", "gc crash reopen read enum power lin", seqRule, s, cc)
	add("C05", "jfull gc-usage", seqRule, s)
	concRule := "a run is one seeded schedule of 2 to 5 clients calling one storage (plus side jobs, compaction, snapshots, Close) with every statement a possible switch; the recorded history must have a sequential explanation"
	add("C06", "lin crash power space", concRule, wgen{1, genConc, "conc"})
	add("C07", "lin space", concRule, wgen{1, genConc, "conc"})
	add("C11", "snap", "a run is one seeded schedule of clients writing, deleting, compacting, taking and reading snapshots; every byte read is compared with the storage file at the instants the creating call spans, and complete images are opened as storages", wgen{1, genSnap, "snap"})
	add("C12", "snap snapcrash snapfiles lin crash power", "a run is one seeded history of rounds with snapshots, restarts, crashes and power loss, next to files with similar names; or one seeded sequence of operations with snapshots, crashes, power loss and device errors in saving regions", wgen{2, genSnap, "snap"}, wgen{1, genSeq, "seq"})
	add("C08", "space full", seqRule, s, cc)
	add("C09", "failchg space crash power reopen error", seqRule, s)
	add("C10", "ioerr crash power read", seqRule, s)
	add("C13", "owner", "a run is one seeded schedule of 1 to 4 processes creating, opening, using, closing and being killed on one or two paths, with device errors in every call", wgen{1, genOwn, "own"})
	add("C16", "corrupt", "a run is one seeded history on one storage, closed several times; each time bytes of its journal are changed and it is opened, and journal writes are torn by crashes and power loss", s, wgen{1, genTorn, "torn"})
	add("C17", "http", "a run is one seeded schedule of 1 to 5 clients uploading, downloading, taking, snapshotting and backing up through the HTTP server, with signals, crashes, power loss, device errors and broken connections; the recorded requests must have an order that explains every answer and everything found afterwards", wgen{1, genHTTP, "http"})
	add("C18", "cli snap", "a run is one seeded sequence of kanils commands, each a process that runs to its end or is killed, loses power or meets device errors, some of them two at a time; what every command prints and what the storage holds afterwards must follow from the commands that completed", wgen{1, genCLI, "cli"})
	props["C17"].real = "cmd/readup (the whole server: handlers, worker, timers, signal handling, main), gin and its middlewares, net/http request parsing and multipart, encoding/json, " + realStorage
	props["C17"].stub = "the listening socket (a client task calls the server's handler directly, with bodies that arrive in pieces and connections that break), signals, " + stubIO
	props["C18"].real = "cmd/kanils (every command and main), the command line parser, " + realStorage
	props["C18"].stub = "standard output (collected), " + stubIO
	add("C14", "range read crash reopen lin", seqRule, s, cc)
	add("C15", "enum reopen lin", seqRule, s, cc)
}
