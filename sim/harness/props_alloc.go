package main

import (
	"bytes"
	"fmt"
	"unsafe"

	"verifrt"
	"verifrt/simos"

	"github.com/mariotoffia/goannoy/index/memory"
	"github.com/mariotoffia/goannoy/interfaces"
)

// P05: the allocators

const allocFiles = 3

func genP05(r *rt.Prng, sp *Spec) {
	sp.Mode = pick(r, "file", "file", "file", "build")
	sp.Clients = 1
	if r.Chance(0.5) {
		sp.Clients = 2 + r.Intn(2)
	}
	sp.Ops = nil
	n := 4 + r.Intn(30)
	for i := 0; i < n; i++ {
		op := Op{A: r.Intn(sp.Clients), B: r.Intn(1 << 16), C: r.Intn(allocFiles)}
		if sp.Mode == "build" {
			op.Op = pick(r, "grow", "grow", "grow", "grow", "same", "shrink", "free")
		} else {
			op.Op = pick(r, "open", "open", "open", "open", "get", "get", "close", "close", "close", "reclose", "replace", "replace", "remove", "bad")
			if sp.Clients == 1 && r.Chance(0.15) {
				op.F = genFaults(r, "error", "error", "short", "eof")
			}
		}
		sp.Ops = append(sp.Ops, op)
	}
}

func (e *env[TV, TIX]) runP05() {
	if e.sp.Mode == "build" {
		e.buildAllocators()
		return
	}
	e.fileAllocator()
}

type version struct {
	data    []byte
	removed bool
}

type handle struct {
	a       interfaces.AllocatedIndex
	data    []byte
	file    int
	what    string
	address unsafe.Pointer
}

func (h *handle) intact() string {
	s := ""
	if p := try(func() {
		if n := h.a.Size(); n != int64(len(h.data)) {
			s = fmt.Sprintf("size %d instead of %d", n, len(h.data))
			return
		}
		if h.a.Ptr() != h.address {
			s = "moved"
			return
		}
		if !bytes.Equal(unsafe.Slice((*byte)(h.a.Ptr()), len(h.data)), h.data) {
			s = "other content than the file had when it was opened"
		}
	}); p != nil {
		s = "panic: " + panicText(p)
	}
	return s
}

func (e *env[TV, TIX]) fileAllocator() {
	sp := e.sp
	e.quiet()
	ma := allocator(sp.Mem)
	r := rt.NewPrng(sp.DataSeed, 5)
	content := func(x int) []byte {
		n := 1 + x%97
		if x%5 == 0 {
			n = 4096 * (1 + x%3)
		} else if x%7 == 0 {
			n = 4000 + x%300
		}
		b := make([]byte, n)
		q := rt.NewPrng(sp.DataSeed, uint64(x)+77)
		for i := range b {
			b[i] = byte(q.Next())
		}
		return b
	}
	// Each client has files of its own, and all share some
	name := func(c, f int) string {
		if f == 0 {
			return fmt.Sprintf("%s/own%d", simos.Dir, c)
		}
		return fmt.Sprintf("%s/shared%d", simos.Dir, f)
	}
	key := func(c, f int) int {
		if f == 0 {
			return -1 - c
		}
		return f
	}
	files := map[int][]version{} // all contents each file ever had
	for c := 0; c < sp.Clients; c++ {
		for f := 0; f < allocFiles; f++ {
			if _, ok := files[key(c, f)]; !ok {
				b := content(r.Intn(1 << 16))
				simos.Disk.Put(name(c, f), b)
				files[key(c, f)] = []version{{data: b}}
			}
		}
	}
	open := make([][]*handle, sp.Clients)
	lastOpened := make([]map[int]*handle, sp.Clients)
	for c := range lastOpened {
		lastOpened[c] = map[int]*handle{}
	}
	total := 0
	do := func(c, n int, op Op) {
		what := fmt.Sprintf("operation %d: %v", n, op)
		k, p := key(c, op.C), name(c, op.C)
		switch op.Op {
		case "open", "bad":
			if op.Op == "bad" {
				switch op.B % 3 {
				case 0:
					p = simos.Dir + "/missing"
				case 1:
					p = fmt.Sprintf("%s/empty%d", simos.Dir, c)
					simos.Disk.Put(p, nil)
				case 2:
					p = simos.Dir
				}
			}
			before := firedNow()
			if len(op.F) > 0 {
				e.arm(op.F, 5)
			}
			first := len(files[k]) - 1
			var a interfaces.AllocatedIndex
			var err error
			if x := try(func() { a, err = ma.Open(p) }); x != nil {
				violate("panic", "%s: panic with faults %s: %s", what, fs(before), panicText(x))
			}
			any := false
			if sp.Clients == 1 {
				simos.Disk.Disarm()
				any, _ = fired(before)
			}
			if op.Op == "bad" {
				if err == nil {
					violate("false-success", "%s: opened %s", what, p)
				}
				probe("refused", 1)
				return
			}
			vs := files[k][first:]
			if err != nil {
				gone := false
				for _, v := range vs {
					gone = gone || v.removed
				}
				if !gone && !any {
					violate("open-error", "%s: %v", what, err)
				}
				probe("failed-open", 1)
				return
			}
			if a == nil || a.Size() <= 0 || a.Ptr() == nil {
				violate("content", "%s: no memory", what)
			}
			got := append([]byte(nil), unsafe.Slice((*byte)(a.Ptr()), int(a.Size()))...)
			ok := false
			for _, v := range vs {
				ok = ok || !v.removed && bytes.Equal(v.data, got)
			}
			if !ok {
				violate("content", "%s: %d bytes that are not the content of the file (faults: %s)", what, len(got), fs(before))
			}
			h := &handle{a: a, data: got, file: k, what: what, address: a.Ptr()}
			open[c] = append(open[c], h)
			lastOpened[c][k] = h
			total++
			probe("opened", 1)
		case "get":
			if op.C != 0 {
				return // other clients open and close it
			}
			var mine []*handle
			for _, h := range open[c] {
				if h.file == k {
					mine = append(mine, h)
				}
			}
			var a interfaces.AllocatedIndex
			var ok bool
			must(what, func() { a, ok = ma.Get(p) })
			if !ok {
				if h := lastOpened[c][k]; h != nil {
					violate("get", "%s: not found but it is open (%s)", what, h.what)
				}
				return
			}
			probe("got", 1)
			if len(mine) == 0 {
				violate("get", "%s: found but it is not open", what)
			}
			for _, h := range mine {
				if a.Ptr() == h.address && a.Size() == int64(len(h.data)) && (lastOpened[c][k] == nil || lastOpened[c][k] == h) {
					return
				}
			}
			violate("get", "%s: not what was opened last", what)
		case "close", "reclose":
			if len(open[c]) == 0 {
				return
			}
			i := op.B % len(open[c])
			h := open[c][i]
			open[c] = append(append([]*handle(nil), open[c][:i]...), open[c][i+1:]...)
			if lastOpened[c][h.file] == h {
				lastOpened[c][h.file] = nil
			}
			before := firedNow()
			if len(op.F) > 0 {
				e.arm(op.F, 2)
			}
			times := 1
			if op.Op == "reclose" {
				times = 2
			}
			total--
			for j := 0; j < times; j++ {
				var err error
				if x := try(func() { err = h.a.Close() }); x != nil {
					violate("panic", "%s: panic with faults %s: %s", what, fs(before), panicText(x))
				}
				if sp.Clients == 1 {
					simos.Disk.Disarm()
				}
				any, ops := fired(before)
				if err != nil && !(any && sp.Clients == 1) {
					violate("close", "%s: %v", what, err)
				}
				if err == nil && j == 0 && sp.Clients == 1 && ops["close"]+ops["munmap"] > 0 {
					violate("not-reported", "%s: successful with faults %s", what, fs(before))
				}
			}
		case "replace":
			b := content(op.B)
			files[k] = append(files[k], version{data: b})
			simos.Disk.Put(p, b) // another file, as if it were renamed
		case "remove":
			if v := files[k]; v[len(v)-1].removed {
				return
			}
			files[k] = append(files[k], version{removed: true})
			simos.Disk.Drop(p)
		}
	}
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		for n, op := range sp.Ops {
			if op.A != c {
				continue
			}
			do(c, n, op)
			for _, h := range open[c] {
				if s := h.intact(); s != "" {
					violate("content", "%s; what was opened before (%s): %s", fmt.Sprintf("operation %d: %v", n, op), h.what, s)
				}
			}
			if sp.Clients == 1 {
				held := total
				if sp.Mem == "gc" {
					held = 0
				}
				if n := simos.Disk.OpenFDs(); n > held {
					violate("leak", "%v: %d open files (%s) but %d are held", op, n, simos.Disk.OpenNames(), held)
				}
				if n := simos.Disk.LiveMaps() - simos.Disk.FailedRelease; n > held {
					violate("leak", "%v: %d mappings but %d are held", op, n, held)
				}
			}
		}
	})
	e.quiet()
	for _, l := range open {
		for _, h := range l {
			must("Close", func() {
				if err := h.a.Close(); err != nil {
					violate("close", "Close: %v", err)
				}
			})
		}
	}
	for c := 0; c < sp.Clients; c++ {
		for f := 0; f < allocFiles; f++ {
			must("Get", func() {
				if _, ok := ma.Get(name(c, f)); ok {
					violate("get", "%s is found after all were closed", name(c, f))
				}
			})
		}
	}
	e.released("after all were closed")
}

// buildAllocators: memory grows, keeps its content and is zero where nobody wrote.
func (e *env[TV, TIX]) buildAllocators() {
	sp := e.sp
	e.noisy()
	e.clients(sp.Clients, func(c int) {
		var a interfaces.BuildIndexAllocator = memory.GoGCIndexAllocator()
		var data []byte // what must be there
		most := 0       // ever asked for
		r := rt.NewPrng(sp.DataSeed, uint64(c))
		for n, op := range sp.Ops {
			if op.A != c {
				continue
			}
			what := fmt.Sprintf("operation %d: %v (size %d)", n, op, len(data))
			size := len(data)
			switch op.Op {
			case "grow":
				d := 1 + op.B%700
				if op.B%11 == 0 {
					d *= 100
				}
				size += d
			case "same":
			case "shrink":
				size -= op.B % (len(data)/2 + 1)
			case "free":
				must(what, func() { a.Free() })
				data, most = nil, 0
				continue
			}
			if size == 0 {
				continue
			}
			must(what, func() {
				m := unsafe.Slice((*byte)(a.Reallocate(size)), size)
				for i, x := range m {
					if i < len(data) {
						if x != data[i] {
							violate("content", "%s: byte %d of the old content is %d instead of %d", what, i, x, data[i])
						}
					} else if i >= most && x != 0 {
						violate("content", "%s: byte %d of the new memory is not zero", what, i)
					}
				}
				rt.SyncPoint()
				data = make([]byte, size)
				for i := range m {
					m[i] = byte(1 + r.Intn(255))
					data[i] = m[i]
				}
			})
			if size > most {
				most = size
			}
			probe("reallocated", 1)
		}
	})
	e.quiet()
}
