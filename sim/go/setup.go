package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"time"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// startSetup runs the real setup program as a process of its own.
func (w *World) startSetup() *Node {
	n := w.newNode("setup", "10.0.1.1", -1, w.setups+1)
	w.setups++
	w.count("setups")
	w.event("setup starts")
	goInfra(func() {
		runtime.VerifSetNode(n.id)
		ctsetup.MainMain(bg, consulAddr, kvPath, "/simfs/etc/roots.pem", "/simfs/etc/key.pem", w.config())
		os.Exit(0)
	})
	return n
}

func (w *World) liveSetups() []*Node {
	var out []*Node
	for _, id := range w.nodeIDs() {
		if n := w.nodes[id]; n.role == "setup" && !n.dead {
			out = append(out, n)
		}
	}
	return out
}

// setupPhase interrupts and repeats setup, and then requires it to succeed.
func (w *World) setupPhase() bool {
	o := w.o
	w.settingUp = true
	t0 := time.Now()
	var steps []Step
	for _, s := range w.plan.Steps {
		if len(s.Op) > 4 && s.Op[:4] == "pre-" {
			steps = append(steps, s)
		}
	}
	sort.SliceStable(steps, func(i, j int) bool { return steps[i].At < steps[j].At })
	power := false
	var last *Node
	for i := range steps {
		s := &steps[i]
		time.Sleep(time.Until(t0.Add(w.ms(s.At))))
		w.count("step:" + s.Op)
		switch s.Op {
		case "pre-setup":
			for _, n := range w.liveSetups() { // one at a time
				w.crash(n.id, "given up")
			}
			n := w.startSetup()
			last = n
			if s.Dur > 0 { // killed after that many microseconds
				goInfra(func() {
					time.Sleep(time.Duration(s.Dur) * time.Microsecond)
					switch s.B {
					case 0:
						w.crash(n.id, "step")
					case 1:
						if !n.dead {
							w.powerLoss()
							last = nil
						}
					case 2:
						w.sigint(n.id)
					case 3:
						w.pause(n.id, time.Duration(s.C)*time.Millisecond)
					}
				})
			}
		case "pre-power":
			w.powerLoss()
			last = nil
		case "pre-power-after":
			power = true
		case "pre-machines":
			w.startMachines()
		case "pre-consul-down":
			w.fault("consul-down")
			w.consul.down = true
			w.consul.changed()
			goInfra(func() { time.Sleep(w.ms(s.Dur)); w.consul.down = false })
		case "pre-s3-down":
			w.fault("s3-down")
			w.s3.down = true
			goInfra(func() { time.Sleep(w.ms(s.Dur)); w.s3.down = false })
		case "pre-disk-full":
			w.fault("disk-full")
			w.fs.full = true
			goInfra(func() { time.Sleep(w.ms(s.Dur)); w.fs.full = false })
		}
	}
	for i := 0; i < 60 && len(w.liveSetups()) > 0; i++ {
		time.Sleep(time.Second)
	}
	w.quiet = true
	w.consul.down, w.s3.down, w.fs.full = false, false, false
	for _, n := range w.liveSetups() {
		w.crash(n.id, "given up")
	}
	if last != nil && last.dead && last.code == 0 && w.plan.Cfg.Trust {
		w.count("setups-trusted") // it said that it succeeded
		o.sthKept = true
		w.checkSetup()
		w.quiet, w.settingUp = false, false
		w.fltUntil = time.Now()
		return len(o.viol) == 0
	}
	for again := 0; ; again++ {
		ok := false
		var n *Node
		for k := 0; k < 2 && !ok; k++ { // a machine may have to be up again first
			n = w.startSetup()
			select {
			case <-n.exited:
			case <-time.After(5 * time.Minute):
			}
			ok = n.dead && n.code == 0
		}
		if !ok {
			o.violation("C16", "setup-fails", "with nothing wrong any more, setup does not finish: %s", n.why)
			return false
		}
		o.sthKept = true
		if power && again == 0 {
			w.powerLoss()
		}
		w.checkSetup()
		if len(o.viol) > 0 {
			return false
		}
		if again == 1 || !power {
			break
		}
	}
	w.quiet, w.settingUp = false, false
	w.fltUntil = time.Now()
	return true
}

// checkSetup judges what a finished setup left behind.
func (w *World) checkSetup() {
	o := w.o
	w.count("setups-finished")
	data, ok := w.get("ct/v1/get-sth")
	if !ok {
		o.violation("C16", "setup:no-sth", "setup finished, but there is no tree head")
		return
	}
	h, err := o.key.parseSTH(data)
	if err != nil {
		o.violation("C16", "setup:bad-sth", "setup finished, but the tree head is not valid: %v", err)
		return
	}
	if o.broken {
		return
	}
	if h.Size != o.sth.Size || h.Root != o.root(h.Size) {
		o.violation("C16", "setup:wrong-sth", "after setup the tree head has size %d, that of the log is %d", h.Size, o.sth.Size)
		return
	}
	if h.Size == 0 && w.plan.Cfg.InitSize > 0 {
		o.violation("C16", "setup:wrong-sth", "after setup the log is empty")
		return
	}
	w.checkSetupConfig()
}

func (w *World) checkSetupConfig() {
	o := w.o
	raw, ok := w.get("ct/v1/get-roots")
	if !ok {
		o.violation("C16", "setup:no-roots", "there is no object with the accepted roots")
		return
	}
	var in struct {
		Certificates [][]byte `json:"certificates"`
	}
	want := map[string]bool{}
	for _, r := range w.pki.roots {
		want[string(r.cert.Raw)] = true
	}
	if err := json.Unmarshal(raw, &in); err != nil {
		o.violation("C16", "setup:bad-roots", "the accepted roots are unreadable: %v", err)
		return
	}
	for _, c := range in.Certificates {
		if !want[string(c)] {
			o.violation("C16 C12", "setup:extra-root", "the accepted roots contain a certificate that was not configured")
			return
		}
		delete(want, string(c))
	}
	if len(want) > 0 {
		o.violation("C16", "setup:missing-root", "%d configured roots are missing", len(want))
		return
	}
	e := w.consul.kv[kvPath+"/config"]
	if e == nil {
		o.violation("C16", "setup:no-config", "there is no configuration")
		return
	}
	var gc ctsubmit.GlobalConfig
	if err := json.Unmarshal(e.value, &gc); err != nil || gc != w.config() {
		o.violation("C16", "setup:wrong-config", "the stored configuration differs from the given one: %s", clip(fmt.Sprint(gc, err), 300))
	}
}
