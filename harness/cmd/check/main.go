// Command check runs one property: it shards the cases over worker
// processes, shrinks the first failure and writes evidence and replay files.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/pbt"
	_ "verif/harness/props"
)

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "seed")
	fDir    = flag.String("dir", ".", "the /verif directory")
	fMode   = flag.String("mode", "run", "run, worker, one, shrink, replay, list")
	fFrom   = flag.Int("from", 0, "first case of a worker")
	fStride = flag.Int("stride", 1, "stride of a worker")
	fN      = flag.Int("n", 0, "number of cases (overrides the tier)")
	fWork   = flag.String("work", "", "work file prefix")
	fPart   = flag.Int("part", 1, "divide the number of cases by this")
	fWorker = flag.Int("workers", 0, "number of workers")
	fStall  = flag.Int("stall", 60, "seconds without progress before a case is examined")
	fNoEv   = flag.Bool("noevidence", false, "do not write evidence")
	fNoShr  = flag.Bool("noshrink", false, "do not shrink")
)

type replayFile struct {
	Prop     string   `json:"prop"`
	Seed     int64    `json:"seed"`
	Index    int      `json:"index"`
	Thorough bool     `json:"thorough"`
	Draws    []uint64 `json:"draws"`
	Raw      bool     `json:"raw"` // draws are not recorded: generate from seed and index
	Message  string   `json:"message"`
	Logs     []string `json:"logs,omitempty"`
	Kind     string   `json:"kind"`
	Shrunk   bool     `json:"shrunk"`
}

type workerOut struct {
	Evaluations int
	Discarded   int
	NonTrivial  int
	Inner       int
	Classes     map[string]int
	Samples     []string
	Failure     *replayFile
	HarnessErr  string
}

func main() {
	flag.Parse()
	if *fMode == "list" {
		fmt.Println(strings.Join(pbt.IDs(), "\n"))
		return
	}
	if *fMode == "replay" {
		os.Exit(replay(flag.Arg(0)))
	}
	p := pbt.Registry[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q\n", *fProp)
		os.Exit(2)
	}
	switch *fMode {
	case "run":
		os.Exit(run(p))
	case "worker":
		worker(p)
	case "one":
		one(p)
	case "shrink":
		shrink(p)
	}
}

func limit(p *pbt.Prop, cpu uint64) {
	n := p.Procs
	if n == 0 {
		n = 1
	}
	runtime.GOMAXPROCS(n)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	if cpu > 0 {
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: cpu, Max: cpu + 5})
	}
	if !p.Race {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}
}

func worker(p *pbt.Prop) {
	limit(p, 0)
	thorough := *fTier == "thorough"
	prog, err := os.OpenFile(*fWork+".progress", os.O_RDWR|os.O_CREATE, 0o666)
	if err != nil {
		panic(err)
	}
	var out workerOut
	out.Classes = map[string]int{}
	hashes := map[uint64]bool{}
	stopFile := filepath.Join(filepath.Dir(*fWork), "stop")
	stopAt := *fN
	lastCheck := time.Now()
	for idx := *fFrom; idx < stopAt; idx += *fStride {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(idx)+1)
		prog.WriteAt(b[:], 0)
		if time.Since(lastCheck) > 300*time.Millisecond {
			lastCheck = time.Now()
			if d, err := os.ReadFile(stopFile); err == nil {
				if v, err := strconv.Atoi(strings.TrimSpace(string(d))); err == nil && v < stopAt {
					stopAt = v
				}
			}
		}
		o := pbt.RunCase(p, *fSeed, idx, thorough, nil, false)
		out.Evaluations++
		if o.Discarded {
			out.Discarded++
		}
		out.Inner += o.Inner
		for k, v := range o.Classes {
			out.Classes[k] += v
		}
		if o.NonTrivial && !o.Failed {
			hashes[pbt.Hash(idx, o.Draws)] = true
			if len(out.Samples) < 2 && o.Sample != "" {
				out.Samples = append(out.Samples, fmt.Sprintf("case %d: %s", idx, o.Sample))
			}
		}
		if o.HarnessErr {
			out.HarnessErr = fmt.Sprintf("case %d: %s", idx, o.Msg)
			break
		}
		if o.Failed {
			out.Failure = &replayFile{Prop: p.ID, Seed: *fSeed, Index: idx, Thorough: thorough, Draws: o.Draws, Message: o.Msg, Logs: o.Logs, Kind: "failed"}
			break
		}
	}
	hf, _ := os.Create(*fWork + ".hashes")
	w := bufio.NewWriter(hf)
	for h := range hashes {
		binary.Write(w, binary.LittleEndian, h)
	}
	w.Flush()
	hf.Close()
	out.NonTrivial = len(hashes)
	j, _ := json.Marshal(&out)
	os.WriteFile(*fWork+".json", j, 0o666)
}

// one runs a single case under limits; the exit status tells what happened.
func one(p *pbt.Prop) {
	limit(p, 40)
	if f := os.Getenv("PBT_CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	o := pbt.RunCase(p, *fSeed, *fFrom, *fTier == "thorough", nil, false)
	if o.HarnessErr {
		fmt.Println(o.Msg)
		os.Exit(2)
	}
	if o.Failed {
		fmt.Println(o.Msg)
		os.Exit(1)
	}
}

func shrink(p *pbt.Prop) {
	limit(p, 0)
	var rf replayFile
	d, err := os.ReadFile(*fWork)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(d, &rf); err != nil {
		panic(err)
	}
	last := time.Now()
	write := func(draws []uint64, o pbt.Outcome, force bool) {
		if !force && time.Since(last) < 200*time.Millisecond {
			return
		}
		last = time.Now()
		r := rf
		r.Draws, r.Message, r.Logs, r.Shrunk = draws, o.Msg, o.Logs, true
		writeJSON(*fWork, &r)
	}
	draws, o := pbt.Shrink(p, rf.Seed, rf.Index, rf.Thorough, rf.Draws, 40*time.Second, func(d []uint64, o pbt.Outcome) { write(d, o, false) })
	if o.Failed {
		write(draws, o, true)
	}
}

func writeJSON(path string, v any) {
	j, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path+".tmp", append(j, '\n'), 0o666); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

func replay(path string) int {
	var rf replayFile
	d, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if err := json.Unmarshal(d, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	p := pbt.Registry[rf.Prop]
	if p == nil {
		fmt.Println("no such property")
		return 2
	}
	limit(p, 60)
	o := pbt.RunCase(p, rf.Seed, rf.Index, rf.Thorough, rf.Draws, !rf.Raw)
	for _, l := range o.Logs {
		fmt.Println(l)
	}
	if o.Sample != "" {
		fmt.Println("case:", o.Sample)
	}
	switch {
	case o.HarnessErr:
		fmt.Println("HARNESS ERROR:", o.Msg)
		return 2
	case o.Failed:
		fmt.Println("FAILED:", o.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Prop, path)
		return 1
	}
	fmt.Println("passed")
	return 0
}

type wstate struct {
	cmd    *exec.Cmd
	prefix string
	stderr string
	done   chan error
}

func run(p *pbt.Prop) int {
	start := time.Now()
	thorough := *fTier == "thorough"
	n := p.Quick
	if thorough {
		n = p.Thorough
	}
	if *fN > 0 {
		n = *fN
	}
	n = max(n / *fPart, 1)
	*fN = n
	nw := p.Workers
	if nw == 0 {
		nw = 8
	}
	if *fWorker > 0 {
		nw = *fWorker
	}
	if nw > n {
		nw = n
	}
	dir, err := os.MkdirTemp("", "pbt-"+p.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()

	var mu sync.Mutex
	var outs []workerOut
	var fails []*replayFile
	var herr string
	hashes := map[uint64]bool{}

	setStop := func(idx int) {
		best := idx
		for _, f := range fails {
			if f.Index < best {
				best = f.Index
			}
		}
		os.WriteFile(filepath.Join(dir, "stop.tmp"), []byte(strconv.Itoa(best)), 0o666)
		os.Rename(filepath.Join(dir, "stop.tmp"), filepath.Join(dir, "stop"))
	}
	collect := func(prefix string) bool {
		d, err := os.ReadFile(prefix + ".json")
		if err != nil {
			return false
		}
		var wo workerOut
		if json.Unmarshal(d, &wo) != nil {
			return false
		}
		mu.Lock()
		defer mu.Unlock()
		outs = append(outs, wo)
		if wo.Failure != nil {
			fails = append(fails, wo.Failure)
			setStop(wo.Failure.Index)
		}
		if wo.HarnessErr != "" && herr == "" {
			herr = wo.HarnessErr
		}
		if hf, err := os.ReadFile(prefix + ".hashes"); err == nil {
			for i := 0; i+8 <= len(hf); i += 8 {
				hashes[binary.LittleEndian.Uint64(hf[i:])] = true
			}
		}
		return true
	}
	progress := func(prefix string) int {
		d, err := os.ReadFile(prefix + ".progress")
		if err != nil || len(d) < 8 {
			return -1
		}
		return int(binary.LittleEndian.Uint64(d)) - 1
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := w
			for attempt := 0; from < n; attempt++ {
				prefix := filepath.Join(dir, fmt.Sprintf("w%d.%d", w, attempt))
				ef, _ := os.Create(prefix + ".stderr")
				cmd := exec.Command(self, "-mode", "worker", "-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed),
					"-from", fmt.Sprint(from), "-stride", fmt.Sprint(nw), "-n", fmt.Sprint(n), "-work", prefix)
				cmd.Stderr, cmd.Stdout = ef, ef
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				if err := cmd.Start(); err != nil {
					mu.Lock()
					herr = err.Error()
					mu.Unlock()
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				lastIdx, lastT := -2, time.Now()
				stalled := false
			wait:
				for {
					select {
					case <-done:
						break wait
					case <-time.After(time.Second):
						if i := progress(prefix); i != lastIdx {
							lastIdx, lastT = i, time.Now()
						} else if time.Since(lastT) > time.Duration(*fStall)*time.Second {
							stalled = true
							cmd.Process.Kill()
							<-done
							break wait
						}
					}
				}
				ef.Close()
				if !stalled && collect(prefix) {
					return
				}
				// The worker died or stood still on some case: run it alone.
				idx := progress(prefix)
				se := tail(prefix + ".stderr")
				if idx < 0 {
					mu.Lock()
					herr = "worker did not start: " + se
					mu.Unlock()
					return
				}
				if p.Race && strings.Contains(se, "DATA RACE") {
					mu.Lock()
					if strings.Contains(se, "github.com/golang/freetype") {
						fails = append(fails, &replayFile{Prop: p.ID, Seed: *fSeed, Index: idx, Thorough: thorough, Raw: true, Message: "data race:\n" + se, Kind: "race"})
						setStop(idx)
					} else {
						herr = "data race in the harness: " + se
					}
					mu.Unlock()
					return
				}
				kind, msg := isolate(self, p, idx)
				mu.Lock()
				switch kind {
				case "ok":
					// Not reproduced alone (a slow machine): go on behind it.
					mu.Unlock()
					fmt.Fprintf(os.Stderr, "case %d: worker ended or stalled (%s), not reproduced alone\n", idx, firstLine(se))
					from = idx + nw
					if attempt > 20 {
						mu.Lock()
						herr = "too many dead workers: " + se
						mu.Unlock()
						return
					}
					continue
				case "harness":
					if herr == "" {
						herr = fmt.Sprintf("case %d: %s", idx, msg)
					}
				default:
					fails = append(fails, &replayFile{Prop: p.ID, Seed: *fSeed, Index: idx, Thorough: thorough, Raw: true, Message: msg, Kind: kind})
					setStop(idx)
				}
				mu.Unlock()
				return
			}
		}(w)
	}
	wg.Wait()

	tot := workerOut{Classes: map[string]int{}}
	for _, o := range outs {
		tot.Evaluations += o.Evaluations
		tot.Discarded += o.Discarded
		tot.Inner += o.Inner
		for k, v := range o.Classes {
			tot.Classes[k] += v
		}
		tot.Samples = append(tot.Samples, o.Samples...)
	}
	sort.Strings(tot.Samples)
	if len(tot.Samples) > 6 {
		tot.Samples = tot.Samples[:6]
	}
	status := 0
	result := "held on everything explored"
	replayPath := ""
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].Index < fails[j].Index })
		f := fails[0]
		rd := filepath.Join(*fDir, "evidence", "replays")
		os.MkdirAll(rd, 0o777)
		replayPath = filepath.Join(rd, fmt.Sprintf("%s-%d-%d.json", p.ID, *fSeed, f.Index))
		writeJSON(replayPath, f)
		if f.Kind == "failed" && !*fNoShr {
			cmd := exec.Command(self, "-mode", "shrink", "-prop", p.ID, "-work", replayPath)
			cmd.Start()
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				cmd.Process.Kill()
				<-done
			}
			var s replayFile
			if d, err := os.ReadFile(replayPath); err == nil && json.Unmarshal(d, &s) == nil {
				f = &s
			}
		}
		status = 1
		result = "violated: " + firstLine(f.Message)
		for _, l := range f.Logs {
			fmt.Println("  " + l)
		}
		fmt.Printf("property %s: case %d (%d draws):\n%s\n", p.ID, f.Index, len(f.Draws), f.Message)
	} else if herr != "" {
		status = 2
		result = "error of the check: " + firstLine(herr)
		fmt.Println("ERROR OF THE CHECK:", herr)
	}
	wall := time.Since(start).Seconds()
	if !*fNoEv {
		ev := map[string]any{
			"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "wall_s": wall,
			"coverage": map[string]any{
				"evaluations": tot.Evaluations, "distinct_nontrivial": len(hashes), "rule": p.Rule,
				"samples": tot.Samples, "inner_checks": tot.Inner, "discarded": tot.Discarded, "classes": tot.Classes,
				"workers": nw, "result": result,
			},
		}
		os.MkdirAll(filepath.Join(*fDir, "evidence"), 0o777)
		writeJSON(filepath.Join(*fDir, "evidence", p.ID+".json"), ev)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inner checks, %.1fs: %s\n", p.ID, *fTier, *fSeed, tot.Evaluations, len(hashes), tot.Inner, wall, result)
	if status == 0 {
		for _, l := range known(p.ID) {
			fmt.Println(l)
		}
	}
	if status == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
	}
	return status
}

// known prints the known findings of this property.
func known(id string) []string {
	d, err := os.ReadFile(filepath.Join(*fDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(d), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "finding: "))
		}
	}
	return out
}

func isolate(self string, p *pbt.Prop, idx int) (kind, msg string) {
	cmd := exec.Command(self, "-mode", "one", "-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-from", fmt.Sprint(idx))
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	if err := cmd.Start(); err != nil {
		return "harness", err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(400 * time.Second):
		cmd.Process.Kill()
		<-done
		return "harness", "isolated case neither ended nor used its CPU limit"
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	out := b.String()
	if len(out) > 4000 {
		out = out[:4000]
	}
	switch {
	case ws.Exited() && ws.ExitStatus() == 0:
		return "ok", ""
	case ws.Exited() && ws.ExitStatus() == 1:
		return "crash", out
	case ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) &&
		cmd.ProcessState.UserTime()+cmd.ProcessState.SystemTime() > 35*time.Second,
		strings.Contains(out, "SIGXCPU"):
		return "hang", "the case did not end within 40 s of CPU time\n" + out
	case strings.Contains(out, "stack overflow") && strings.Contains(out, "github.com/golang/freetype"):
		return "overflow", "stack overflow:\n" + out
	case strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory"):
		return "memory", "the case ran out of 8 GB of address space:\n" + out
	}
	return "harness", fmt.Sprintf("worker died: %v: %s", cmd.ProcessState, out)
}

func tail(path string) string {
	d, _ := os.ReadFile(path)
	if len(d) > 6000 {
		d = d[:6000]
	}
	return string(d)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
