package main

// G22: operations of several goroutines on different tables do not affect each other.
//
// The supervisor copies the source with scheduling points (inst/main.go), builds this program again with the tag
// verifsched against that copy (go build -overlay), and runs the exploration (g22x.go) in it.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

func schedBuild(dir, verif string) (bin string, err error) {
	inst := filepath.Join(dir, "inst")
	if err := os.MkdirAll(inst, 0755); err != nil {
		return "", err
	}
	bin = filepath.Join(dir, "mc-sched")
	for _, args := range [][]string{
		{"build", "-o", filepath.Join(dir, "instrument"), "./inst"},
		{},
		{"build", "-tags", "verifsched", "-overlay", filepath.Join(inst, "overlay.json"), "-o", bin, "."},
	} {
		cmd := exec.Command("go", args...)
		if len(args) == 0 {
			repo, err := modDir(filepath.Join(verif, "mc"))
			if err != nil {
				return "", err
			}
			cmd = exec.Command(filepath.Join(dir, "instrument"), repo, inst)
		}
		cmd.Dir = filepath.Join(verif, "mc")
		if b, err := cmd.CombinedOutput(); err != nil {
			return "", fmt.Errorf("%v: %v\n%s", args, err, clip(string(b), 2000))
		}
	}
	return bin, nil
}

// modDir is the directory of the library's source.
func modDir(mc string) (string, error) {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/urban-wombat/gotables")
	cmd.Dir = mc
	b, err := cmd.Output()
	for len(b) > 0 && b[len(b)-1] == '\n' {
		b = b[:len(b)-1]
	}
	return string(b), err
}

func schedSupervised(p *Parent) {
	bin, err := schedBuild(p.Dir, p.Verif)
	if err != nil {
		fmt.Println("cannot build the instrumented copy:", err)
		p.add(&ShardResult{Truncated: true, Notes: map[string]int64{"the instrumented copy could not be built: nothing was explored": 1}})
		os.RemoveAll(p.Dir)
		os.Exit(2)
	}
	id, old := p.ID, p.Bin
	p.ID, p.Bin = "G22X", bin
	p.runShards(supBase)
	if p.Tier == "thorough" {
		race := filepath.Join(p.Dir, "mc-race")
		cmd := exec.Command("go", "build", "-race", "-tags", "verifrace", "-o", race, ".")
		cmd.Dir = filepath.Join(p.Verif, "mc")
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		if b, err := cmd.CombinedOutput(); err != nil {
			p.Extra["race_detector"] = "could not be built: " + clip(string(b), 300)
		} else {
			os.Setenv("GORACE", "halt_on_error=1 exitcode=66")
			p.ID, p.Bin = "G22R", race
			p.runShards(supBase * 2)
			p.Extra["race_detector"] = "every pair of operations ran at the same time once"
		}
	}
	p.ID, p.Bin = id, old
}

func schedReplay(tier string, k int64) (f Failure, failed bool) {
	dir, err := os.MkdirTemp("", "mcreplay-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	verif := os.Getenv("VERIF_DIR")
	bin, err := schedBuild(dir, verif)
	if err != nil {
		panic(err)
	}
	if k >= supBase {
		return Failure{Desc: "race detector"}, false // replay_cmd of these: run the thorough check
	}
	p := &Parent{ID: "G22X", Tier: tier, Dir: dir, Bin: bin, Verif: verif, States: map[uint64]struct{}{}}
	r, _, why := p.runChild("replay", 200, supHang, "-only", fmt.Sprint(k))
	if r == nil {
		return Failure{Desc: p.describe(k), Msg: why}, true
	}
	if len(r.Failures) > 0 {
		return r.Failures[0], true
	}
	return
}

func init() {
	register(&Checker{
		ID: "G22",
		Rule: "Stateless exploration of the real code under a controlled scheduler: the library's source is copied with scheduling points at every access to a package-level variable that can hold mutable " +
			"state, at every function entry and (thorough) every loop iteration; read-modify-writes are split. Cases: every pair (and both starting orders) of the operations of a list covering parsing, printing, " +
			"every format, sorting, searching, merging, copying, editing, nesting, walking, generating, comparing, and their error paths, each goroutine on tables of its own; one operation per exported method of Table and TableSet, with itself and its neighbours; and operations on two copies of one table. In functions that use a mutable package variable every statement is a point (its first 4 visits). All schedules with one preemption at any point, " +
			"all with two preemptions at accesses to package-level variables (thorough: two anywhere for the short operations, and three goroutines). Oracle: every goroutine's results, error texts and final tables equal its solo run; " +
			"no two goroutines touch a package-level map without synchronisation when one writes it (the runtime may end the program for that).",
		Assumptions: []string{"interference below the scheduling points (inside one statement of the library, or inside the standard library) is not explored",
			"sync.Mutex, RWMutex, Once and Pool are modelled by versions that block in the scheduler (a Pool hands out what was put last)"},
		Supervised: schedSupervised,
		Replay:     schedReplay,
	})
}
