package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// finding is a genuine defect that is recorded and not repaired: one input
// with what the property demands of it.
type finding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // accepted, reformat, heredoc, slow
	Input    string `json:"input"`
	Want     string `json:"want,omitempty"`
	What     string `json:"what"`
}

const findingsFile = "known-findings.txt"

func loadFindings() (out []finding) {
	f, err := os.Open(filepath.Join(*flagDir, findingsFile))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if line := strings.TrimSpace(sc.Text()); strings.HasPrefix(line, "{") {
			var x finding
			must(json.Unmarshal([]byte(line), &x))
			out = append(out, x)
		}
	}
	return out
}

// knownFindings runs the recorded inputs of a property again and reports those
// that still fail.
func knownFindings(p *prop) {
	for _, f := range loadFindings() {
		if f.Property != p.id {
			continue
		}
		if problem := f.fails(); problem != "" {
			fmt.Printf("KNOWN-FINDING: property=%s input %q: %s (%s)\n", p.id, f.Input, f.What, strings.ReplaceAll(clipTo(problem, 200), "\n", " "))
		}
	}
}

func (f finding) fails() (problem string) {
	defer func() {
		if e := recover(); e != nil {
			problem = fmt.Sprint("panic: ", e)
		}
	}()
	if f.Kind == "slow" {
		if used := cpu(func() { _, _ = etx.ParseString(f.Input) }); used > 100*time.Millisecond {
			return fmt.Sprintf("%d bytes take %v", len(f.Input), used.Round(10*time.Millisecond))
		}
		return ""
	}
	a, err := etx.ParseString(f.Input)
	if err != nil {
		return err.Error()
	}
	switch f.Kind {
	case "accepted":
	case "reformat":
		_, problem = new(C).reformat(f.Input, a)
	case "reformat-twice":
		first := a.FormattedString()
		b, err := etx.ParseString(first)
		if err != nil {
			return err.Error()
		}
		if second := b.FormattedString(); second != first {
			return "formatting again changes the text: " + firstDifference(first, second)
		}
	case "heredoc":
		got, _ := project(a)
		body := ""
		got.walk(func(n *N) {
			if n.K == "heredoc" {
				for _, fr := range n.C {
					body += fr.K + ":" + fr.V + ";"
				}
			}
		})
		if body != f.Want {
			return fmt.Sprintf("the body is read as %q", body)
		}
	default:
		panic("harness: unknown kind of finding " + f.Kind)
	}
	return problem
}
