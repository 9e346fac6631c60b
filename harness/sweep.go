package main

import "sync"

// The sweep goes through every edit of every small document: each token of
// tinyToks before, instead of and after each token, runs of tokens left out or
// written twice, neighbours exchanged, and each character of tinyChars before
// and instead of each character, and each character left out. The
// compositions follow.
type sweep struct {
	toks  [][]tok
	first []int // number of edits before those of a document
	edits int
	total int
}

const sweepBlock = 250 // edits per case

var (
	sweepOnce  sync.Once
	theSweep   sweep
	sweepChars = []rune(tinyChars)
)

const (
	sweepRuns  = 8
	sweepTwice = 4
)

func allEdits() *sweep {
	sweepOnce.Do(func() {
		s := &theSweep
		for _, t := range tinies {
			toks, _ := refLex(t)
			s.toks = append(s.toks, toks)
			s.first = append(s.first, s.edits)
			n, m := len(toks), len(t)
			s.edits += (n+1)*len(tinyToks) + n*(len(tinyToks)+sweepRuns+sweepTwice+1) + (m+1)*len(sweepChars) + m*(len(sweepChars)+1)
		}
		list, _ := composed()
		s.total = s.edits + len(list)
	})
	return &theSweep
}

func sweepCases() int { return (allEdits().total + sweepBlock - 1) / sweepBlock }

// text is the k-th edit; false if it is none or the same as another.
func (s *sweep) text(k int, gap string) (string, bool) {
	if k >= s.edits {
		list, _ := composed()
		return list[k-s.edits], true
	}
	lo, hi := 0, len(s.first)
	for hi-lo > 1 {
		if m := (lo + hi) / 2; s.first[m] <= k {
			lo = m
		} else {
			hi = m
		}
	}
	k -= s.first[lo]
	t, toks := tinies[lo], s.toks[lo]
	n, m, c := len(toks), len(t), len(sweepChars)
	at := func(i int) int {
		if i == n {
			return m
		}
		return toks[i].Off
	}
	if x := (n + 1) * len(tinyToks); k < x {
		o := at(k / len(tinyToks))
		return t[:o] + gap + tinyToks[k%len(tinyToks)] + gap + t[o:], true
	} else {
		k -= x
	}
	if x := n * len(tinyToks); k < x {
		i := k / len(tinyToks)
		return t[:toks[i].Off] + tinyToks[k%len(tinyToks)] + t[toks[i].end():], true
	} else {
		k -= x
	}
	if x := n * sweepRuns; k < x {
		i, j := k/sweepRuns, k/sweepRuns+k%sweepRuns
		if j >= n {
			return "", false
		}
		return t[:toks[i].Off] + t[toks[j].end():], true
	} else {
		k -= x
	}
	if x := n * sweepTwice; k < x {
		i, j := k/sweepTwice, k/sweepTwice+k%sweepTwice
		if j >= n {
			return "", false
		}
		return t[:toks[j].end()] + gap + t[toks[i].Off:toks[j].end()] + t[toks[j].end():], true
	} else {
		k -= x
	}
	if k < n {
		if k+1 >= n {
			return "", false
		}
		a, b := toks[k], toks[k+1]
		return t[:a.Off] + t[b.Off:b.end()] + t[a.end():b.Off] + t[a.Off:a.end()] + t[b.end():], true
	}
	k -= n
	if x := (m + 1) * c; k < x {
		i := k / c
		return t[:i] + string(sweepChars[k%c]) + t[i:], true
	} else {
		k -= x
	}
	if x := m * c; k < x {
		i := k / c
		return t[:i] + string(sweepChars[k%c]) + t[i+1:], true
	} else {
		k -= x
	}
	return t[:k] + t[k+1:], true
}

// unfit ends the judgement of a text that does not concern the property.
type unfit struct{}

// swept runs the property on the edits of a case: on all or on a part, chosen
// by the seed. Without the hook, parsing is slow and a smaller part has to do.
func (c *C) swept() {
	s := allEdits()
	blocks := sweepCases()
	part := c.p.sweep
	if *flagTier == "thorough" {
		part = 100
	} else if reused == nil {
		part = (part + 11) / 12
	}
	_, always := composed()
	always += s.edits
	for k := c.idx; k < s.total; k += blocks {
		gap := " "
		if c.r.p(12) {
			gap = ""
		}
		if !c.r.p(part) && (k < s.edits || k >= always) {
			continue
		}
		if src, ok := s.text(k, gap); ok {
			c.saw("edits swept", 1)
			c.inputs, c.given = nil, &src
			c.judgeGiven()
		}
	}
}

func (c *C) judgeGiven() {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unfit); !ok {
				panic(e)
			}
		}
	}()
	c.p.run(c)
}
