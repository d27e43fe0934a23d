package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
)

// A check may be split in tasks that do not depend on each other (one entry point each, usually). Each runs in a process of its own,
// as the analysis keeps its symbol tables in globals; the parent merges their obligations.

type taskResult struct {
	Obs    []*Ob
	Counts map[string]int
	Assume []string
	Notes  []string
	Facts  map[string]string
}

func (c *Ctx) task(name string, f func()) {
	if c.taskName != "" {
		if c.taskName == name {
			f()
		}
		return
	}
	for _, t := range c.tasks {
		if t == name {
			panic("duplicate task " + name)
		}
	}
	c.tasks = append(c.tasks, name)
	c.taskFns = append(c.taskFns, f)
}

func (c *Ctx) runTasks(repo, verif string) {
	tasks := c.tasks
	c.tasks = nil
	if len(tasks) == 0 {
		return
	}
	if len(tasks) == 1 || os.Getenv("WR_SEQ") != "" {
		for _, f := range c.taskFns {
			resetGlobals()
			f()
		}
		return
	}
	self, err := os.Executable()
	if err != nil {
		c.ob("internal", "executable", false, "", err.Error())
		return
	}
	res := make([]*taskResult, len(tasks))
	errs := make([]string, len(tasks))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, t := range tasks {
		wg.Add(1)
		go func(i int, t string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			cmd := exec.Command(self, c.id, "-repo", repo, "-verif", verif)
			cmd.Env = append(os.Environ(), "WR_TASK="+t)
			var out, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &eb
			if err := cmd.Run(); err != nil {
				errs[i] = fmt.Sprintf("%v: %s", err, tail(eb.String(), 600))
				return
			}
			r := &taskResult{}
			if err := json.Unmarshal(out.Bytes(), r); err != nil {
				errs[i] = err.Error() + ": " + tail(out.String(), 300)
				return
			}
			res[i] = r
		}(i, t)
	}
	wg.Wait()
	for i, r := range res {
		if r == nil {
			c.ob("internal", "task "+tasks[i], false, "", errs[i])
			continue
		}
		c.merge(r)
	}
}

func (c *Ctx) merge(r *taskResult) {
	for _, o := range r.Obs {
		x := c.obs[o.Key]
		if x == nil {
			c.obs[o.Key] = o
			c.order = append(c.order, o.Key)
			continue
		}
		x.Count += o.Count
		if x.OK && !o.OK {
			x.OK, x.Where, x.Msg = false, o.Where, o.Msg
		}
	}
	for k, v := range r.Counts {
		c.counts[k] += v
	}
	for _, a := range r.Assume {
		c.assumption(a)
	}
	for _, n := range r.Notes {
		c.note(n)
	}
}

func (c *Ctx) result() *taskResult {
	r := &taskResult{Counts: c.counts, Assume: c.assume, Notes: c.notes}
	for _, k := range c.order {
		r.Obs = append(r.Obs, c.obs[k])
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
