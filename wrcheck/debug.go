package main

import (
	"os"
	"strings"
)

func init() {
	register("debug", "developer aid", func(c *Ctx) {
		for _, n := range strings.Fields(os.Getenv("WR_ENTRY")) {
			e := c.engine()
			c.containers(e)
			c.watchPanics(e)
			parts := strings.Split(n, ".")
			if len(parts) == 1 {
				c.runEntry(e, c.fn(n), nil)
			} else if parts[0] == "v" {
				if len(parts) == 2 {
					c.runEntry(e, c.vfn(parts[1]), nil)
				} else {
					c.runEntry(e, c.vmeth(parts[1], parts[2]), nil)
				}
			} else {
				c.runEntry(e, c.meth(parts[0], parts[1]), nil)
			}
			c.finish(e)
		}
	})
}
