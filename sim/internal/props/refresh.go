package props

import (
	"vsim/internal/gen"
	"vsim/internal/kern"
	"vsim/internal/sim"
)

func refreshProc(name string) kern.ProcSpec {
	return kern.ProcSpec{Name: name, Bin: "yisp", Args: []string{"cache-kube-schemas"}, Env: gen.Env(), Cwd: "/work", Salt: 1, Stdin: &kern.StreamSpec{Parts: []string{"\n"}}}
}

func kubectl(c *gen.Cluster) kern.ProgSpec {
	return kern.ProgSpec{Path: "/usr/bin/kubectl", Kind: "fixed", Stdout: []string{c.Body}, Stderr: "warning: x\n"}
}

// refreshCase is one refresh of an empty cache.
func refreshCase(r *sim.Rand, prop string, n int) *sim.Case {
	cl := gen.NewCluster(r, n, "new")
	w := kern.WorldSpec{Files: []kern.FileSpec{gen.Config()}, Progs: []kern.ProgSpec{kubectl(cl)}}
	cs := one(nil, prop, "refresh", w, refreshProc("a"))
	cs.Tags = []string{"refresh"}
	return cs
}
