package main

import (
	"encoding/json"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// Specs are reviewed tables committed under /verif/spec; checks never rewrite them.
func readSpec(name string, v any) bool {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "spec", name))
	if err != nil {
		return false
	}
	return json.Unmarshal(b, v) == nil
}

func writeSpec(name string, v any) {
	os.MkdirAll(filepath.Join(verifRoot(), "spec"), 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(verifRoot(), "spec", name), append(b, '\n'), 0o644)
}

func writeSpecCompact(name string, v any) {
	b, _ := json.Marshal(v)
	s := strings.ReplaceAll(string(b), "},{\"k\":", "},\n{\"k\":")
	os.WriteFile(filepath.Join(verifRoot(), "spec", name), []byte(s+"\n"), 0o644)
}

// structFields lists field name:type of every struct of a package, for rename inference.
func structFields(p *Prog, rel string) map[string][]string {
	out := map[string][]string{}
	pk := p.Pkgs[rel]
	if pk == nil {
		return out
	}
	for _, n := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fs := []string{}
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i).Name()+" "+typeShort(s.Field(i).Type()))
		}
		out[n] = fs
	}
	return out
}

// renames infers field renames between the reviewed tree and the current one: a struct whose
// vanished and new fields pair up by type, in order. Result maps "Struct.new" -> "Struct.old".
func renames(spec, cur map[string][]string) map[string]string {
	out := map[string]string{}
	for s, of := range spec {
		nf, ok := cur[s]
		if !ok {
			continue
		}
		have := map[string]bool{}
		for _, f := range nf {
			have[f] = true
		}
		old := map[string]bool{}
		for _, f := range of {
			old[f] = true
		}
		var gone, fresh []string
		for _, f := range of {
			if !have[f] {
				gone = append(gone, f)
			}
		}
		for _, f := range nf {
			if !old[f] {
				fresh = append(fresh, f)
			}
		}
		if len(gone) != len(fresh) {
			continue
		}
		for i := range gone {
			g, f := strings.SplitN(gone[i], " ", 2), strings.SplitN(fresh[i], " ", 2)
			if g[1] == f[1] {
				out[s+"."+f[0]] = s + "." + g[0]
			}
		}
	}
	return out
}

func applyRenames(rn map[string]string, xs []string) []string {
	if len(rn) == 0 {
		return xs
	}
	var out []string
	for _, x := range xs {
		for n, o := range rn {
			x = replaceWord(x, n, o)
		}
		out = append(out, x)
	}
	return out
}

func replaceWord(s, old, nw string) string {
	i := 0
	for {
		j := strings.Index(s[i:], old)
		if j < 0 {
			return s
		}
		j += i
		end := j + len(old)
		okL := j == 0 || !isWord(s[j-1])
		okR := end == len(s) || !isWord(s[end])
		if okL && okR {
			s = s[:j] + nw + s[end:]
			i = j + len(nw)
		} else {
			i = end
		}
	}
}
func isWord(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}
func toSet(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}
