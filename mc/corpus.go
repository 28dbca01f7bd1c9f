package main

import (
	_ "embed"
	"strings"
)

// Two real beatmaps (copies of /repo/test), used as corpora next to the generated inputs.

//go:embed corpus/a.osu
var corpusA string

//go:embed corpus/b.osu
var corpusB string

var corpora = []string{corpusA, corpusB}

// corpusLines splits a corpus map into everything before [HitObjects] and the object lines.
func corpusLines(i int) (head string, objs []string) {
	s := strings.ReplaceAll(corpora[i], "\r", "")
	k := strings.Index(s, "[HitObjects]")
	head = s[:k] + "[HitObjects]\n"
	for _, l := range strings.Split(s[k:], "\n")[1:] {
		if strings.TrimSpace(l) != "" {
			objs = append(objs, l)
		}
	}
	return
}
