package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n      (\S+):(\d+)`)

// collectRaces turns the race detector's reports into violations (those with library frames on both... or either side).
func collectRaces(p *Property, work string, m *merged) {
	files, _ := filepath.Glob(filepath.Join(work, "race.*"))
	seen := map[string]bool{}
	known := loadKnown(p.ID)
	reports := 0
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			reports++
			// the two access stacks: first library frame of each
			var keys []string
			for _, sec := range strings.Split(rep, "\n\n") {
				if strings.Contains(sec, "Goroutine ") && !strings.Contains(sec, "WARNING") {
					break
				}
				top := ""
				for _, fr := range raceFrame.FindAllStringSubmatch(sec, -1) {
					if strings.HasPrefix(fr[1], "www.velocidex.com/golang/vfilter") {
						top = strings.TrimPrefix(fr[1], "www.velocidex.com/golang/")
						break
					}
				}
				if top != "" {
					keys = append(keys, top)
				}
			}
			if len(keys) == 0 {
				m.inconcl = append(m.inconcl, "data race without library frames:\n"+rep)
				continue
			}
			sort.Strings(keys)
			key := strings.Join(keys, " | ")
			if seen[key] {
				continue
			}
			seen[key] = true
			id := "race:" + strings.ReplaceAll(key, " ", "")
			if text, ok := known[id]; ok {
				m.known[text+" ["+id+"]"] = true
				continue
			}
			if len(rep) > 5000 {
				rep = rep[:5000]
			}
			m.viols = append(m.viols, Violation{"race", "data race: " + key + "\n" + rep, "", len(seen)})
		}
	}
	m.counters["race_reports"] = int64(reports)
	_ = fmt.Sprint
}
