package pbt

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// raceEnv makes the race detector, in checks built with it, append its reports to a file and repeat itself.
func raceEnv(dir string) string {
	return "GORACE=log_path=" + filepath.Join(dir, "race") + " exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0"
}

var raceSeen int

// Races returns what the race detector reported since the last call.
func Races() string {
	b, err := os.ReadFile(filepath.Join(os.Getenv("TMPDIR"), fmt.Sprintf("race.%d", os.Getpid())))
	if err != nil || len(b) <= raceSeen {
		return ""
	}
	s := string(b[raceSeen:])
	raceSeen = len(b)
	return s
}

// journalOf is where worker k leaves its current case, in checks built with the race detector.
func journalOf(dir string, k int) string {
	if !raceBuild {
		return ""
	}
	return filepath.Join(dir, fmt.Sprintf("journal.%d.json", k))
}

// racesBelow returns what the race detector reported in a worker's directory.
func racesBelow(dir string) string {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil && len(b) > 0 {
			return Trace(string(b))
		}
	}
	return ""
}

// Trace keeps the functions of a report of the race detector.
func Trace(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") || strings.Contains(l, " by ") {
			b.WriteString(strings.TrimSpace(l) + "; ")
		}
		if b.Len() > 700 {
			break
		}
	}
	return b.String()
}
