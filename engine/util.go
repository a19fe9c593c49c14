package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

type syncMap[K comparable, V any] struct {
	mu sync.RWMutex
	m  map[K]V
}

func newSyncMap[K comparable, V any]() *syncMap[K, V] { return &syncMap[K, V]{m: map[K]V{}} }
func (s *syncMap[K, V]) get(k K) (V, bool) {
	s.mu.RLock()
	v, ok := s.m[k]
	s.mu.RUnlock()
	return v, ok
}
func (s *syncMap[K, V]) put(k K, v V) {
	s.mu.Lock()
	s.m[k] = v
	s.mu.Unlock()
}

var debugOn = os.Getenv("VERIF_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, "debug: "+f+"\n", a...)
	}
}

var forkMu sync.Mutex
var forkSites = map[string]int{}

func forkSite(p *Path) {
	k := p.harness + " " + p.ctxString(p.cur)
	forkMu.Lock()
	forkSites[k]++
	forkMu.Unlock()
}

var siteTime = map[string]time.Duration{}
var siteCount = map[string]int{}

func timeSite(p *Path, d time.Duration) {
	k := p.harness + " " + p.ctxString(p.cur)
	forkMu.Lock()
	siteTime[k] += d
	siteCount[k]++
	forkMu.Unlock()
}

func dumpForks() {
	if !debugOn {
		return
	}
	var ts []string
	for k := range siteTime {
		ts = append(ts, k)
	}
	sort.Slice(ts, func(i, j int) bool { return siteTime[ts[i]] > siteTime[ts[j]] })
	for i, k := range ts {
		if i > 15 {
			break
		}
		fmt.Fprintf(os.Stderr, "time %8.2fs %6d %s\n", siteTime[k].Seconds(), siteCount[k], k)
	}
	var ks []string
	for k := range forkSites {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkSites[ks[i]] > forkSites[ks[j]] })
	for i, k := range ks {
		if i > 25 {
			break
		}
		fmt.Fprintf(os.Stderr, "fork %6d %s\n", forkSites[k], k)
	}
}
