package main

import "fmt"

// child derives an independent random source, so that every history can be regenerated alone.
func (r R) child() R { return newR(r.Int63()) }

func histories(name string, ms ...mix) {
	drivers[name] = func(r R, count int, s *sink) {
		for k := 0; k < count; k++ {
			s.put(history(r.child(), ms[k%len(ms)], fmt.Sprintf("%s-%d", name, k)))
		}
	}
}

type W = map[string]int

var anyKind = []string{"po", "po", "mo", "dom"}

func init() {
	// singular lookups
	histories("C01", mix{kinds: anyKind, mut: W{"set": 6, "setn": 3, "parse": 3, "drop": 1, "bin": 1, "setrefs": 1},
		obs: W{"get": 6, "append": 2, "istr": 1}, steps: 16, probes: 2, sweep: true, args: 0.2, bad: 0.1, ids: 8, ctxs: 4})
	// plural lookups
	histories("C02", mix{kinds: anyKind, mut: W{"set": 2, "setn": 6, "parse": 3, "drop": 1, "bin": 1, "res": 2},
		obs: W{"getn": 6, "appendn": 2, "get": 1}, steps: 16, probes: 3, sweep: true, args: 0.1, bad: 0.15, ids: 6, ctxs: 3})
	// IsTranslated
	histories("C03", mix{kinds: anyKind, mut: W{"set": 4, "setn": 4, "parse": 3, "drop": 1, "bin": 1, "res": 2, "setrefs": 1},
		obs: W{"istr": 4, "istrn": 4, "get": 1, "getn": 1}, steps: 16, probes: 3, sweep: true, bad: 0.15, ids: 6, ctxs: 3})
	// PO files
	histories("C05", mix{kinds: []string{"po"}, mut: W{"parse": 6, "set": 1},
		obs: W{"get": 2, "getn": 2, "getrefs": 1, "snap": 2}, steps: 2, probes: 2, sweep: true, bad: 0.1, ids: 14, ctxs: 4},
		mix{kinds: []string{"po"}, mut: W{"parse": 6, "set": 1, "setn": 1, "drop": 1},
			obs: W{"get": 2, "getn": 2, "getrefs": 1, "snap": 2}, steps: 6, probes: 1, sweep: true, bad: 0.1, ids: 6, ctxs: 2})
	// MarshalText
	histories("C08", mix{kinds: []string{"po", "po", "dom", "mo"}, mut: W{"set": 4, "setn": 4, "parse": 4, "drop": 1, "bin": 1, "setrefs": 4, "hset": 1, "hadd": 1, "hdel": 1},
		obs: W{"text": 3}, steps: 10, probes: 1, sweep: true, bad: 0.15, ids: 8, ctxs: 3})
	// binary encoding
	histories("C09", mix{kinds: anyKind, mut: W{"set": 3, "setn": 3, "parse": 4, "drop": 1, "bin": 8, "setrefs": 2, "hset": 1},
		obs: W{"get": 1, "getn": 2, "istr": 1, "istrn": 1, "snap": 1, "headers": 1, "getrefs": 1}, steps: 14, probes: 1, sweep: true, bad: 0.15, ids: 5, ctxs: 2})
	// formatting
	histories("C10", mix{kinds: anyKind, mut: W{"set": 6, "setn": 6, "parse": 3},
		obs: W{"get": 3, "append": 3, "getn": 3, "appendn": 3, "fmt": 3, "nfmt": 4}, steps: 8, probes: 12, args: 0.7, rich: 0.5, bad: 0.1, ids: 6, ctxs: 2})
	// snapshots
	histories("C17", mix{kinds: anyKind, mut: W{"set": 4, "setn": 4, "parse": 3, "drop": 2, "bin": 1, "setrefs": 3, "snap": 6, "mutsnap": 3},
		obs: W{"resnap": 3, "snap": 1, "get": 1, "getn": 1, "getrefs": 1}, steps: 16, probes: 2, sweep: true, bad: 0.1, ids: 5, ctxs: 2})
	// stale translations
	histories("C18", mix{kinds: anyKind, mut: W{"set": 4, "setn": 4, "parse": 3, "drop": 4, "bin": 1, "setrefs": 4},
		obs: W{"getrefs": 2, "snap": 3, "get": 1}, steps: 16, probes: 1, sweep: true, bad: 0.1, ids: 6, ctxs: 3})
	// headers
	histories("C22", mix{kinds: []string{"po", "mo", "po"}, mut: W{"parse": 6, "hset": 2, "hadd": 2, "hdel": 2, "bin": 1, "drop": 1},
		obs: W{"headers": 3, "hget": 2, "hvals": 2, "getn": 1}, steps: 12, probes: 3, sweep: true, bad: 0.15, ids: 3, ctxs: 1})
}
