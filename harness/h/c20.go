package h

import (
	"fvh/sym"

	"github.com/abichinger/fastac/rbac"
	"github.com/abichinger/fastac/util"
)

// cacheLike is what both caches offer.
type cacheLike interface {
	Get(key interface{}) (value interface{}, ok bool)
	Put(key interface{}, value interface{})
}

type entry struct {
	key   string
	value int
}

// recent is the reference cache: the entries used last, the most recent first.
type recent struct {
	cap     int
	entries []entry
}

func (c *recent) take(key string) (entry, bool) {
	for i, e := range c.entries {
		if e.key == key {
			c.entries = append(append([]entry{}, c.entries[:i]...), c.entries[i+1:]...)
			return e, true
		}
	}
	return entry{}, false
}

func (c *recent) get(key string) (int, bool) {
	e, ok := c.take(key)
	if ok {
		c.entries = append([]entry{e}, c.entries...)
	}
	return e.value, ok
}

func (c *recent) put(key string, value int) {
	c.take(key)
	c.entries = append([]entry{{key, value}}, c.entries...)
	if len(c.entries) > c.cap {
		c.entries = c.entries[:c.cap]
	}
}

// C20_lru: any sequence of insertions and lookups on a cache of any small capacity.
func C20_lru() {
	c := &recent{cap: sym.Choose("capacity", 4)}
	var cache cacheLike = util.NewLRUCache(c.cap)
	if sym.Bool("synchronised") {
		cache = util.NewSyncLRUCache(c.cap)
	}
	n := pick(6, 7)
	for i := 0; i < n; i++ {
		key := sym.StrIn("key"+itoa(i), "abcd", 1, 1)
		if i == 0 || sym.Bool("put"+itoa(i)) {
			cache.Put(key, i)
			c.put(key, i)
			continue
		}
		v, ok := cache.Get(key)
		w, has := c.get(key)
		sym.Assert(ok == has, "a lookup does not find exactly the most recently used entries")
		if ok && has {
			sym.Assert(v == w, "a lookup returns another value than the one stored last")
		}
	}
	// everything left, the least recently used first, so that looking does not change the outcome
	for i := len(c.entries) - 1; i >= 0; i-- {
		v, ok := cache.Get(c.entries[i].key)
		sym.Assert(ok && v == c.entries[i].value, "an entry used recently is lost")
	}
	count := 0
	for _, k := range []string{"a", "b", "c", "d"} {
		if _, ok := cache.Get(k); ok {
			count++
		}
	}
	sym.Cover("end")
	sym.Assert(count == len(c.entries) && count <= c.cap, "the cache holds more entries than it may")
}

// C20_values: nil values and keys of different types are kept apart.
func C20_values() {
	cache := util.NewLRUCache(2)
	keys := []interface{}{"1", 1, int64(1), nil, true, [1]int{1}}
	a, b := sym.Choose("a", len(keys)), sym.Choose("b", len(keys))
	cache.Put(keys[a], nil)
	cache.Put(keys[b], "b")
	v, ok := cache.Get(keys[a])
	if a == b {
		sym.Assert(ok && v == "b", "a lookup returns another value than the one stored last")
	} else {
		sym.Assert(ok && v == nil, "a stored nil value is not found")
	}
	v, ok = cache.Get(keys[b])
	sym.Cover("end")
	sym.Assert(ok && v == "b", "a lookup returns another value than the one stored last")
}

// C20_separators: cached pattern matches of names which contain separators do not mix.
func C20_separators() {
	const chars = "a$:1*"
	n := pick(3, 3)
	a, b := sym.StrIn("a", chars, 1, n), sym.StrIn("b", chars, 1, n)
	c, d := sym.StrIn("c", chars, 1, n), sym.StrIn("d", chars, 1, n)
	r := rbac.NewRoleManager(10)
	r.SetMatcher(star{})
	hasLink(r, a, b)
	got := hasLink(r, c, d)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == below(c, d, star{}), "an answer comes from the cached match of other names")
}

// C20_domains: cached matches and merged domains do not mix either.
func C20_domains() {
	const chars = "a$:1/*"
	n := pick(2, 3)
	p, a, b := sym.StrIn("p", chars, 1, n), sym.StrIn("a", chars, 1, n), sym.StrIn("b", chars, 1, n)
	d := rbac.NewDomainManager(10)
	d.SetDomainMatcher(star{})
	_, _ = d.AddLink("u", "r", p)
	_, _ = d.AddLink("u", "s", "a", "*")
	hasLink(d, "u", "r", a)
	hasLink(d, "u", "s", a, b)
	got, got2 := hasLink(d, "u", "r", b), hasLink(d, "u", "s", b, a)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == below(b, p, star{}), "an answer comes from the cached match of another domain")
	sym.Assert(got2 == (b == "a"), "an answer comes from another domain path")
}

// C20_patterns: cached matches of several domain patterns which contain separators do not mix.
func C20_patterns() {
	sep := []string{"$$", ":", "/", ",", "\x00"}[sym.Choose("separator", 5)]
	p := sym.StrIn("p0", "ab", 0, 1) + sep + sym.StrIn("p1", "ab*", 1, 2)
	q := sym.StrIn("q", "ab*", 1, 2)
	a := sym.StrIn("a", "ab", 1, 1)
	b := sym.StrIn("b0", "ab", 1, 1) + sep + sym.StrIn("b1", "ab", 0, 1)
	d := rbac.NewDomainManager(10)
	d.SetDomainMatcher(star{})
	_, _ = d.AddLink("u", "r", p)
	_, _ = d.AddLink("v", "r", q)
	hasLink(d, "u", "r", a)
	got := hasLink(d, "v", "r", b)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == below(b, q, star{}), "an answer comes from the cached match of another domain")
	sym.Assert(hasLink(d, "u", "r", b) == below(b, p, star{}), "an answer comes from the cached match of another domain")
}

// C20_history: answers stay right while links and matchers change between queries.
func C20_history() {
	d := rbac.NewDomainManager(10)
	if sym.Bool("role patterns") {
		d.SetMatcher(caps{})
	}
	d.SetDomainMatcher(caps{})
	s := &ref{}
	steps := pick(3, 4)
	x, y := sym.StrIn("x", "abc", 1, 1), sym.StrIn("y", "ab", 1, 1)
	for i := 0; i < steps; i++ {
		l := []string{sym.StrIn("u"+itoa(i), "aAc", 1, 1), "r", sym.StrIn("d"+itoa(i), "aA*", 1, 1)}
		if i == 0 || sym.Bool("add"+itoa(i)) {
			_, _ = d.AddLink(l[0], l[1], l[2:]...)
			s.add(l)
		} else {
			_, _ = d.DeleteLink(l[0], l[1], l[2:]...)
			s.remove(l)
		}
		if i == 1 && sym.Bool("exchange") {
			d.SetMatcher(caps{})
		}
		if i%2 == 1 {
			hasLink(d, x, "r", y)
		}
	}
	d.SetMatcher(caps{})
	got := hasLink(d, x, "r", y)
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == reachPat(inDomain(s.rules, []string{y}, caps{}), x, "r", caps{}, 8), "a cached answer outlives the links it came from")
}

// C20_full: answers stay right once more matches were asked for than the caches hold.
func C20_full() {
	r := rbac.NewRoleManager(10)
	r.SetMatcher(star{})
	d := rbac.NewDomainManager(10)
	d.SetDomainMatcher(star{})
	_, _ = r.AddLink("a*", "r")
	_, _ = d.AddLink("u", "r", "a*")
	_, _ = d.AddLink("u", "s", "ab*")
	for i := 0; i < 103; i++ {
		hasLink(r, "a"+itoa(i), "r")
		hasLink(d, "u", "r", "a"+itoa(i))
	}
	x := "a" + sym.StrIn("x", "019b", 0, 2)
	y := sym.StrIn("y", "ab", 1, 2)
	sym.Cover("end")
	sym.Assert(hasLink(r, x, "r") && hasLink(d, "u", "r", x), "a link is lost when the cache is full")
	sym.Assert(hasLink(r, y, "r") == (y[0] == 'a') && hasLink(d, "u", "r", y) == (y[0] == 'a'), "an answer is wrong when the cache is full")
	sym.Assert(hasLink(d, "u", "s", y) == (y == "ab"), "a merged domain is wrong when the cache is full")
}

// C20_exchange: after the matcher was exchanged no result of the former one is used.
func C20_exchange() {
	name := func(n string) string { return sym.StrIn(n, "abcA*", 1, 1) }
	ms := []util.IMatcher{caps{}, star{}, nobody{}}
	m1, m2 := ms[sym.Choose("first", 3)], ms[sym.Choose("second", 3)]
	l1, l2 := []string{name("u1"), name("r1")}, []string{name("u2"), name("r2")}
	x, y := name("x"), name("y")
	kind := sym.Choose("kind", 3)
	var got, want bool
	switch kind {
	case 0: // role patterns of a role manager
		r := rbac.NewRoleManager(10)
		r.SetMatcher(m1)
		_, _ = r.AddLink(l1[0], l1[1])
		hasLink(r, x, y)
		r.SetMatcher(m2)
		_, _ = r.AddLink(l2[0], l2[1])
		got, want = hasLink(r, x, y), reachPat([][]string{l1, l2}, x, y, m2, 8)
	case 1: // role patterns of a domain manager
		d := rbac.NewDomainManager(10)
		d.SetMatcher(m1)
		_, _ = d.AddLink(l1[0], l1[1], "d")
		hasLink(d, x, y, "d")
		d.SetMatcher(m2)
		_, _ = d.AddLink(l2[0], l2[1], "d")
		got, want = hasLink(d, x, y, "d"), reachPat([][]string{l1, l2}, x, y, m2, 8)
	case 2: // domain patterns
		d := rbac.NewDomainManager(10)
		d.SetDomainMatcher(m1)
		_, _ = d.AddLink("u", "r", l1[0])
		_, _ = d.AddLink("u", "r", "d", l1[1])
		hasLink(d, "u", "r", x)
		hasLink(d, "u", "r", "d", y)
		d.SetDomainMatcher(m2)
		got, want = hasLink(d, "u", "r", x), below(x, l1[0], m2)
		got2, want2 := hasLink(d, "u", "r", "d", y), below("d", "d", m2) && below(y, l1[1], m2)
		sym.Assert(got2 == want2, "an answer comes from the former matcher")
	}
	sym.Observe("has", got)
	sym.Cover("end")
	sym.Assert(got == want, "an answer comes from the former matcher")
}

// nobody knows the patterns of star, but they match nothing.
type nobody struct{}

func (nobody) IsPattern(s string) bool { return star{}.IsPattern(s) }

func (nobody) Match(s, pattern string) bool { return false }

// C20_joined: queries for names and domains which are the same text when they are joined by anything do not mix.
func C20_joined() {
	sep := sym.Str("separator", 0, 2)
	d := rbac.NewDomainManager(10)
	d.SetDomainMatcher(star{})
	d.SetMatcher(star{})
	// name, role and domain of a link or a query
	qs := [][]string{{"a", "b" + sep + "c", "d"}, {"a" + sep + "b", "c", "d"}, {"a", "b", "c" + sep + "d"}, {"a", "b", "c", "d"}, {"a", "b" + sep + "c" + sep + "d"}}
	n := len(qs)
	l, m := qs[sym.Choose("linked", n)], qs[sym.Choose("linked too", n)]
	all := [][]string{l, m}
	_, _ = d.AddLink(l[0], l[1], l[2:]...)
	_, _ = d.AddLink(m[0], m[1], m[2:]...)
	if len(m) > 2 && sym.Bool("pattern domain") {
		// domains of which the links are merged
		p := append(clone(m[:2]), append([]string{m[2][:1] + "*"}, m[3:]...)...)
		_, _ = d.AddLink(p[0], p[1], p[2:]...)
		all = append(all, p)
	}
	sym.Cover("end")
	for _, q := range [][]string{qs[sym.Choose("first", n)], qs[sym.Choose("second", n)]} {
		want := reachPat(inDomain(all, q[2:], star{}), q[0], q[1], star{}, 5)
		sym.Assert(hasLink(d, q[0], q[1], q[2:]...) == want, "a query is answered for other names or domains")
	}
}
