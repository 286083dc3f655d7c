package vmodel

import (
	"github.com/VictoriaMetrics/fastcache"
)

// fastcache: an exact map that ignores entries it cannot store.
type centry struct {
	c    *fastcache.Cache
	k, v []byte
}

var cacheEnts []centry

func CacheNew(maxBytes int) *fastcache.Cache { return new(fastcache.Cache) }

func find(c *fastcache.Cache, k []byte) int {
	for i := range cacheEnts {
		e := &cacheEnts[i]
		if e.c == c && len(e.k) == len(k) && string(e.k) == string(k) {
			return i
		}
	}
	return -1
}

func CacheSet(c *fastcache.Cache, k, v []byte) {
	if len(k) >= 1<<16 || len(v) >= 1<<16 {
		return
	}
	if i := find(c, k); i >= 0 {
		cacheEnts[i].v = append([]byte(nil), v...)
		return
	}
	cacheEnts = append(cacheEnts, centry{c, append([]byte(nil), k...), append([]byte(nil), v...)})
}

func CacheHas(c *fastcache.Cache, k []byte) bool { return find(c, k) >= 0 }

func CacheGet(c *fastcache.Cache, dst, k []byte) []byte {
	if i := find(c, k); i >= 0 {
		return append(dst, cacheEnts[i].v...)
	}
	return dst
}

func CacheHasGet(c *fastcache.Cache, dst, k []byte) ([]byte, bool) {
	if i := find(c, k); i >= 0 {
		return append(dst, cacheEnts[i].v...), true
	}
	return dst, false
}

func CacheDel(c *fastcache.Cache, k []byte) {
	if i := find(c, k); i >= 0 {
		cacheEnts = append(cacheEnts[:i:i], cacheEnts[i+1:]...)
	}
}

func CacheReset(c *fastcache.Cache) {
	var out []centry
	for _, e := range cacheEnts {
		if e.c != c {
			out = append(out, e)
		}
	}
	cacheEnts = out
}
