KEY="lru"
F="library/cachex/lrucache.go"
# own list of keys (glist), evict before insert, check expiry before usage
EDITS=[
(F,'''	"container/list"
	"context"
	"sync"
	"time"
)''','''	"context"
	"sync"
	"time"

	list "github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
)'''),
(F,'''		lruList: list.New(),
		lruMap:  make(map[any]*item2[V], caption),''','''		lruList: list.New[*item2[K, V]](),
		lruMap:  make(map[K]*item2[K, V], caption),'''),
(F,'''	lruMap  map[any]*item2[V]
	lruList *list.List
''','''	lruMap  map[K]*item2[K, V]
	lruList *list.List[*item2[K, V]]
'''),
(F,'''	if tmp.expireTime.Before(time.Now()) {
''','''	if tmp.expireTime.Compare(time.Now()) < 0 {
'''),
(F,'''		tmp.expireTime = time.Now().Add(ttl)
		lc''','''		tmp.expireTime = time.Now().Add(ttl)
		lc'''),
(F,'''	el := lc.lruList.PushFront(key)
	lc.lruMap[key] = &item2[V]{
		val:        value,
		usedCount:  0,
		expireTime: time.Now().Add(ttl),
		el:         el,
	}

	for lc.lruList.Len() > lc.caption {
		last := lc.lruList.Back()
		delete(lc.lruMap, last.Value)
		lc.lruList.Remove(last)
	}
''','''	for lc.lruList.Len() >= lc.caption {
		last := lc.lruList.Back()
		delete(lc.lruMap, last.Value.key)
		lc.lruList.Remove(last)
	}

	it := &item2[K, V]{
		key:        key,
		val:        value,
		usedCount:  0,
		expireTime: time.Now().Add(ttl),
	}
	it.el = lc.lruList.PushFront(it)
	lc.lruMap[key] = it
'''),
(F,'''type item2[V any] struct {
	expireTime time.Time // Expiration time
	val        V
	el         *list.Element
''','''type item2[K comparable, V any] struct {
	expireTime time.Time // Expiration time
	key        K
	val        V
	el         *list.Element[*item2[K, V]]
'''),
]
