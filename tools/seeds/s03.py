ID='s03-ordered-map-reset'; PROP='U01'
NEEDS='an ordered map in which an existing key is set again and then removed'
BREAKS='setting an existing key leaves its stale entry in the list, so the key is iterated twice and the cache evicts the wrong entries'
EDITS=[('util/map.go','''		o.dict[key] = elem
		o.list.Remove(old)
		return elem
''','''		o.dict[key] = elem
		if old.Next() != elem {
			o.list.Remove(old)
		}
		return elem
''')]
IMPORTS=['"github.com/hsiaosiyuan0/mole/util"']
DEMO='''func main() {
	m := util.NewOrderedMap[string, int]()
	m.Set("a", 1)
	m.Set("b", 2)
	m.Set("b", 3)
	n := 0
	for e := m.Front(); e != nil; e = e.Next() {
		n++
	}
	if n != 2 {
		fail("want 2 entries, got %d", n)
	}
}'''
