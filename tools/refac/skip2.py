# a helper for the next node on a level, the removed node unlinked level by level, a builder for String
KEY="skip"
F="gogenerics/gds/gskiplist/skiplist.go"
EDITS=[
(F,'''// findExtended''','''// findExtended''') if 0 else (F,'''func (t *SkipList[K, V]) findExtended(''','''// after returns what follows node on a level; nil stands before the first.
func (t *SkipList[K, V]) after(node *SkipListElement[K, V], level int) *SkipListElement[K, V] {
	if node == nil {
		return t.startLevels[level]
	}
	return node.next[level]
}

func (t *SkipList[K, V]) findExtended('''),
(F,'''	var currentNode *SkipListElement[K, V]
	nextNode := currentNode
	for {
		if currentNode == nil {
			nextNode = t.startLevels[index]
		} else {
			nextNode = currentNode.next[index]
		}

		// Found and remove.
''','''	var currentNode *SkipListElement[K, V]
	for {
		nextNode := t.after(currentNode, index)

		// Found and remove.
'''),
(F,'''		nextNode := t.startLevels[index]
		for {
			if currentNode == nil {
				nextNode = t.startLevels[index]
			} else {
				nextNode = currentNode.next[index]
			}

			// Connect''','''		for {
			nextNode := t.after(currentNode, index)

			// Connect'''),
(F,'''	currentNode = t.startLevels[index]
	nextNode := currentNode

	// In case, that our first element is already greater-or-equal.
	if findGreaterOrEqual && currentNode.key > key {
		return currentNode, true
	}

	for {
		if currentNode.key == key {
			return currentNode, true
		}

		nextNode = currentNode.next[index]

		// Which direction are we continuing next time?
		if nextNode != nil && nextNode.key <= key {
			// Go right
			currentNode = nextNode
		} else {
			if index > 0 {
				// Early exit
				if currentNode.next[0] != nil && currentNode.next[0].key == key {
					return currentNode.next[0], true
				}
				// Go down
				index--
			} else {
				// Element is not found and we reached the bottom.
				if findGreaterOrEqual {
					return nextNode, nextNode != nil
				}
				return nil, false
			}
		}
	}
''','''	for ; index >= 0; index-- {
		for next := t.after(currentNode, index); next != nil && next.key < key; next = currentNode.next[index] {
			currentNode = next
		}
	}
	found := t.after(currentNode, 0)
	if found != nil && (findGreaterOrEqual || found.key == key) {
		return found, true
	}
	return nil, false
'''),
(F,'''	e, ok := t.findExtended(key, false)
	if !ok || e == nil {
		return false
	}

	e.value = newValue
	return true
''','''	e, ok := t.findExtended(key, false)
	if ok {
		e.value = newValue
	}
	return ok
'''),
]
