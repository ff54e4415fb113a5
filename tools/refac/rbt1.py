KEY="rbt"
F="gogenerics/gds/grbt/rbt.go"
EDITS=[
(F,'''	if node.left == tree.sentinel {
		return node
	}
	return tree.minimum(node.left)
''','''	for node.left != tree.sentinel {
		node = node.left
	}
	return node
'''),
(F,'''	tree.len = int(math.Max(0, float64(tree.len-1)))
	node.left = nil
	node.right = nil
	temp := node.value
	node = nil
	return temp
''','''	tree.len--
	return node.value
'''),
(F,'''	"math"
''',''''''),
(F,'''	data := make([]K, tree.len)
	index := 0
	tree.keys(tree.root, data, &index)
	return data
''','''	data := make([]K, 0, tree.len)
	var stack []*rbNode[K, V]
	for x := tree.root; x != tree.sentinel || len(stack) > 0; {
		for ; x != tree.sentinel; x = x.left {
			stack = append(stack, x)
		}
		x, stack = stack[len(stack)-1], stack[:len(stack)-1]
		data = append(data, x.key)
		x = x.right
	}
	return data
'''),
(F,'''		if node.key == fromKey && fromInclusive {
			subTree.Insert(node.key, node.value)
		} else if node.key == toKey && toInclusive {
			subTree.Insert(node.key, node.value)
		} else if tree.less(fromKey, node.key) && tree.less(node.key, toKey) {
			subTree.Insert(node.key, node.value)
		}
''','''		in := tree.less(fromKey, node.key) && tree.less(node.key, toKey)
		in = in || fromInclusive && node.key == fromKey
		in = in || toInclusive && node.key == toKey
		if in {
			subTree.Insert(node.key, node.value)
		}
'''),
(F,'''		if node.key == key && inclusive {
			subTree.Insert(node.key, node.value)
		} else if tree.less(key, node.key) {
			subTree.Insert(node.key, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return subTree
}

// Search checks''','''		if tree.less(key, node.key) || inclusive && node.key == key {
			subTree.insertFix2(node)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return subTree
}

func (tree *RbTree[K, V]) insertFix2(node *rbNode[K, V]) { tree.Insert(node.key, node.value) }

// Search checks'''),
]
