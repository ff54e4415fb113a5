# one traversal, one child link setter, loops for recursion, guard clauses
KEY="rbt"
F="gogenerics/gds/grbt/rbt.go"
EDITS=[
(F,'''// leftRotate performs a left rotation around node x of the tree. For''','''// replaceChild puts v where u hangs.
func (tree *RbTree[K, V]) replaceChild(u, v *rbNode[K, V]) {
	p := u.parent
	switch {
	case p == tree.sentinel:
		tree.root = v
	case u == p.left:
		p.left = v
	default:
		p.right = v
	}
}

// walk visits the nodes in order.
func (tree *RbTree[K, V]) walk(f func(node *rbNode[K, V])) {
	var down func(node *rbNode[K, V])
	down = func(node *rbNode[K, V]) {
		for node != tree.sentinel {
			down(node.left)
			f(node)
			node = node.right
		}
	}
	down(tree.root)
}

// leftRotate performs a left rotation around node x of the tree. For'''),
(F,'''	y.parent = x.parent

	if x.parent == tree.sentinel {
		tree.root = y
	} else if x == x.parent.left {
		x.parent.left = y
	} else {
		x.parent.right = y
	}
	y.left = x
	x.parent = y
''','''	tree.replaceChild(x, y)
	y.parent = x.parent
	y.left, x.parent = x, y
'''),
(F,'''	y.parent = x.parent
	if x.parent == tree.sentinel {
		tree.root = y
	} else if x == x.parent.left {
		x.parent.left = y
	} else {
		x.parent.right = y
	}
	y.right = x
	x.parent = y
''','''	tree.replaceChild(x, y)
	y.parent = x.parent
	y.right, x.parent = x, y
'''),
(F,'''	if u.parent == tree.sentinel {
		tree.root = v
	} else if u == u.parent.left {
		u.parent.left = v
	} else {
		u.parent.right = v
	}
	v.parent = u.parent
''','''	tree.replaceChild(u, v)
	v.parent = u.parent
'''),
(F,'''	values := make([]V, 0)
	var traverse func(node *rbNode[K, V])
	traverse = func(node *rbNode[K, V]) {
		if node == tree.sentinel {
			return
		}

		if node.left != tree.sentinel {
			traverse(node.left)
		}

		if f(node.key) {
			values = append(values, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return values
''','''	values := []V{}
	tree.walk(func(node *rbNode[K, V]) {
		if f(node.key) {
			values = append(values, node.value)
		}
	})
	return values
'''),
(F,'''	nodes := make([]gconstraints.Pair[K, V], tree.len)
	index := 0
	tree.nodes(tree.root, nodes, &index)
	return nodes
''','''	nodes := make([]gconstraints.Pair[K, V], 0, tree.Len())
	tree.walk(func(node *rbNode[K, V]) { nodes = append(nodes, gconstraints.Pack(node.key, node.value)) })
	return nodes
'''),
(F,'''	var sb strings.Builder

	tree.printInOrder(tree.root, &sb)
	return "{" + strings.TrimSpace(sb.String()) + "}"
''','''	var parts []string
	tree.walk(func(node *rbNode[K, V]) { parts = append(parts, fmt.Sprint(node)) })
	return "{" + strings.TrimSpace(strings.Join(parts, " ")) + "}"
'''),
(F,'''	tree.root = nil
	tree.sentinel = nil
	tree.len = 0
	sentinel := &rbNode[K, V]{parent: nil, left: nil, right: nil, color: black}
	tree.root = sentinel
	tree.sentinel = sentinel
''','''	*tree = *New[K, V](tree.less)
'''),
(F,'''	for x != tree.sentinel {
		if x.key == key {
			return x
		} else if tree.less(x.key, key) {
			x = x.right
		} else {
			x = x.left
		}
	}
	return x
''','''	for x != tree.sentinel && x.key != key {
		if tree.less(x.key, key) {
			x = x.right
			continue
		}
		x = x.left
	}
	return x
'''),
(F,'''		if z.key == x.key {
			stored := x.value
			x.value = z.value
			return stored, false
		} else if tree.less(z.key, x.key) {
''','''		if x.key == z.key {
			var stored V
			stored, x.value = x.value, z.value
			return stored, false
		}
		if tree.less(z.key, x.key) {
'''),
(F,'''	subTree := New[K, V](tree.less)
	var traverse func(node *rbNode[K, V])
	traverse = func(node *rbNode[K, V]) {
		if node == tree.sentinel {
			return
		}

		if node.left != tree.sentinel {
			traverse(node.left)
		}
		if node.key == key && inclusive {
			subTree.Insert(node.key, node.value)
		} else if tree.less(node.key, key) {
			subTree.Insert(node.key, node.value)
		}

		if node.right != tree.sentinel {
			traverse(node.right)
		}
	}
	traverse(tree.root)
	return subTree
''','''	subTree := New[K, V](tree.less)
	tree.walk(func(node *rbNode[K, V]) {
		if (inclusive && node.key == key) || tree.less(node.key, key) {
			subTree.Insert(node.key, node.value)
		}
	})
	return subTree
'''),
]
