// The table of URLs: a tree of shared prefixes and its inverted form.
package vdisc

func vdisc.NewTrieMap() (t)
  props C19
  ensures [empty] t != nil && t.root != nil && fresh(t.root) && t.root.content == "" && !t.root.terminal && t.root.children != nil && len(t.root.children) == 0

// A queue hands out what was put in; each item's parent was recorded before the item was put in.
// gvar(foreign, q) stays 0 while only items of the traversal are put in.
extern github.com/badgerodon/collections/queue.New() (q)
  ensures q != nil && fresh(q) && gvar(reach, q) == 0 && gvar(foreign, q) == 0
extern (*github.com/badgerodon/collections/queue.Queue).Len(q) (n)
  ensures n >= 0
extern (*github.com/badgerodon/collections/queue.Queue).Enqueue(q, x)
  modifies gvar(reach, q), gvar(foreign, q)
  ensures typeis(x, *traversalNode) && as(x, *traversalNode) != nil && as(x, *traversalNode).parentIndex >= 0 ==> gvar(foreign, q) == old(gvar(foreign, q)) && gvar(reach, q) == max(old(gvar(reach, q)), as(x, *traversalNode).parentIndex + 1)
extern (*github.com/badgerodon/collections/queue.Queue).Dequeue(q) (x)
  ensures gvar(foreign, q) == 0 ==> typeis(x, *traversalNode) && as(x, *traversalNode) != nil && as(x, *traversalNode).parentIndex >= 0 && as(x, *traversalNode).parentIndex < gvar(reach, q)

pred chained(b) = forall(i, 1, len(b), b[i].Parent >= 0 && b[i].Parent < i)
func (*vdisc.TrieMap).Invert(t) (branches, leaves)
  props C19
  requires t != nil && t.root != nil
  maypanic
  noarith
  modifies anyg(reach), anyg(foreign), anyfield(InvertedTrieNode.Parent), anyfield(InvertedTrieNode.Content)
  invariant [b []InvertedTrieNode] chained(b) && len(b) >= 1 && b[0].Parent == 0 && b[0].Content == ""
  invariant [b []InvertedTrieNode, q *queue.Queue] gvar(reach, q) <= len(b) && gvar(foreign, q) == 0
  invariant [m map[iso9660.LogicalBlockAddress]InvertedTrieNode, b []InvertedTrieNode] m != nil && forallv(k, iso9660.LogicalBlockAddress, has(m, k) ==> m[k].Parent >= 0 && m[k].Parent < len(b))
  ensures [sentinel] len(branches) >= 1 && branches[0].Parent == 0 && branches[0].Content == ""
  ensures [acyclic] chained(branches)
  ensures [leaves] leaves != nil && forallv(k, iso9660.LogicalBlockAddress, has(leaves, k) ==> leaves[k].Parent >= 0 && leaves[k].Parent < len(branches))
