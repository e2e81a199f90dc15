prop('C03', 'What is recorded in an index is read back as it was written',
 'Each value of the description of an index, of a node of the tree of a wildcard index or of a position in it is read from the same place, with the same size and representation, as it was written to, and into what it was written from; none is left out or cut, and no two share a place. An entry is read from where it was written, and one recorded before is replaced, not kept beside. Whenever an entry is changed, it is written back at its own place before the operation which changed it succeeds (how the writes to the file are buffered is out of scope).',
 'inputs', 'all the values of the entries: positions, lengths and sizes over 4 GiB, any number of nodes and positions, any date; and all the paths which change an entry',
 'The tests write and read a few small values, which would also pass with narrower representations, and a tree of a few nodes whose entries are mostly still the same in memory; the files which need larger values are too large to be tested.',
 ['pkg/index/wildcard/metadata.go', 'pkg/index/wildcard/node.go', 'pkg/index/wildcard/position.go', 'pkg/index/sqlite/metadata.go', 'pkg/index/wildcard.go'],
 [('layouts', 'Metadata.Serialize/Unserialize, TreeNode.Serialize/Unserialize, PositionLinkedList.Serialize/Unserialize'),
  ('tables', 'sqlite Metadata.Save, LoadMetadata'),
  ('writing back', 'TreeNode.AppendChild, TreeNode.AppendPositionIfNotExists, TreeNode.addSequence, PositionLinkedList.Copy')],
 'layout derivation: symbolic offsets, widths and representations of the writes and of the reads over the SSA, compared with each other; typestate of the changed entries over all the paths',
 'Derives, for each type of entry, what the writer puts at each offset or column and what the reader takes from it, independently, and compares both with the sizes of the types and the reserved space; follows each stored field of an entry to the write of this entry on every path which ends without an error.')
