prop('C24', 'The wildcard index finds a text by any part, with the configured case handling',
 'Each end of an indexed text, starting at any of its bytes, is added to the wildcard index, so that a filter can match anywhere in the text. When the case is ignored, it is ignored the same way for the indexed texts, including the ones inside of arrays, and for the filters; otherwise, neither is changed. Nothing else of the texts or of the filters is changed or cut.',
 'inputs configurations', 'all texts and filters, of any length and with any characters, alone or inside of arrays, with and without the option',
 'The tests index a few short words, mostly in ASCII; neither the lengths nor the characters can be enumerated.',
 ['pkg/index/wildcard.go', 'pkg/index/wildcard_config.go', 'pkg/index/wildcard/node.go'],
 [('texts', 'Wildcard.createIndex, Wildcard.GetRecordPositions'), ('tree', 'TreeNode.AddAllSequences')],
 'value-origin analysis over the paths of the SSA, comparing the transformations of the indexed texts with the ones of the filters, and induction-variable analysis of the loop over the text',
 'Decides which functions are applied to the texts between the records and the tree, and between the filters and the tree, depending on the option, and that the loop which adds the ends of a text covers all of it. That the tree then finds them (splitting of the nodes, comparison of the prefixes) is outside of it.')
