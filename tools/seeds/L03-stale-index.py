prop="L03"; kit="ts"
needs="the index of a leaf asked for, the leaf deleted, and the index asked for again"
breaks="the deleted leaf is still reported where it was"
edits=[("packages/lib/src/helpers/tree.ts","""    return this.treeInner.indexOf(leaf);
""","""    // leaves never move, so the place of a leaf can be kept
    let index = this.places.get(leaf) ?? -1;
    if (index < 0) {
      index = this.treeInner.indexOf(leaf);
      this.places.set(leaf, index);
    }
    return index;
"""),("packages/lib/src/helpers/tree.ts","  private treeInner!: IncrementalMerkleTree;\n","  private treeInner!: IncrementalMerkleTree;\n  private places = new Map<bigint, number>();\n")]
