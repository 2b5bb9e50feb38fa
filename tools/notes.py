NA = {"C22": "the guarantee is about interleavings of database transactions (row locks, isolation level); contracts over sequential functions cannot express or decide it"}
BASE_NOTE = "Every obligation generated from the current source for the scenes listed in the evidence is discharged by z3 for all table contents; trusts the ORM semantics of engine/table.py. Parts outside the verifier's reach are covered by bounded run-time search only (see DESIGN.md)."
BOUNDED_NOTE = "Bounded: random and small exhaustive scenarios on the real code against an independent forest; not a proof."
NOTES = {
 "C11": "The contract of generate_label is discharged for all labels and all sets of used labels; trusts itertools.product and lexicographic comparison of strings.",
 "C13": "Materialized paths: the contract of find_problems (whole table and one branch) is discharged for tables of any content, with path steps of 4 and 1 characters. Nested sets and ltree are bounded only.",
 "C14": "Materialized paths: the contract of fix_tree without fix_paths is discharged for tables of any content. fix_paths=True and the other implementations are bounded only.",
 "C19": "MoveNodeForm.__init__ (initial place, offered reference nodes) and MoveNodeForm.save are discharged against the contracts of the manager; the end-to-end behaviour with Django's forms are bounded only.",
 "C21": "Delegation contracts of every deprecated method, for every shape of the argument list, on opaque values; trusts parametricity.",
}
