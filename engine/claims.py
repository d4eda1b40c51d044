"""What is claimed, by which method, and for which operations."""

T = 'interprocedural typestate dataflow over the MIR of every operation'
BASE = ('Decided on every path of every listed operation by abstract interpretation to a fixpoint (loops and helping included); '
        'values are symbolic, other threads are anything the memory may hold subject to the rules themselves (each rule is both checked where '
        'a thread acts and assumed where a thread observes). ')
DF = {
    'P04': 'Guard verification must dominate every access through the table.',
    'P05': 'Every dereference needs evidence of an acquire load under the guard, of masking and of non-nullness.',
    'P06': 'A committed unlinking opens an obligation that has to be closed by exactly one retirement on every path.',
    'P07': 'The evidence that no older table can reach the entry is required at every retirement; deferral is checked against the table chain.',
    'P08': 'Ownership of every allocation is tracked until it is published, returned or freed.',
    'P09': 'The destructor is followed over the whole table chain: evidence that every live entry was freed once, the deferred ones handed out, every table released; that a destructor releases the tables at all is decided over the call graph.',
    'P10': 'Sizes and layouts are terms over the length; they are compared at allocation, release and access, with overflow excluded by evidence; types reached through pointers to other types need a promised layout.',
    'P11': 'Tags, masks and markers are evaluated from the constants of the crate and compared with the alignment the type layouts guarantee; metadata are followed in a bit-level value domain.',
    'P12': 'The ordering of every atomic step on a shared word is compared with what its role requires.',
    'P13': 'Each step that can release a waiter opens a wake-up obligation; each wait must use the parker and condition of its word.',
    'P14': 'No lock, wait, write or resize step is reachable from a read.',
    'P15': 'The set of held locks is empty at every call of user code, wait and exit, unwinding included.',
    'P16': 'Every exchange and store on a slot is checked against the state of the slot it may find.',
    'P17': 'Claim, freeze, copy, count and promotion steps are checked against the evidence that the previous ones are complete.',
    'P18': 'A search may start in a table only with evidence that the key (or everything) was moved out of the older ones.',
    'P19': 'Absence and the start of a traversal need evidence about every table that could hold the key.',
    'P20': 'A committed insertion or removal opens an obligation closed by exactly one matching length update; the sum of the counter is compared with a ghost sum over its shards.',
    'P21': 'A change of a slot needs evidence of key equality; probes may only leave slots shown not to hold the key.',
    'P22': 'A committed change of a slot opens an obligation closed by writing the metadata of the key it holds.',
    'P23': 'Which of the committing steps each operation may reach, and that no path calls the initialiser a second time.',
    'P24': 'The value committed must be the result of the closure call on the very entry that is expected in the exchange.',
    'P25': 'The entry removed must be the one the predicate was last called on and approved.',
    'P26': 'The result of every operation is computed from the entry the committed exchange replaced or the entry found, and from no other.',
    'P31': 'User code is never reached with an obligation of a committed step open; locks as in P15.',
}
# decided by other means than the dataflow over the operations
OWN = {
    'P27': ('relational symbolic summaries of paired methods over the MIR',
            'Every method of a pinned view is summarised as the set of its paths (calls of the table with their arguments, closures included, and the answer as a '
            'function of what the table returned) and compared with the method of the owner under the same name, up to the guard; iteration over a view likewise. '
            'A method whose summary uses something that is not modelled, or another operation of the table, is reported as undecided and not compared.'),
    'P28': ('interprocedural dataflow over the MIR of constructors and builders',
            'What every constructor, builder method, conversion and clone hands to the table constructor is traced to its parameters, defaults and the fields of the '
            'builder; the table constructor and reserve are followed to the size that is allocated. Sizes are symbolic.'),
    'P29': ('typestate dataflow over the MIR of the bulk operations',
            'from_iter, extend, clone, eq, Debug and serde are followed path by path with an element of the source left open: each element has to reach the one operation '
            'of the collection that stores or compares it, with its own key and value, before the next one is taken and before the loop is left. External traits '
            '(serde, fmt) are trusted to do what they document.'),
    'P30': ('typestate dataflow over the MIR of the iterators',
            'Creation, step and clone of every iterator are followed on every path: position, table and guard at the exit are compared with the slot that was examined; '
            'the slots before the position being done with is an invariant checked at every step.'),
    'P32': ('typestate dataflow over the MIR of the list, with exchange commitment as the linearisation point',
            'Every path of push and drain: the node put at the head by the one committing exchange (or swap) must hold the element and, at return, point to '
            'exactly the head it displaced, which makes additions by any number of threads lose nothing; drain must hand out and free each node of the chain '
            'once, in turn, to the end. That drain is exclusive is its &mut receiver; when it may run is P07/P09.'),
}
CLAIM = {p: (T, BASE + t) for p, t in DF.items()}
CLAIM.update(OWN)
NA = {}
RULES = {
    'P32': 'Typestate of the node over every path of push and drain; an obligation is one rule for one of the two',
    'P27': 'Path summaries of the methods of the pinned views and of their owners, compared pairwise; an obligation is one pair or one argument',
    'P29': 'Path-by-path typestate of the element in hand over from_iter, extend, clone, eq, Debug and serde; an obligation is one rule for one operation',
}
# operations to analyse (default: all)
OPS = {
    'P14': ('read', 'read0', 'iternext', 'iterclone'),
    'P24': ('compute', 'upsert', 'update'),
    'P25': ('removeif', 'retain'),
    'P27': (),
    'P29': (),
    'P32': (),
    'P30': ('iter', 'iternext', 'iterclone'),
}


def _p27(prog):
    import front
    return front.p27(prog)


def _p28(prog):
    import front
    return front.p28(prog)


def _p29(prog):
    import bulk
    return bulk.p29(prog)


def _utils(p):
    def f(prog):
        import utils
        return utils.rules(prog, p)
    return f


def _p09(prog):
    import destructor
    return destructor.p09(prog)


def _layouts(p):
    def f(prog):
        import layouts
        return getattr(layouts, p)(prog)
    return f


# further checks over the program: property -> {name: function(prog) -> [(key, ok, message, site)]}
EXTRA = {'P10': {'layouts': _layouts('p10')}, 'P11': {'constants': _layouts('p11')}, 'P09': {'destructor': _p09}, 'P27': {'front ends': _p27}, 'P28': {'construction': _p28}, 'P29': {'bulk operations': _p29},
         'P13': {'parker': _utils('P13')}, 'P20': {'counter': _utils('P20')}, 'P32': {'deferred list': _utils('P32')}}
