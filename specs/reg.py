"""Registry of contracts: function name -> contract, and which properties it serves."""
import re
CONTRACTS = {}
PROPS = {}       # property -> [contract names]
BOUNDED = {}     # property -> [(function, why only bounded)]
ASSUME = {}      # property or '*' -> [assumption]


def contract(*props):
    def d(cls):
        o = cls()
        CONTRACTS[o.name] = o
        o.props = props
        for p in props:
            PROPS.setdefault(p, []).append(o.name)
        return cls
    return d


def relevant(con, prop, obl):
    """Does a failed obligation of this contract speak about this property?
    `only` on a contract: [(regex on obligation name, (properties))]."""
    for rx, props in getattr(con, 'only', ()):
        if re.search(rx, obl):
            return prop in props
    return True


ASSUME['*'] = [
    'single-threaded execution per process (the library is built and tested without thread-multiple progress)',
    'the MPI library behaves as the MPI standard says (models in specs/mpi.py and specs/coll.py)',
    'user buffers are valid for the lengths passed, and no user buffer overlaps the library\'s internal structures',
    'a memory cell is viewed consistently by type class (no type punning between int/long/float/double views of internal data)',
    'malloc/realloc succeed; heap and stack addresses stay below 2^63',
    'int arithmetic in user-data products is mathematical (C leaves overflow undefined)',
]

ASSUME['C06'] = [
    'with iov_checks off, a list whose segments span several allocations is outside the contract (the default trusts the caller)',
    'the datatype method rejects lists whose local segments are more than 2^31 elements apart (documented limitation); such lists are outside the contract for iov_method DIRECT/AUTO',
    'the caller of a vector operation passes lists and segments that do not overlap the library\'s own structures; counts below 2^27',
    'ctree_insert/ctree_locate/ctree_destroy are used through their contract (see C07)',
    'parameters of a unit are assumed below the first fresh heap address, while callers may pass addresses of their own stack objects: sound because the argument does not depend on the numbering of addresses',
]
ASSUME['C07'] = ['the contracts of ctree_insert, ctree_locate and ctree_destroy (set of disjoint intervals) are checked natively on bounded insertion histories, not proved']
BOUNDED['C07'] = [('ctree_insert, ctree_locate, ctree_balance, ctree_rotate_left/right, ctree_destroy',
                   'recursive pointer structure: the shape invariant (parents, children, heights, global order) is outside the quantifier-free local obligations of engine/vc.py; '
                   'bounded: insertion histories of up to 60 intervals, 300 random histories per process and round, compared with brute force after every insertion')]
ASSUME['C05'] = [
    'strided descriptions: 0 to 7 levels, counts of at least one, fewer than 2^27 segments, packed size below 2^31, |strides| at most 2^31',
    'the local segments described are valid user memory (promised by the caller, used through the predicate SEGOF); for unpacking, segments do not overlap',
    'the front ends are proved for strided_method IOV (the default): the strided operation is exactly one vector operation over the listed tuples, whose effect is decided under C06',
    'an outstanding vector operation refers to the segments, not to the address lists the strided front end releases',
]
BOUNDED['C05'] = [('ARMCII_Strided_to_dtype, ARMCII_Strided_is_subarray and the strided_method DIRECT branches of PARMCI_PutS/GetS/AccS, PARMCI_PutS_flag and their nonblocking forms',
                   'the layout of a constructed MPI subarray/hvector datatype is a nested recursive object that the flat offset model of specs/mpi.py does not express; '
                   'bounded: random strided transfers run natively under both strided methods and compared with a byte-wise reference')]
ASSUME['C18'] = ['PARMCI_PutS_flag: the strided data is fenced before the flag is put; that its operations go to the given process is decided under C05/C06, what the fence completes under C10; proved for strided_method IOV']
