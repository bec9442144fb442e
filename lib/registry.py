"""property id -> (module, entry, what the evidence means, assumptions)"""
GEN = ('Gated-SSA dataflow over the LLVM IR of /repo/src compiled at this run: every analysed function is reduced, '
       'without running it, to closed forms of its results over an arbitrary initial heap (loops summarised by '
       'recurrence), and each obligation compares such a form with the required one by canonicalisation. '
       'An obligation is discharged (forms identical), violated (forms differ and a concrete heap separates them) '
       'or listed as undecided. ')
A_REAL = 'double arithmetic is read as exact real arithmetic and comparisons as NaN-free (rounding is out of scope)'
A_ALIAS = 'distinct objects, arrays and matrices handed to the library do not overlap'
A_INT = 'int arithmetic does not overflow'
BASE = [A_REAL, A_ALIAS, A_INT]
EFF = ('Interprocedural effect analysis over the LLVM IR of /repo/src compiled at this run: for every function a summary of '
       'the memory it may write or free (access paths from its parameters, globals and allocation sites, virtual calls '
       'resolved to every override), of the pointers it may store, and of the writes, branches and results that depend on '
       'the clock, on addresses or on other ambient sources; summaries are composed to a fixpoint over the call graph and '
       'every obligation compares a summary with the effects its operation is allowed. ')
A_EFF = 'objects handed to one call are distinct, and no pointer is made from an integer (a function that does is undecided)'
CHECKS = {
    'C32': ('p_owner', 'c32', GEN, BASE),
    'C33': ('p_ground', 'c33', GEN, BASE),
    'C31': ('p_prof', 'c31', GEN, BASE),
    'C29': ('p_effects', 'c29', EFF, [A_EFF]),
    'C30': ('p_history', 'c30', EFF + 'Work storage: each value an evaluation or solve computes from is reduced to a closed form '
            'and compared with the same form over renamed storage. ', [A_EFF] + BASE),
    'C37': ('p_effects', 'c37', EFF, [A_EFF]),
    'C01': ('p_registry', 'c01', GEN, BASE),
    'C02': ('p_system', 'c02', GEN, BASE),
    'C03': ('p_system', 'c03', GEN, BASE),
    'C04': ('p_system', 'c04', GEN, BASE),
    'C05': ('p_system', 'c05', GEN, BASE),
    'C06': ('p_system', 'c06', GEN, BASE),
    'C07': ('p_system', 'c07', GEN, BASE),
    'C08': ('p_system', 'c08', GEN, BASE),
    'C09': ('p_ode', 'c09', GEN, BASE),
    'C10': ('p_ode', 'c10', GEN, BASE),
    'C11': ('p_ode', 'c11', GEN, BASE),
    'C12': ('p_constraints', 'c12', GEN, BASE + ['the two bodies of one constraint are different bodies']),
    'C13': ('p_constraints', 'c13', GEN, BASE + ['the two bodies of one constraint are different bodies']),
    'C14': ('p_constraints', 'c14', GEN, BASE),
    'C16': ('p_forces', 'c16', GEN, BASE),
    'C17': ('p_forces', 'c17', GEN, BASE),
    'C18': ('p_forces', 'c18', GEN, BASE),
    'C19': ('p_forces', 'c19', GEN, BASE),
    'C20': ('p_matrix', 'c20', GEN, BASE),
    'C21': ('p_matrix', 'c21', GEN, BASE + ['no row of a sparse matrix names the same block twice']),
    'C22': ('p_matrix', 'c22', GEN, BASE),
    'C23': ('p_state', 'c23', GEN, BASE),
    'C24': ('p_solvers', 'c24', GEN, BASE),
    'C25': ('p_solvers', 'c25', GEN, BASE),
    'C26': ('p_solvers', 'c26', GEN, BASE),
    'C27': ('p_solvers', 'c27', GEN, BASE),
    'C28': ('p_solvers', 'c28', GEN, BASE),
    'C15': ('p_constraints', 'c15', GEN, BASE),
}

TECH = {
    '': 'gated-SSA dataflow / global value numbering of LLVM IR in a polynomial closed-form domain',
    'C29': 'interprocedural mod/ref effect analysis of LLVM IR (access paths, summaries to a fixpoint)',
    'C30': 'interprocedural taint and effect analysis of LLVM IR; constructors by gated-SSA dataflow; work spaces by renaming their storage in the values computed from it',
    'C37': 'whole-program scan of globals, statics and external calls over LLVM IR with effect summaries',
    'C32': 'ownership ledger (allocation/release typestate) over gated-SSA memory chains of LLVM IR',
}
GENERAL = ('For every obligation it decides, the equality holds for all heaps, parameters, counts and topologies, under '
           'the assumptions listed in the evidence (doubles read as reals; distinct objects do not overlap; no int '
           'overflow). Obligations the analysis cannot decide are listed as undecided in the evidence and never alarm. '
           'A violation is reported only when the computed and required closed forms differ and a concrete valuation of '
           'the inputs separates them. ')
NOTES = {}


def level_note(i):
    return GENERAL + NOTES.get(i, '')
