# What each check consists of.
TRUSTED = [
    'engine/vc.cpp (term arena, path exploration, rational-function normaliser)',
    'z3 4.8.12', 'GMP', 'g++ 13.3.0 and libstdc++/Eigen 3 template code as compiled with the symbolic scalar',
]
ASSUMPTIONS = [
    'machine floating point is treated as real arithmetic',
    'machine int arithmetic of index computations is treated as mathematical where the index is symbolic',
    'divisions: an equality of two quotients is proved as an identity of rational functions, i.e. where the denominators do not vanish',
    'the explicit instantiations in instantiate.h are the only text dropped from the sources',
]
PROPERTIES = {
    'C01': {},
    'C02': {'contracts': ['C02', 'C02_tables'], 'heavy_first': ['n16', 'n14', 'n12']},
    'C03': {'heavy_first': ['n12', 'n10', 'n9']},
    'C05': {'contracts': ['C05', 'C05_formulas'], 'opt': {'C05_formulas': '-O0'}, 'replay_opt': '-O0'},
    'C06': {'contracts': ['C06', 'C06_match', 'C06_matscs', 'C04:assembly,whole_interval', 'C05:assembly*']},
    'C07': {'contracts': ['C07', 'C04:construction,assembly,whole_interval']},
    'C08': {'contracts': ['C08', 'C07:value*'], 'heavy_first': ['five', 'three_columns', 'four'], 'level': 'other',
            'explanation': 'Contract obligations over all real end points, energies, start values and mesh points, for every number of mesh '
                           'intervals up to the stated bound; every obligation is discharged deductively, the number of intervals is the bound.',
            'note': 'Bounded: meshes of up to five intervals; everything else (mesh points, a, b, E, start values, interval flows) is universally quantified.'},
    'C09': {'contracts': ['C09', 'C09_flow', 'C08:one,two,three,two_columns'], 'heavy_first': ['three', 'two_columns', 'below']},
    'C10': {'level': 'other', 'heavy_first': ['automatic_1_1_2', 'stubborn_11', 'automatic_1_1_4', 'jumps_around_1', 'automatic_1_1_0'],
            'thorough_only': ['automatic_0_2', 'jumps_left_1', 'jumps_right_1', 'jumps_wide_1', 'automatic_1_1_1', 'automatic_1_1_3', 'automatic_1_1_5'] +
                             ['automatic_1_1_%d_deep' % i for i in range(6)],
            'explanation': 'Contract obligations over all domains and jump positions, verified against the contract of a sector (any order, the listed '
                           'estimates); the number of intervals, refinements with an estimate that is not exactly the tolerance, and jumps is bounded, every obligation is discharged deductively.',
            'assumptions': ['a sector has the ends and the direction it was constructed with (its constructor is real code in C04/C05)',
                            'interval ends are exact reals: adjacent ends computed by different floating point expressions may differ by an ulp (native runs allow it)']},
    'C21': {'contracts': ['C21', 'C21_half', 'C21_sl', 'C06_match:matching'],
            'note': 'All 20 Newton steps are unrolled, which is the limit in the code: no bound.',
            'assumptions': ['contract of matchingError (C06): a function of the energy, the conditions and the formula, with its derivative',
                            'the derivative of the matching error does not vanish where it is evaluated',
                            'the eigenvalue of the reference formula that Newton reaches from E is the one of the same index']},
    'C11': {'contracts': ['C11', 'C11_newton', 'C06_match:matching'], 'level': 'other', 'heavy_first': ['refine_31', 'refine_1', 'refine_5'],
            'explanation': 'Loop invariants of the three loops, each preserved from an arbitrary state and established by the code before it, and the contract of '
                           'newtonIteration. Energies, angles, intervals and conditions are universally quantified; the indices are those of angles between -1 and 4 '
                           'half turns (bounded), the depth of an interval is one of 0, 1, 4, 5, 31, 32, which are the classes the code tells apart.',
            'note': 'Bounded: indices up to 3, windows [0,1) and [1,3). Termination is not decided.',
            'assumptions': ['the angle of the matching condition increases with the energy and passes every whole number of half turns at the eigenvalue of that index (C09, Sturm oscillation)',
                            'std::sort orders the answers (decided for the listed orders)',
                            'an interval can be halved: the exit for intervals of two adjacent floating point numbers is only exercised natively']},
    'C12': {'contracts': ['C12', 'C11_newton', 'C06_match:matching'], 'level': 'other', 'heavy_first': ['refine_31', 'refine_1', 'refine_5'],
            'explanation': 'The loop invariants of C11 for the call with a range of energies; energies, angles, intervals and conditions are universally '
                           'quantified, angles lie between -1 and 4 half turns (bounded).',
            'note': 'Bounded: indices up to 3. An eigenvalue on the upper end of the range counts as outside, on the lower end as inside. Termination is not decided.',
            'assumptions': ['contract of newtonIteration (C11)',
                            'the angle of the matching condition increases with the energy and passes every whole number of half turns at the eigenvalue of that index (C09, Sturm oscillation)',
                            'an interval can be halved: the exit for intervals of two adjacent floating point numbers is only exercised natively']},
    'C13': {'contracts': ['C13', 'C08:one,two,three'], 'level': 'other',
            'explanation': 'Contract obligations over all meshes, energies, boundary conditions and points; the number of mesh intervals (4) and of points '
                           'in an array (3) is bounded, every obligation is discharged deductively.',
            'assumptions': ['contract of Sector::propagate: homogeneous in the start and the identity between equal points (C06, C07)',
                            'E is an eigenvalue: the two solutions are multiples of each other at the matching point (C11)',
                            'the Wronskian of y and its energy derivative is the integral of the square of y (Lagrange identity, checked natively)']},
    'C14': {'level': 'other',
            'explanation': 'Contract obligations over all energies, boundary conditions and potentials; the indices and the number of eigenvalues are '
                           'bounded as stated, every obligation is discharged deductively.',
            'assumptions': ['contracts of the Matslise queries (C11, C12); the eigenvalues of a symmetric problem are those of the even and odd half problem in turn (Sturm oscillation)']},
    'C15': {'note': 'Reflection, parity and scale are proved for every point; arrays are decided for up to 8 points (bounded).',
            'assumptions': ['contract of Matslise::eigenfunction (C13): solution through both conditions with unit norm on the half range']},
    'C16': {'note': 'The formulas are proved for any point of any piece; the lookup of the piece is decided for up to 6 pieces (bounded).',
            'assumptions': ['p and w are the polynomials of the piece (their projection is C02/C17); Piece::x2r inverts the map of its piece (C17)']},
    'C17': {'contracts': ['C17', 'C17_piece', 'C17_pieces'], 'heavy_first': ['tiling_four'], 'standin': 'the bisection x2r_impl and the built transformation, natively',
            'replay_seconds': 20,
            'note': 'Formulas of the potential, of one piece and of the map are proved; the number of pieces is bounded (6 for lookups, 4 bisected intervals for the construction). '
                    'The bisection x2r_impl is used by contract (inverse of the increasing map) and only exercised natively.',
            'assumptions': ['x2r_impl (bisection) returns the inverse of the increasing map: bounded native runs only']},
    'C18': {'contracts': ['C18', 'C16'], 'level': 'other',
            'explanation': 'Contract obligations over all real energies, boundary conditions, points and all functions p, q, w; the number of eigenvalues '
                           'and of points in an array is bounded as stated, every obligation is discharged deductively.',
            'assumptions': ['contracts of the transformation (C16, C17) and of the Matslise queries (C11, C13, C21)']},
    'C22': {'level': 'other',
            'explanation': 'Contract obligations over all real energies, boundary conditions and points; the number of eigenvalues is bounded as stated, '
                           'every obligation is discharged deductively.',
            'assumptions': ['contracts of the Matslise queries (C11, C13, C21)']},
    'C04': {'contracts': ['C04', 'C04_formulas'], 'opt': {'C04_formulas': '-O0'}, 'replay_opt': '-O0'},
}

HOOKS = {'guard': 'MATSLISE_VERIFICATION', 'enable': 'contracts/C11.cpp defines MATSLISE_VERIFICATION as the header engine/hooks.h, which hands the variables of a loop to its invariant', 'source_commits': ['95ea369']}

NOT_APPLICABLE = {
    'C23': 'The claim is about rounding and truncation of floating point numbers for all smooth potentials. The contracts here treat '
           'machine arithmetic as real arithmetic, and no deductive verifier in this sandbox bounds the floating point error of these formulas.',
    'C24': 'Independence of histories and schedules is a whole-history property; the verifier has no thread semantics, and single calls carry no contract that could express it.',
}


def titles():
    import json, os
    out = {}
    for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')):
        p = json.loads(l)
        out[p['id']] = p['title']
    return out


for _k, _t in titles().items():
    if _k in PROPERTIES:
        PROPERTIES[_k]['title'] = _t
