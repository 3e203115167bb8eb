"""Technique and note of every claimed property; reasons for the others."""
AI = 'abstract interpretation of the parsed source over symbolic values '
NOTE = ('Decides the stated rules on every abstract path of the listed '
        'functions. Trusts the abstract semantics of the Python subset and '
        'library calls in wv/, and the assumptions listed in the evidence. '
        'Code it cannot model is reported as undecided and does not fail.')
TYPES = 'whole-package flow-insensitive type and points-to inference '
CLAIMS = {
    'C01': (TYPES + 'with ownership labels: every store and every changing '
            'call judged by what may be changed', NOTE),
    'C02': (TYPES + 'with origin labels: stored inputs are reachable from '
            'operations only for reading, scratch state only after it is '
            'reset', NOTE),
    'C03': (TYPES + 'and effect analysis: clocks, randomness, addresses, '
            'set order, environment and process state do not reach what is '
            'computed', NOTE),
    'C04': (TYPES + 'with labels for process-wide objects: none is changed '
            'at run time or handed out', NOTE),
    'C05': (AI + '(roles of arguments watched at every call of the sweep '
            'scenes; tables for equal against different rules)', NOTE),
    'C06': (AI + '(exhaustive decision table over operations, fill rules, '
            'kinds and integer winding numbers)', NOTE),
    'C07': (AI + '(bounded chain sequences, unbounded winding numbers)',
            NOTE),
    'C08': (AI + '(crossing tables, sweep order by symbolic positions)',
            NOTE),
    'C09': (AI + '(all tie combinations of every comparator and sort key)',
            NOTE),
    'C10': (AI + '(component-wise comparison, sequence protocol)', NOTE),
    'C11': (AI + '(all small forests with removed entries, symbolic '
            'circles of vertices)', NOTE),
    'C12': (AI + '(shape analysis of linked vertices: all small circles with '
            'all coincidences)', NOTE),
    'C13': (AI + '(shape analysis of the nesting forest)', NOTE),
    'C14': (AI + '(shape analysis with areas as sums of unknown edge '
            'terms)', NOTE),
    'C15': (AI + '(all nestings of few contours, all lists of few '
            'crossings); handler analysis over the call graph', NOTE),
    'C16': (AI + '(all usable patterns of small polygons, recorded phases '
            'of an operation)', NOTE),
    'C17': ('unit inference over the whole package: function summaries of '
            'what powers of horizontal and vertical lengths meet', NOTE),
    'C18': ('whole-package type inference, definite assignment on all paths '
            'of a function, name and signature resolution', NOTE),
    'C19': ('ways around every loop as terms with effects of all calls: '
            'stuck ways, ways moving away from the limit, walks around '
            'circles without an end test', NOTE),
    'C20': ('taint analysis over the whole package with function summaries '
            '(computed coordinates, how they are rounded, where they end); '
            'typestate of the snap points', NOTE),
    'C21': (AI + '(formulas compared as rational functions per sign and '
            'order case)', NOTE),
    'C22': (AI + '(every relative position of a point to the segments of a '
            'contour)', NOTE),
    'C23': (AI + '(all numbers of stored chains, symbolic extremes)', NOTE),
    'C24': (AI + '(all height patterns of small rings against the monotone '
            'chains built)', NOTE),
    'C25': (AI + '(scenes of entering and advancing chains, symbolic '
            'heights)', NOTE),
    'C26': (AI + '(shape analysis: contours grow and join at the right '
            'end)', NOTE),
    'C27': ('tables of the enumerations and decision functions read from '
            'both sources (abstract interpretation of the Python side, '
            'evaluation of the parsed C++ decision over classes of '
            'integers)', NOTE),
    'C28': (AI + '(shape analysis: signed boundary chains before and after '
            'a step)', NOTE),
    'C29': (AI + '(shape analysis: remaining coincidences after a step)',
            NOTE),
    'C30': (AI + '(all small true nestings against the tree built)', NOTE),
    'C31': (AI + '(all placements of few snap points, symbolic positions)',
            NOTE),
}
NOT_APPLICABLE = {
    'C40': 'The region of a result depends on floating point crossings of '
           'arbitrary inputs across the whole sweep; no static argument in '
           'reach relates it to the regions of the inputs. Its static parts '
           'are C06-C08, C11, C24-C26.',
    'C41': 'Validity of output rings is a geometric fact about runtime '
           'coordinates after snapping; no static bound in reach.',
    'C42': 'Termination depends on floating point orderings and on linked '
           'structures of unbounded size; only the static parts C15, C18 and '
           'C19 are claimed.',
    'C43': 'Equality of two implementations in two languages over all inputs '
           'needs execution or a relational proof of both sweeps; only the '
           'shared vocabulary (C27) is decidable from the sources.',
    'C44': 'Areas of results are runtime quantities; nothing static bounds '
           'them.',
}
