BASE = ('Sidecar contracts on the real functions, every obligation discharged for all inputs and iterations; floats treated as reals; '
        'numpy and other libraries by contract; a bounded counterexample search runs beside the proof. ')
NOTE = {
    'C04': BASE + 'The directory of the result file exists.',
    'C08': BASE + 'haversine, decimal_year and the windows by their contracts (C11, C12, C10).',
    'C09': BASE + 'haversine, decimal_year and the windows by their contracts (C11, C12, C10); the two helpers proved apart and used by contract.',
    'C14': BASE + 'Catalogues of at least three time steps and one magnitude bin; the default arguments are only searched (bounded).',
    'C15': BASE + 'Loops end as assumed in the evidence.',
    'C18': BASE + 'Partial correctness: the equation holds whenever the iteration ends.',
    'C21': BASE + 'The accuracy 0.0003 of the approximation is only searched (bounded); three known findings pinned by existing tests.',
    'C23': BASE + 'Element structure and order are proved over a tree model; validity against the XML schema is only searched (bounded).',
}
