"""Writes MANIFEST.json: one check per checks/cNN.py that exists."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': ('path-wise effect dataflow with linearity analysis of the weight',
            'Every path of incorporate of every concrete model; loops as one generic iteration; real arithmetic; '
            'nested models are assumed to satisfy the same rule (checked for each).'),
    'C02': ('symbolic value numbering plus term rewriting of the score identity',
            'Algebraic identity logp = score difference decided by normal form for every closed-form model; '
            'structural matching for composite models; trusts sympy expansion and lgamma/log functional equations.'),
    'C03': ('symbolic law extraction from generator parameters compared with the scored density by term rewriting',
            'Every sampler of every concrete model except the two whose sampling loops are listed as unanalysed; library '
            'generators are trusted to draw from the law their parameters name; two known findings.'),
    'C04': ('path-wise effect dataflow with cancellation of temporary updates',
            'Every path of every query of every concrete class; temporary updates must cancel algebraically; random '
            'engines and caches of derived values are not state.'),
    'C05': ('value-flow of installed hyperparameters back to the drawn candidate, compared with the score term',
            'Every hyperparameter move of every concrete model and of the partition prior; loops as generic iterations; '
            'parameter moves with the model that supplies the latents.'),
    'C06': ('inductive per-path effects on the partition state, who-writes-the-field analysis and abstract evaluation of the '
            'weight maps',
            'Every path of every partition operation changes tables, assignments and count together; the weight maps are '
            'evaluated for the empty, singleton and shared cases; map semantics of the library are trusted.'),
    'C07': ('path-wise effect dataflow on the entity set and the partition, plus who-writes analysis',
            'Every path of every Domain operation, every writer of the set and every caller that seats an entity; '
            'partition operations are the obligations of C06.'),
    'C08': ('path-wise effect dataflow over stored data, reverse index and cluster models with elementwise key matching',
            'Every path of every data operation of the relation classes; cluster keys must be the domain assignments of '
            'exactly the items being updated; models and partitions are opaque (C01, C06).'),
    'C09': ('path-wise effect dataflow over values, emission pairs and base listing with base-key matching, plus '
            'who-writes analysis',
            'Every path of every NoisyRelation operation; emissions and base relations are opaque (C01, C08).'),
    'C10': ('path-wise in/out typestate of base value and noisy observations through the resampling helpers, with value '
            'flow of the drawn candidate',
            'Every path of the resampling of one latent value and of its two callers; relation operations are opaque.'),
    'C11': ('path-wise paired-effect dataflow over the registries of a view, plus who-writes analysis',
            'Every path of every registry operation of IRM and of its constructor; relations, domains and partitions are '
            'opaque (C06 to C09).'),
    'C12': ('path-wise net-effect dataflow over schema, code maps, partition, views and base links, with the partition '
            'inlined, plus who-writes analysis',
            'Every path of every operation of the hierarchical model that adds, removes, moves or finds a relation; views '
            'are opaque (C11).'),
    'C15': ('provenance of every random engine and draw, taint of clock values, address-order lint and definite assignment of '
            'scalars',
            'Every function of the program and both command-line entry points.'),
    'C16': ('effect analysis of checked expressions, and structural comparison of the two type-checked programs (checks in '
            'and out) after removing effect-free statements',
            'Every assertion, function, class and constant of both builds; effects inside the standard library are taken '
            'from its interface.'),
    'C13': ('ownership and release analysis: owners inferred from destructors, fresh objects followed along every path to one release',
            'Every function that allocates, releases or changes an owning field; objects handed to a parameter that the '
            'callee neither stores nor deletes stay with the caller.'),
    'C17': ('path-sensitive dataflow over the readers: what was decided before each record is kept, and interval/relational '
            'reasoning that every token, column and parameter read is inside its sequence',
            'Every accepting path of the tokenizer, the schema, observation, cluster and table readers and the value and '
            'distribution parsers, with assertions off.'),
    'C18': ('path-sensitive typestate of file streams (opened, used, closed, judged) and dataflow of failure results into '
            'decisions and exit statuses',
            'Every function that opens a file, every call of a function that reports failure, every exit and exception handler, '
            'and the success paths of both programs.'),
    'C19': ('grammar of the written lines (from the output effects on every path) against the loader\'s own reading of them, and '
            'event coverage of the loading loops',
            'Every path of the writers, the loaders and the programs of clusterings.'),
    'C20': ('provenance and pairing rules on the normalised dictionary effects and look-ups of every path',
            'Every function that builds or reads the two dictionaries and every program that uses one; domain names are '
            'taken to differ.'),
    'C21': ('event-coverage dataflow: each record reaches exactly one incorporation, ordering and guards on every path',
            'Every path of the loaders of observation files, of database rows and of latent values, and both programs; models '
            'are opaque (C07, C11, C12).'),
    'C14': ('path-wise extraction and comparison of the tables that dispatch on model names, kinds and value types',
            'Every path of every function that maps a name to a kind, a kind to a class or a value type to a relation; the table of '
            'joint attributes; the checks load_schema makes; every value parsed from text and where it goes.'),
    'C22': ('path-sensitive effect analysis of the database functions: every write of a reference paired with its seating in the '
            'partition of the class referred to, every removal with its record',
            'holds for all schemas and histories under the stated assumptions; nothing is executed'),
    'C23': ('path-sensitive analysis of the reference move and its helpers with relations and partitions opaque: what is taken out, kept, '
            'scored and put back on every path, matched against the positions the schema records',
            'holds for all schemas, rows and candidates under the stated assumptions; nothing is executed'),
    'C24': ('symbolic effects of the schema-to-relations helpers: positions as linear terms over the lists of domains, '
            'order of appends, entries kept, added or overwritten',
            'holds for all schemas under the stated assumptions; nothing is executed'),
    'C25': ('loop-coverage analysis of the inference steps with the update moves opaque, across extracted helpers',
            'Every path of every inference step, view sweep, cluster sweep and composite model; each move must be made exactly '
            'once per element of its part; the moves themselves are C05, C06, C10, C23, C32.'),
    'C26': ('path conditions on the cells added per line (checks compiled out), column order of written rows, coverage of '
            'listed columns',
            'Every path of the table reader, writer and maker.'),
    'C27': ('symbolic value ranges: the values returned on each path as linear terms, bounded by the branch conditions and by '
            'the sizes of the tables they index',
            'Every path of sampling, corrupting, projecting and proposing of every model and emission the program uses; '
            'characters given to an emission are taken to be in its range.'),
    'C28': ('unit inference (log, probability, count, cost) over the terms of every path, with the units of draws and scores as sinks',
            'Every path of every function that draws by weight, takes a log or an exponential, or is named for logs; a quantity '
            'of unknown unit is compatible with every other.'),
    'C29': ('path-sensitive effect analysis of the search loop over symbolic record values, and agreement of scored and counted table '
            'entries per kind of piece, with the loop-carried context',
            'Every path of every round of the search, of the cost functions and of the pairwise learning.'),
    'C30': ('event-coverage dataflow over rows and columns of a table, with the conditions that may leave a cell out',
            'Every path of the loader of tables.'),
    'C31': ('typestate of element references, iterators and loop positions over interprocedural container effects on places',
            'Every range-for, element reference, iterator and by-reference argument of every function; objects behind '
            'different named pointers are taken to be different.'),
    'C32': ('value-flow of candidates, scores and drawn destination, with in/out typestate of the observations being moved',
            'Every path of the entity move, the relation move and the exact Gibbs score; partitions, models and relation '
            'moves are opaque (C01, C06, C08).'),
    'C33': ('additive normal form of the returned score compared with the registered parts',
            'Every logp_score of a composite class; the parts are the obligations of C02 and C06.'),
}
NA = {
    'C34': 'Convergence in distribution is a statement about infinite random histories; no static rule over the source '
           'bounds it (the per-step obligations it rests on are C02, C03, C05, C28, C32, C33).',
    'C35': 'Finiteness and rounding error depend on runtime magnitudes and history lengths that no sound static bound '
           'in reach covers: an interval analysis would report overflow for every lgamma and product.',
    'C36': 'Termination and run time depend on wall-clock time and on random draws (rejection loops); statically only '
           'the presence of a time check could be matched, which does not decide the property.',
}
PENDING = 'No check has been built for it yet.'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        f = 'checks/%s.py' % i.lower()
        if os.path.exists(os.path.join(V, f)) and i in TECH:
            t, note = TECH[i]
            checks.append({'property': i, 'quick_cmd': 'python3 ' + f, 'thorough_cmd': 'python3 ' + f,
                           'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
    m = {'version': 1, 'setup_cmd': 'bash tool/setup.sh',
         'hooks': {'guard': 'VERIF_STATIC_ANALYSIS', 'enable': 'no hooks are needed: the checks read the unmodified sources',
                   'source_commits': []},
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks parse the current /repo/cxx (and /repo/py where named) with a clang-based exporter and decide '
                  'by dataflow over the resolved syntax tree; nothing of /repo is executed.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')


main()
