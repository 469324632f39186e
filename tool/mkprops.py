#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the catalogue is kept here in readable form)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['cxx/' + f if not f.startswith(('cxx/', 'py/')) else f for f in files],
                    'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                    'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'observe_at': list(obs), 'hook_needed': None}})


D = 'distributions/'
E = 'emissions/'
p('C01', 'Removing an observation exactly undoes adding it',
  'For every data and emission model, adding a value with any (also fractional) weight and then removing it with the '
  'same weight restores every sufficient statistic, and the total observation weight changes by exactly the given '
  'weight once per call. Which statistics are touched depends on the value only, never on the sign or size of the '
  'weight, and no weight is rounded or truncated on the way.',
  ['inputs', 'histories'], 'all values, all real weights, all prior contents of the model',
  'The tests remove a handful of values with weight 1 from small models and compare a few rounded statistics.',
  [D + 'base.hh', D + 'beta_bernoulli.cc', D + 'dirichlet_categorical.cc', D + 'normal.cc', D + 'zero_mean_normal.cc',
   D + 'bigram.cc', D + 'stringcat.cc', D + 'nonconjugate.hh', D + 'adapter.hh', E + 'sometimes.hh', E + 'gaussian.hh',
   E + 'categorical.hh', E + 'simple_string.hh', E + 'bitflip.hh', E + 'identity.hh'],
  [('incorporate/unincorporate of every Distribution and Emission', 'cxx/distributions/*.cc, cxx/emissions/*.hh')],
  [('N', 'sum of the weights of the held observations', 'cxx/distributions/base.hh')],
  ['N and logp_score() before/after incorporate+unincorporate'])
p('C02', 'Predictive probability is the ratio of marginal likelihoods',
  'For every conjugate model, the log predictive probability of a value equals the change in the model\'s log marginal '
  'likelihood caused by adding that value, as an algebraic identity in all statistics and hyperparameters. The log '
  'marginal likelihood of the empty model is zero, so scores telescope over any insertion order.',
  ['inputs', 'histories'], 'all values, statistics and hyperparameter settings',
  'The tests compare the two numerically for a few data points and one hyperparameter setting.',
  [D + 'beta_bernoulli.cc', D + 'dirichlet_categorical.cc', D + 'crp.cc', D + 'zero_mean_normal.cc', D + 'normal.cc',
   D + 'bigram.cc', D + 'stringcat.cc', D + 'adapter.hh', E + 'gaussian.hh', E + 'categorical.hh', E + 'sometimes.hh'],
  [('logp and logp_score of each conjugate distribution', 'cxx/distributions/*.cc')])
p('C03', 'Samples are drawn from the distribution that scores them',
  'The parameters from which each model draws a sample are exactly those of its predictive distribution: the same '
  'posterior statistics, the same hyperparameters, the same categories with weights proportional to the predictive '
  'probabilities, and the value returned is the one the draw selected. The helpers that draw an index from log weights give '
  'every index a probability proportional to the exponential of its own weight.',
  ['inputs', 'histories'], 'all statistics, hyperparameters and generator states',
  'A wrong sampling weight shifts frequencies; tests only check that a sample is in range or its rough mean.',
  [D + 'beta_bernoulli.cc', D + 'dirichlet_categorical.cc', D + 'crp.cc', D + 'normal.cc', D + 'zero_mean_normal.cc',
   D + 'bigram.cc', D + 'stringcat.cc', D + 'skellam.cc', E + 'sometimes.hh', E + 'gaussian.hh', E + 'bitflip.hh', 'util_math.cc'],
  [('sample() versus logp()', 'cxx/distributions/*.cc'), ('choice/log_choice/sample_from_logps', 'cxx/util_math.cc')])
p('C04', 'Scoring, sampling and inspection leave the model unchanged',
  'Computing a probability or score, drawing a sample that is not asked to be recorded, or reading any value leaves '
  'every statistic, cluster assignment, stored observation and hyperparameter of the model as it was, on every path '
  'through the call. Temporary additions made to compute a conditional probability are all undone before returning.',
  ['inputs', 'histories'], 'all models, queries and control paths including early returns',
  'A leak of one temporary observation is invisible unless a test compares the full state around exactly that path.',
  [D + 'normal.cc', D + 'bigram.cc', E + 'simple_string.hh', E + 'sometimes.hh', E + 'bigram_string.cc',
   'clean_relation.hh', 'noisy_relation.hh', 'irm.cc', 'hirm.cc', 'gendb.cc'],
  [('logp / logp_score / sample / nearest / get_* methods', 'cxx/**')])
p('C05', 'Hyperparameter moves install exactly a candidate that was scored',
  'After a hyperparameter or parameter move, the installed hyperparameters are, as a whole tuple, one of the candidates whose score '
  'entered the weighted draw, at the drawn position; a rejected parameter proposal restores all previous parameters. No move changes '
  'the observation statistics.',
  ['inputs', 'histories'], 'all statistics, grids and generator states, also grids with unscorable candidates',
  'A mismatch between score list and candidate list needs a NaN candidate or a statistical test to be visible.',
  [D + 'beta_bernoulli.cc', D + 'dirichlet_categorical.cc', D + 'normal.cc', D + 'zero_mean_normal.cc', D + 'skellam.cc',
   D + 'crp.cc', D + 'bigram.cc', D + 'nonconjugate.hh'],
  [('transition_hyperparameters, transition_theta, transition_alpha', 'cxx/distributions')])
p('C06', 'The partition sampler\'s tables, assignments and count always agree',
  'In every reachable state of the Chinese-restaurant partition, each member sits at exactly one table, that table lists it, no '
  'table is empty, and the member count is the number of members. Table weights offered for seating are the table sizes plus the '
  'concentration for one fresh table, with the moved member excluded.',
  ['histories', 'inputs'], 'all sequences of insertions, removals and reseatings',
  'Tests run short scripted histories; a stale table or member shows up only later, far from its cause.',
  [D + 'crp.cc', D + 'crp.hh'],
  [('CRP::incorporate / unincorporate / tables_weights / tables_weights_gibbs', 'cxx/distributions/crp.cc')],
  [('tables, assignments, N', 'partition of the members', 'cxx/distributions/crp.hh')])
p('C07', 'A domain\'s entity set and its partition contain the same entities',
  'At all times the set of entities a domain reports equals the set of entities its partition has seated; adding a '
  'present entity changes nothing, and moving an entity between clusters keeps it in exactly one.',
  ['histories'], 'all sequences of additions, removals and cluster moves',
  'Needs an arbitrary history; tests check the two sets after a scripted one.',
  ['domain.hh'], [('Domain::incorporate/unincorporate/set_cluster_assignment_gibbs', 'cxx/domain.hh')],
  [('items, crp', 'entities and their partition', 'cxx/domain.hh')])
p('C08', 'A relation\'s observations, indexes and clusters agree after every operation',
  'Each observation of a relation is stored under its item tuple, indexed under every entity that occurs in it, and counted '
  'in exactly the cluster given by its entities\' current assignments. Operations that add, remove or move observations '
  'keep all three in step, and clusters without observations or for removed data do not survive.',
  ['histories', 'inputs'], 'all operation sequences, arities, repeated entities and repeated domains',
  'The invariant spans three containers and other objects\' partitions; tests read one of them after a few steps.',
  ['clean_relation.hh'],
  [('CleanRelation::incorporate/unincorporate/incorporate_to_cluster/unincorporate_from_cluster/update_value/'
    'set_cluster_assignment_gibbs/cleanup_data/cleanup_clusters', 'cxx/clean_relation.hh')],
  [('data, data_r, clusters', 'observations, reverse index, cluster models', 'cxx/clean_relation.hh')])
p('C09', 'A noisy relation mirrors its clean base relation',
  'Every noisy observation is held as the ordered pair of its base value and its observed value in the emission model, is stored '
  'under its own items, and is listed under exactly the base items it corrupts. Adding, removing, re-valuing and '
  'moving observations keeps value, pair and listing in step.',
  ['histories', 'inputs'], 'all operation sequences on a noisy relation and its base',
  'Swapped pair members or stale listings keep all counts right; tests compare counts and single values.',
  ['noisy_relation.hh'],
  [('NoisyRelation operations', 'cxx/noisy_relation.hh')],
  [('data, emission_relation, base_to_noisy_items', 'observed values, (base, observed) pairs, back references',
    'cxx/noisy_relation.hh')])
p('C10', 'Resampling a latent value replaces it everywhere at once',
  'When the latent value of a base observation is resampled, the old value is removed from and the chosen new value added to the '
  'base cluster, the stored value, and every noisy relation built on it, and the value kept is one of the scored candidates. '
  'A later removal therefore takes out exactly the value that was put in.',
  ['histories', 'inputs'], 'all interleavings of latent-value moves with other operations',
  'The mismatch only matters when a second operation removes the stored value; no test chains the two.',
  ['clean_relation.hh', 'noisy_relation.hh', 'transition_latent_value.hh', 'irm.cc'],
  [('transition_latent_value', 'cxx/transition_latent_value.hh'),
   ('incorporate_to_cluster / unincorporate_from_cluster', 'cxx/clean_relation.hh, cxx/noisy_relation.hh')])
p('C11', 'A single-view model\'s schema, relations and domain links agree',
  'Adding or removing a relation updates the schema, the relation table and the list of relations of each of its domains '
  'together, and removal unhooks the relation\'s data from its domains and from its base. Every operation addressed to '
  'a relation or a domain reaches exactly the relations registered for it, and an entity leaves a domain only when no relation uses it.',
  ['histories', 'programs'], 'all schemas and sequences of additions and removals',
  'Requires quantifying over schemas; tests use two or three fixed ones.',
  ['irm.cc', 'irm.hh'], [('IRM::add_relation/remove_relation/incorporate/unincorporate', 'cxx/irm.cc')],
  [('schema, relations, domains, domain_to_relations', 'registries', 'cxx/irm.hh')])
p('C12', 'Every relation lives in exactly the view its cluster names',
  'In the hierarchical model each relation belongs to exactly one view, the set of views equals the set of occupied clusters of the '
  'relation partition, and relation names and codes map one to one. When a relation is moved, its observations move '
  'with it, emptied views disappear, and relations that depend on it refer to the moved copy.',
  ['histories', 'programs'], 'all schemas and histories of relation moves',
  'Needs arbitrary move sequences including emptied views; tests check two fixed moves.',
  ['hirm.cc', 'hirm.hh'],
  [('HIRM::set_cluster_assignment_gibbs/transition_cluster_assignment_relation/add_relation/remove_relation/update_base_relation',
    'cxx/hirm.cc')],
  [('irms, crp, relation_to_code, code_to_relation', 'views and relation partition', 'cxx/hirm.hh')])
p('C13', 'Owned objects are released exactly once and never used afterwards',
  'Every object the system allocates has one owner that destroys it exactly once with the matching operation, on removal, replacement '
  'and destruction alike; a pointer leaves its registry when its object is destroyed. No object allocated for a computation is '
  'dropped unreleased.',
  ['histories', 'inputs'], 'all paths of all functions that allocate or release',
  'Tests run without leak or lifetime checking and hit only some removal paths.',
  ['clean_relation.hh', 'noisy_relation.hh', 'irm.cc', 'hirm.cc', 'gendb.cc', E + 'sometimes.hh', D + 'adapter.hh',
   'hirm_main.cc', 'pclean/pclean.cc', D + 'get_distribution.cc', E + 'get_emission.cc'],
  [('destructors, remove_relation, cleanup_*', 'cxx/**')])
p('C14', 'Model names, model kinds and value types agree everywhere',
  'Every accepted distribution or emission name selects its own model, whose value type is the one declared for it, '
  'and every accepted name can be instantiated; reading a value, building a relation and writing '
  'a value dispatch on the same type for each kind.',
  ['programs', 'inputs'], 'all schema-level model names and all value kinds',
  'The tables are spread over five files; tests instantiate some names only.',
  [D + 'get_distribution.cc', E + 'get_emission.cc', 'observations.hh', 'relation.hh', 'relation.cc'],
  [('DistributionSpec/EmissionSpec, get_prior, RelationVariant dispatch', 'cxx/distributions/get_distribution.cc')])
p('C15', 'A run is determined by its inputs and its seed',
  'All randomness comes from the generator the caller passes in: no other source of entropy, default-seeded '
  'generator, wall-clock time or object address influences results, and the programs seed that generator from their seed option only.',
  ['inputs', 'configurations'], 'all entry points',
  'Two test runs in one process agree even when an address or clock feeds the result.',
  ['hirm_main.cc', 'pclean/pclean.cc', 'gendb.cc', 'hirm.cc', 'irm.cc', 'clean_relation.hh', 'util_math.cc'],
  [('std::mt19937* prng threaded through every random choice', 'cxx/**')])
p('C16', 'Release and checked builds compute the same thing',
  'Compiling internal checks out changes nothing but the checks: no checked expression updates state, consumes randomness or input, '
  'or performs work the program needs.',
  ['configurations', 'programs'], 'all internal checks in the code base, in both build modes',
  'The tests are compiled with checks on; the shipped binaries with checks off.',
  ['clean_relation.hh', 'noisy_relation.hh', 'irm.cc', 'hirm.cc', 'gendb.cc', 'util_io.cc', D + 'crp.cc'],
  [('assert statements', 'cxx/**')])
p('C17', 'Malformed input is rejected, in every build',
  'A malformed schema, observation, cluster or CSV file - too few fields on a line, unknown keyword, model or relation, '
  'duplicate definition, missing file - stops the program with a failure status before any model is built from it, '
  'also in builds without internal checks, and never reads beyond the fields that are present.',
  ['inputs', 'configurations'], 'all input files',
  'Tests feed well-formed files, and run with internal checks on.',
  ['util_io.cc', 'pclean/io.cc', 'pclean/csv.cc', 'observations.hh'],
  [('load_schema, load_observations, load_clusters, read_schema, DataFrame::from_csv', 'cxx/util_io.cc, cxx/pclean')])
p('C18', 'Failures to read or write files are reported',
  'Every operation that reports failure through its result or a stream state has that failure checked by its caller, '
  'and the command-line programs end with a failure status when an input cannot be read or an output cannot be written.',
  ['fault_sequences', 'inputs'], 'all call sites of fallible operations',
  'Fault paths are not exercised by the tests.',
  ['pclean/pclean.cc', 'pclean/io.cc', 'pclean/csv.cc', 'util_io.cc', 'hirm_main.cc'],
  [('main functions and readers/writers', 'cxx/pclean/pclean.cc, cxx/hirm_main.cc')])
p('C19', 'Saved clusterings load back as written',
  'A saved model file and its loader agree on structure: each view with its relations, each domain '
  'cluster with its entities, in an order and with separators the loader accepts, and what is loaded assigns '
  'every relation and entity to the cluster it was saved under.',
  ['inputs', 'histories'], 'all models',
  'Tests round-trip one or two small models.',
  ['util_io.cc'], [('to_txt / from_txt / load_clusters_*', 'cxx/util_io.cc')])
p('C20', 'Entity names and entity codes correspond one to one per domain',
  'Within a domain every distinct entity name gets its own code, codes are dense from zero, and decoding inverts encoding, '
  'for every observation set; codes are assigned per domain, never across domains.',
  ['inputs'], 'all observation sets and schemas',
  'Tests check one fixed encoding.',
  ['util_io.cc', 'gendb.cc'], [('encode_observations / calculate_encoding', 'cxx/util_io.cc')])
p('C21', 'Every loaded observation enters the model exactly once, base before noisy',
  'When data is loaded into a model, each observation is incorporated exactly once with its own value and items, clean base values '
  'exist before any noisy observation refers to them, and a missing base value is created once and then reused.',
  ['inputs', 'programs'], 'all observation files and schemas, incl. several noisy relations on one base',
  'Needs schemas with noisy chains and repeated base items.',
  ['util_io.cc', 'hirm.cc', 'irm.cc', 'gendb.cc', 'noisy_relation.hh'],
  [('incorporate_observations', 'cxx/util_io.cc'), ('HIRM/GenDB incorporate', 'cxx/hirm.cc, cxx/gendb.cc')])
p('C22', 'Database references and their partitions stay in step',
  'Every foreign-key value recorded for a row is seated in the partition for that key and vice versa; '
  'changing, adding or removing a reference updates both, and the referenced rows exist.',
  ['histories', 'programs'], 'all schemas and histories of incorporations and reference moves',
  'Spans two maps over a recursive schema; tests check one schema.',
  ['gendb.cc', 'gendb.hh'],
  [('GenDB::sample_and_incorporate_reference/transition_reference/unincorporate_reference', 'cxx/gendb.cc')],
  [('reference_values, entity_crps', 'foreign keys and their partitions', 'cxx/gendb.hh')])
p('C23', 'A reference move removes and restores exactly the affected observations',
  'When a foreign key is resampled, precisely the observations whose items pass through it are taken out and put back with '
  'unchanged values, under the items that the chosen reference implies; every candidate reference is scored in the same state and the model '
  'is consistent whichever is chosen.',
  ['histories', 'programs'], 'all schemas, rows and candidates, including singletons and new references',
  'A value lost or duplicated needs a specific candidate order to show.',
  ['gendb.cc'], [('GenDB::transition_reference and the unincorporate_*/incorporate_* helpers', 'cxx/gendb.cc')])
p('C24', 'Relations generated from a database schema index the right entities',
  'For every class and query field, the generated relation\'s domains list, in order, the entities along the path to the attribute, '
  'with each reference looked up at its recorded position, and the noisy relation extends its base\'s domains.',
  ['programs'], 'all well-formed schemas',
  'One fixed schema is tested.',
  ['gendb.cc', 'gendb.hh', 'pclean/schema.hh', 'pclean/get_joint_relations.cc'],
  [('GenDB constructor helpers', 'cxx/gendb.cc')])
p('C25', 'Each inference sweep updates every part of the model',
  'One sweep of inference visits every domain\'s entities, every relation\'s latent values, every cluster\'s hyperparameters, every '
  'view and every relation assignment that the sweep is meant to cover; nothing is skipped except as asked by an option.',
  ['programs', 'histories'], 'all models',
  'A skipped component makes inference slower or biased but breaks no functional test.',
  ['inference.cc', 'irm.cc', 'hirm.cc', 'gendb.cc', 'clean_relation.hh'],
  [('inference_irm / inference_hirm / inference_gendb', 'cxx/inference.cc')])
p('C26', 'Tables read or produced stay rectangular',
  'A table read from or written to a file has the same number of cells in every column, every written row has one '
  'cell per header in header order, and a file whose rows differ in length is rejected.',
  ['inputs'], 'all tables', 'Tests read well-formed tables.',
  ['pclean/csv.cc', 'pclean/pclean_lib.cc'], [('DataFrame::from_csv/to_csv, make_pclean_samples', 'cxx/pclean')])
p('C27', 'Generated and nearest values lie in the model\'s support',
  'Characters, categories and values produced by sampling, by corrupting, or by projecting to the nearest '
  'acceptable value are ones the same model can score, and a value already acceptable is its own nearest value.',
  ['inputs', 'histories'], 'all inputs and generator states',
  'An off-by-one bound is hit by one draw in a hundred, and only matters when that value is then scored.',
  [D + 'dirichlet_categorical.cc', D + 'stringcat.cc', D + 'string_nat.hh', D + 'bigram.cc', E + 'simple_string.hh',
   E + 'bigram_string.cc'],
  [('nearest, sample, random_character, category_to_char', 'cxx/distributions, cxx/emissions')])
p('C28', 'Log-probabilities are never used where probabilities are expected',
  'Every weight passed to a weighted draw is in the scale that draw expects, scores are combined by addition in log scale and '
  'multiplication in linear scale, and normalisation uses the matching operation.',
  ['inputs', 'histories'], 'all call sites that mix scores and weights',
  'A scale error yields valid samples with wrong frequencies.',
  ['util_math.cc', 'irm.cc', 'hirm.cc', 'gendb.cc', 'transition_latent_value.hh', D + 'crp.cc'],
  [('choice, log_choice, sample_from_logps, logsumexp', 'cxx/util_math.cc')])
p('C29', 'String alignments account for every character of both strings and are scored as they are learned',
  'Each alignment returned spells out, piece by piece, exactly the two input strings, its cost is the cost function\'s value for that '
  'alignment, and alignments come out cheapest first. The bigram string emission scores every edit with the insertion and substitution '
  'entries, in the context of the clean character before the edit, under which incorporating a pair with that edit counts it.',
  ['inputs'], 'all pairs of strings, costs and counts', 'Tests align a few short strings.',
  [E + 'string_alignment.cc', E + 'string_alignment.hh', E + 'bigram_string.cc'],
  [('topk_alignments', 'cxx/emissions/string_alignment.cc'), ('log_prob_distance / incorporate', 'cxx/emissions/bigram_string.cc')])
p('C30', 'Missing cells are skipped and all other queried cells are used',
  'When a data table is loaded for cleaning, each non-missing cell of a queried column becomes exactly one observation of its own '
  'row and field, and a missing cell becomes none.',
  ['inputs'], 'all tables and schemas', 'Tests load small complete tables.',
  ['pclean/pclean_lib.cc', 'pclean/pclean.cc', 'gendb.cc'],
  [('incorporate_observations over a DataFrame', 'cxx/pclean/pclean_lib.cc')])
p('C31', 'No container is traversed while the traversal is being invalidated',
  'No loop adds to or removes from the container it iterates over in a way that invalidates its position, and no reference to an '
  'element is used after an operation that may have destroyed it.',
  ['histories', 'inputs'], 'all loops and element references', 'Undefined behaviour often passes tests.',
  ['clean_relation.hh', 'noisy_relation.hh', 'irm.cc', 'hirm.cc', 'gendb.cc', D + 'crp.cc'],
  [('loops over registries and clusters', 'cxx/**')])
p('C32', 'Reassignment scores every destination and applies the chosen one',
  'When an entity or relation is reassigned, every currently possible destination including a fresh one is scored with prior weight and '
  'data likelihood, and the destination drawn is the one applied, to all observations and in all registries.',
  ['histories', 'inputs'], 'all models, entities and generator states',
  'A mismatched candidate index still yields a valid state.',
  ['irm.cc', 'hirm.cc', 'clean_relation.hh'],
  [('transition_cluster_assignment_item / _relation, logp_gibbs_exact', 'cxx/irm.cc, cxx/hirm.cc, cxx/clean_relation.hh')])
p('C33', 'A composite model\'s score is the sum of its parts, each counted once',
  'The log score of a relation, view, hierarchical model and database model is the sum of the scores of all its component parts '
  '(clusters, base-conditional emissions, partitions, views), and that of a composite distribution or emission is the sum over its '
  'nested parts and symbols, each included exactly once with coefficient one.',
  ['histories', 'programs'], 'all models', 'Tests compare against a stored number or only the sign.',
  ['clean_relation.hh', 'noisy_relation.hh', 'irm.cc', 'hirm.cc', 'gendb.cc', D + 'bigram.cc', E + 'simple_string.hh',
   E + 'categorical.hh', E + 'bigram_string.cc'],
  [('logp_score', 'cxx/**')])
p('C34', 'The inference chain converges to the posterior',
  'Repeated sweeps produce samples whose distribution converges to the posterior given the observations.',
  ['histories'], 'all models and data', 'Convergence is a statement about infinite histories.',
  ['inference.cc', 'irm.cc', 'hirm.cc'], [('Gibbs and Metropolis sweeps', 'cxx/inference.cc')])
p('C35', 'Scores stay finite and accurate for large data',
  'Scores and statistics remain finite and within floating-point tolerance of their exact values for any amount of data.',
  ['inputs', 'histories'], 'all magnitudes and lengths of history', 'Needs bounds on runtime magnitudes.',
  [D + 'normal.cc', D + 'skellam.cc', 'util_math.cc'], [('Welford updates, log-space arithmetic', 'cxx/distributions')])
p('C36', 'Inference finishes within its time budget',
  'A run with a time limit stops soon after the limit, and every resampling or proposal loop terminates.',
  ['inputs', 'schedules'], 'all models and limits', 'Depends on wall-clock time and random draws.',
  ['inference.cc', E + 'simple_string.hh', E + 'bigram_string.cc'], [('timeout checks', 'cxx/inference.cc')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
