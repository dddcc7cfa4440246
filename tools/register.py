"""Writes properties.jsonl and MANIFEST.json (run after editing the list below)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'schubertpy/abstract_grassmannian.py'
GR, IG, OG = ('schubertpy/grassmannian.py', 'schubertpy/isotropic_grassmannian.py', 'schubertpy/orthogonal_grassmannian.py')
Q, LC, SC, PT = 'schubertpy/qcalc.py', 'schubertpy/lc.py', 'schubertpy/schur.py', 'schubertpy/partition.py'
HASH, MIX, KS = 'schubertpy/utils/hash.py', 'schubertpy/utils/mix.py', 'schubertpy/utils/kstrict.py'
TAB, CSV, BAD = 'schubertpy/mult_table.py', 'schubertpy/csv_bijection.py', 'scripts/coverage_badges.py'
ALL = [A, GR, IG, OG, Q, LC, SC, PT, HASH]
MEMO = dict(name='memo shared by all spaces of a class', meaning='answers kept for later requests, keyed on the space object and the arguments', where=HASH)

P = []


def prop(pid, title, statement, over, text, cant, files, mech, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=cant,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


HIST = 'every request, in every history of earlier, interrupted and concurrent requests, hash seed and memo state'
prop('C01', 'Quantum products are the products of the quantum cohomology ring',
     'For every Grassmannian of type A, B, C or D, the quantum product of any two combinations of Schubert classes, and the quantum '
     'expansion of any polynomial in Schubert classes or in special classes acting on a combination, is exactly the element of the small quantum cohomology '
     'ring they denote: every class, power of q (q1, q2 where there are two) and integer coefficient. This holds whatever was computed, interrupted or is running besides.',
     ['inputs', 'histories', 'schedules'], 'All spaces and operands; ' + HIST,
     'The suite samples a few dozen products on a handful of spaces, each in a fresh single-threaded process.', ALL,
     [('quantum Giambelli, then quantum Pieri on the right factor', A), ('quantum Pieri rules by type', Q)], [MEMO],
     ['qmult, qtoS, qact of the three space classes'])
prop('C02', 'Classical products are the products of the cohomology ring',
     'For every Grassmannian of type A, B, C or D, the classical product of any two combinations of Schubert classes, and the classical '
     'expansion of any polynomial in them or in special classes acting on a combination, is exactly the element of the cohomology ring they denote, with no terms of too high degree and nothing lost. '
     'This holds whatever was computed, interrupted or is running besides.',
     ['inputs', 'histories', 'schedules'], 'All spaces and operands; ' + HIST,
     'Tests compare a few listed products; associativity, commutativity and sizes beyond the samples are not touched.', ALL,
     [('Giambelli, then Pieri on the right factor', A), ('Pieri rules by type', Q)], [MEMO], ['mult, toS, act'])
prop('C03', 'Pieri products are those of the Pieri rules',
     'The product of any special class of a space with any combination of Schubert classes, classical or quantum, has exactly the terms and '
     'multiplicities the (quantum) Pieri rule of its type prescribes, including both special classes of the middle degree in type D. It is linear in the combination.',
     ['inputs', 'histories', 'schedules'], 'All spaces, special classes and combinations; ' + HIST,
     'Tests list single products; the rule has many boundary cases (rows of length k, trailing zeros, top degree) on each of hundreds of spaces.',
     [A, GR, IG, OG, Q, KS], [('enumeration of the strips and of their multiplicities', Q), ('quantum correction by type', OG)], [MEMO], ['pieri, qpieri'])
prop('C04', 'Giambelli polynomials use special classes only and evaluate back',
     'The (quantum) Giambelli formula of any combination of Schubert classes, or of any product of them, is a polynomial in the special classes of the space and its quantum parameters '
     'only; evaluated in the (quantum) ring it gives back exactly the element it was asked for.',
     ['inputs', 'histories', 'schedules'], 'All spaces and combinations; ' + HIST,
     'Tests compare printed polynomials for a few classes; the recursion shares a memo between classes, spaces and threads.', [A, Q, LC, HASH],
     [('Giambelli recursion with a memo', A)], [MEMO], ['giambelli, qgiambelli'])
prop('C05', 'The rim-hook product equals the quantum product in type A',
     'On every type A Grassmannian the quantum product computed by rim hooks is the element of the quantum cohomology ring its operands denote, '
     'that is, the same as the quantum product computed the other way, with all signs and powers of q.',
     ['inputs', 'histories', 'schedules'], 'All type A spaces and operands; ' + HIST,
     'Tests check a few rim-hook removals and products with at most one hook.', [GR, PT, A], [('product in a larger space, then rim hooks removed', GR)],
     [dict(name='enlarged space kept by a space', meaning='used for rim-hook products', where=GR), MEMO], ['qmult_rh'])
prop('C06', 'Dualising is Poincare duality',
     'Dualising sends every Schubert class to the class whose classical product with it contains the point class with coefficient one and with '
     'every other class of that degree with coefficient zero. It is linear, and doing it twice gives the combination back.',
     ['inputs', 'histories', 'schedules'], 'All spaces and combinations; ' + HIST,
     'Tests list the duals of single classes on a few spaces; the types of type D classes depend on parities.', [GR, IG, OG, Q],
     [('index sets reversed, with the type correction in type D', Q)], [], ['dualize'])
prop('C07', 'Conversions between partitions, indices, pairs and types agree',
     'Partition to index set is the standard bijection between Schubert classes and Schubert symbols and index set to partition is its inverse; partition to pair and pair to partition '
     'are inverse; the type swap and the type of a class follow the type D conventions and fix everything in the other types. All of them apply term by term to combinations.',
     ['inputs', 'histories', 'schedules'], 'All spaces, classes and combinations; ' + HIST,
     'Tests convert a few listed partitions, one at a time.', [GR, IG, OG, Q, A], [('conversion of one class', Q), ('term-by-term application', LC)], [],
     ['part2index, index2part, part2pair, pair2part, type_swap, miami_swap, schub_type'])
prop('C08', 'A space lists its classes, generators, point class and data correctly',
     'Every space lists each of its Schubert classes exactly once, in increasing order of their partitions, its special generators in order, its '
     'point class, the degree of q, and its type data and description, and does so at any time and on clones alike. Nothing a caller does with other spaces changes that.',
     ['configurations', 'histories', 'schedules'], 'All spaces; ' + HIST,
     'Tests list the classes of a few spaces.', [GR, IG, OG, KS, Q], [('enumeration of k-strict partitions', KS), ('enumeration of partitions in a rectangle', Q)],
     [], ['schub_classes, generators, point_class, degree_q, get_type_data, str, clone'])
prop('C09', 'An interrupted computation leaves nothing wrong behind',
     'When a computation is stopped at any point (keyboard interrupt, out of memory, recursion limit, timeout), asking the same question again, or any other question '
     'on any space, gives the same answer as in a fresh process. The interruption itself reaches the caller or the right answer does.',
     ['crash_points', 'fault_sequences', 'inputs'], 'Every request, stopped at every executed source line or call into sympy, any number of times, followed by any requests',
     'No test interrupts a computation.', ALL, [('memos filled only with finished answers', HASH), ('lazily built members set when complete', GR)], [MEMO],
     ['every operation of the space classes'])
prop('C10', 'Concurrent computations on shared spaces do not disturb each other',
     'When several threads use the same or different spaces at the same time, every answer is the one the same request gives alone in a fresh process, under every interleaving of their steps; '
     'every request finishes, and no deadlock occurs.',
     ['schedules', 'inputs'], 'All sets of requests in two to four threads; all interleavings at source lines and, in part of the runs, bytecodes',
     'The suite is single-threaded; one threaded script is not run and would sample a few schedules of the real machine.', ALL,
     [('no state shared between requests except memos of finished answers', A)], [MEMO], ['every operation of the space classes'])
prop('C11', 'Spaces are isolated from each other and interchangeable with equals',
     'An answer depends only on the space asked and the operands: other spaces with the same internal parameters, of other types or sizes, '
     'created, cloned, used or dropped before or meanwhile, never change it. A clone or a second space with the same parameters answers identically.',
     ['histories', 'configurations', 'schedules'], 'All sequences of creating, cloning, dropping and using spaces that look alike',
     'Tests use one space per test case.', [A, GR, IG, OG, HASH], [('memo keyed on the space object', HASH), ('clone rebuilds from the type data', A)], [MEMO],
     ['every operation, clone'])
prop('C12', 'Operands are never changed, and results handed out never change later',
     'No operation modifies any operand it is given, and no result a caller holds ever changes because of later requests. When a caller modifies a result it was handed, '
     'or a list it passed in, later answers do not change.',
     ['histories', 'inputs', 'schedules'], 'All sequences of requests that keep, reuse, feed back and modify operands and results',
     'Tests look at each result once, right after the call.', [A, GR, OG, IG, LC, SC, HASH], [('copies where a memo would hand out its own object', A)], [MEMO],
     ['every operation'])
prop('C13', 'An answer reads the same in every process',
     'The printed form of any answer (products, polynomials, lists of classes, tables, sums of combinations) is a function of the request only: it is the same text whatever the hash seed '
     'of the process, what was computed before, in which order, on which thread, and with what interruptions.',
     ['configurations', 'schedules', 'histories'], 'All requests; all hash seeds, memo sizes, orders of requests, schedules and interruptions',
     'The suite runs with one fixed hash seed and always in the same order.', [LC, SC, Q, OG, TAB], [('sympy printing order; no iteration over sets reaches an answer', OG)], [MEMO],
     ['str and repr of every answer'])
prop('C14', 'Multiplication tables hold exactly the products of all pairs',
     'A classical or quantum multiplication table of a space has one row and one column for each Schubert class, in the order the space lists them, and '
     'the entry is exactly the product of the row class and the column class; its matrix and text forms agree with it. Building it again after an interruption, or two at a time, gives the same table.',
     ['inputs', 'crash_points', 'schedules'], 'All spaces of moderate size, classical and quantum, interrupted at any line and built side by side',
     'No test builds a table.', [TAB, A], [('filled from the products of labels', TAB)], [MEMO], ['MultTable, QMultTable: table, to_matrix, str'])
prop('C15', 'All input forms denote the same element and arithmetic is exact',
     'A class or combination given as text (powers written ^ or **, any order and spacing of terms), as a list, class object, combination object or symbolic expression is the same element for '
     'every operation that accepts it. Sums, differences, products and powers of combinations are those of the polynomials they denote and are combinations again; printing one and reading the text back gives the same value, and its expansion lists its terms.',
     ['inputs', 'histories', 'schedules'], 'All spellings and forms of all combinations; all arithmetic on them; interrupted and concurrent',
     'Tests use one spelling per value and compare printed text.', [LC, SC, A, 'schubertpy/utils/const.py'], [('translation of class names to symbols and back', 'schubertpy/utils/const.py'), ('operators of combinations', LC)],
     [], ['LinearCombination, Schur, every operation with operands'])
prop('C16', 'Comparing exported tables answers exactly whether they agree, or fails',
     'Comparing two exported tables answers true exactly when they hold the same set of entries (two labels and a product, products compared as '
     'polynomials), whatever the order of rows and terms, repeated or blank rows, line ends and notation of powers. If either file cannot be opened or read to the end the comparison fails with an error rather than an answer, and no file stays open.',
     ['inputs', 'fault_sequences', 'crash_points', 'schedules'], 'All pairs of tables; open and read errors and short reads at any call, interruptions at any line, concurrent comparisons',
     'The only test compares files with themselves on a healthy disk.', [CSV, 'schubertpy/utils/const.py'], [('rows normalised into a set', CSV)], [], ['check_bijection_with_permutation'])
prop('C17', 'Pictures show the partition, and failed exports are reported and clean',
     'A partition exported as a picture, or plotted, shows exactly its rows of cells. When the file cannot be created or written the caller gets an error, and after success or failure no figure and no file of the export '
     "stays open; figures of the caller and of other exports running at the same time are never drawn on, closed or made non-current.",
     ['inputs', 'fault_sequences', 'schedules'], 'All partitions of moderate size; open and write errors, partial and torn writes at any call; concurrent exports, own figures of the caller',
     'Tests do not look at the picture, make storage fail or export concurrently.', [SC], [('one figure per export, closed in any case', SC)],
     [dict(name='global figure list of the plotting library', meaning='shared by all callers', where=SC)], ['export_png, plot_partition'])
prop('C18', 'Text drawings show exactly the diagrams, or the beginning of them',
     'Young diagrams and combinations drawn as text, printed tables and LaTeX pictures show exactly the rows, boxes, coefficients and classes of what they draw, on the output of the thread that asked. '
     'If standard output fails, the error reaches the caller and what was written is a beginning of the drawing; the object drawn is unchanged.',
     ['inputs', 'fault_sequences', 'schedules'], 'All partitions and combinations of moderate size; output errors at any write, interruptions at any line, concurrent drawings',
     'Tests check a few LaTeX strings and none of the printing functions under failure.', [SC, LC, PT, MIX, TAB], [('line-by-line drawing', LC), ('blocks side by side', MIX)], [],
     ['Partition.draw, print_partition, yd, draw_ascii_partition, table print, latex, latex_standalone'])
prop('C19', 'Memoised functions answer like the plain ones',
     'A function or method wrapped by the memo decorators answers every call as the plain function would for the same values, whether arguments are lists or tuples, positional or by name, and keeps the objects of a class apart. '
     'Errors and interruptions reach the caller and are never remembered; with no size limit, and no other thread, a call answered once is not computed again.',
     ['inputs', 'histories', 'crash_points', 'schedules'], 'All signatures, memo sizes and sequences of calls; interruptions at any line, errors raised by the function, recursion, concurrent calls',
     'Two tests call a one-argument sum three times.', [HASH], [('lists turned into tuples before the lookup', HASH)], [MEMO], ['hashable_lru_cache, hashable_lru_cache_method'])
prop('C20', 'Repeating the same work does not hold more and more memory',
     'Repeating the same requests on the same spaces any number of times, some of them interrupted each time, does not make the library retain more and more objects or '
     'memory: after the first rounds the amount held stays bounded.',
     ['histories', 'crash_points'], 'All rounds of requests, interrupted or not, repeated',
     'No test repeats a request or looks at memory.', [A, GR, OG, IG, HASH], [('memo keys that compare equal between calls', A)], [MEMO], ['memory held by the library'])
prop('C21', 'Coverage badges report this run or the run fails',
     'When the coverage-badge script finishes, its two badges show the current, previous and changed-lines coverage truncated to whole percent, with the colour of that coverage or change. '
     'When a step fails (a missing report, a failing git or diff-cover, a full disk) it ends with an error, and unless the disk itself failed each badge file is either as it was before or a complete badge of this run.',
     ['inputs', 'fault_sequences', 'crash_points'], 'All coverage figures, previous badges and reports; failures of each process and file operation, interruptions at any line',
     'The script has no tests.', [BAD], [('badges written after the steps they depend on', BAD)], [], ['the badge files and the exit of the script'])
prop('C22', 'Schur polynomials are the sums over semistandard tableaux',
     'The Schur polynomial of a partition in any number of variables is the sum over its semistandard tableaux of their weights, as a polynomial with the printed variables x1, x2 and so on (zero when it has more rows than variables), '
     'whatever was computed, interrupted or is running besides. The partition is left as it was.',
     ['inputs', 'histories', 'schedules'], 'All partitions and numbers of variables of moderate size; interrupted and concurrent requests',
     'One test computes one polynomial.', [SC, MIX], [('tableau recursion with a table of intermediate results', MIX)], [], ['to_polinomial_str'])

NA = [
    dict(property='C24', reason='Needs sage, which is not installed here (import sage.all fails), and the conversion is a stateless expression walk: nothing to schedule or to fault.'),
]
prop('C23', 'Impossible spaces are refused, possible ones are what was asked for',
     'Asking for a space whose parameters are not integers, are negative or do not describe a Grassmannian of that type is refused with a type or value error '
     'when the space is created, and every admissible pair gives the space asked for. This does not depend on the spaces asked for before, meanwhile, or in a creation that was stopped.',
     ['inputs', 'histories', 'schedules', 'crash_points'], 'All parameter pairs; every history of earlier, interrupted and concurrent requests for spaces',
     'Tests try a few bad parameters, each once.', [GR, IG, OG], [('argument checks of the constructors', GR)], [], ['creating a space'])
prop('C24', 'Conversion to Sage objects preserves the value',
     'Converting a combination or class to its Sage counterpart preserves every partition and coefficient.', ['inputs'], 'All combinations',
     'No test runs it; Sage is not available.', ['schubertsage/conversion.py'], [('recursive conversion', 'schubertsage/conversion.py')])
prop('C25', 'Partitions, classes and combinations answer by their value',
     'A list makes a partition exactly when it is a non-increasing list of non-negative integers (anything else is refused with a value error). A partition answers whether it fits a grid; taking hooks of rows plus columns boxes off a '
     'partition of at most that many rows leaves the partition in the grid that remains, with the number of hooks and the parity of the rows they covered, or nothing when that cannot be done. Classes are equal, hash alike and are ordered as their partitions are. '
     'A combination answers from its terms alone whether it has a padded class, what its outermost operation, its number of operands and its operands are, and whether it is linear. None of this depends on earlier, interrupted or concurrent questions, or changes what was asked.',
     ['inputs', 'histories', 'schedules', 'crash_points'], 'All partitions, classes and combinations; every history of earlier, interrupted and concurrent questions to the same objects',
     'Tests put single questions to fresh objects, none twice and none after a failure.', [PT, SC, LC],
     [('range test and rim-hook removal', PT), ('equality, order and hash of classes', SC), ('walks over expressions', LC)], [],
     ['Partition, is_in_range, remove_rim_hooks, Schur comparisons, len, is_operator, is_valid, list_schur_oprands, has_part_zero_padding'])
prop('C26', 'Enumerations and maps of partitions are complete and exact',
     'Listing the k-strict partitions in a rectangle (all_kstrict), or all partitions in one (part_gen on the rectangle), gives each of them exactly once and nothing else. Conjugation, clipping and padding of zeros, the number of rows, '
     'the rows of a skew shape (refused with a value error when the inner shape sticks out), sorting out distinct classes, pairs of a k-strict partition, the number of a special class and the symbol names of classes are exact, and those with an inverse come back to where they started. '
     'None of this depends on what was asked, stopped or handed out before or meanwhile, or changes what was given.',
     ['inputs', 'histories', 'schedules', 'crash_points'], 'All rectangles, partitions and classes; every history of earlier, interrupted and concurrent requests, on shared lists too, with the caller changing what it was given',
     'Tests list single values; no enumeration is compared with the whole set, and none is asked twice.', [KS, Q, PT, MIX, SC, 'schubertpy/utils/const.py', A],
     [('successor of a k-strict partition', KS), ('successor of a partition, conjugation, pairs', Q), ('rows of a skew shape', PT)], [],
     ['all_kstrict, part_gen, part_conj, part_clip, part_len, padding_right, skew_partition_height, unique_schur_list, encode, decode, spec2num, num2spec'])
prop('C27', 'What cannot be answered is refused, every time',
     'Something that is no combination of classes, text that is no expression, arithmetic with foreign objects, an unknown operator, an expansion of a product of classes not yet expanded, a Schur polynomial without variables or of no partition, acting with '
     'classes which are not special for the space, a skew shape that sticks out, and conversions or types which only other types of spaces have are refused with an error (a value or type error unless it is malformed text) and never answered. '
     'This holds each time, on every space, whatever was asked, answered, refused, stopped or is running before and meanwhile; a refusal leaves operands, and the answers of later requests, as they were.',
     ['inputs', 'histories', 'schedules', 'crash_points'], 'All requests of these kinds among possible ones; every history of earlier, interrupted and concurrent requests',
     'Tests provoke a handful of errors, each once and in a fresh state.', [LC, SC, A, GR, IG, OG, PT, MIX],
     [('type checks of combinations', LC), ('special classes only', A), ('conversions by type', GR), ('expansion of sums', LC)], [MEMO],
     ['LinearCombination, its operators and expansion, SchurPol, act, qact, spec2num, part2pair, pair2part, schub_type and all operands of space operations'])
P.sort(key=lambda p: p['id'])

NOTE = ('Seeded search, not proof: holds on the simulated runs listed in the evidence. Trusts the reference model (validated for commutativity, associativity and duality by '
        'setup), the simulator, CPython and sympy; threads switch only at source lines or bytecodes of this code and at its calls out.')
SPECIAL = {
    'C16': 'Seeded search. Trusts the oracle (set of rows, products compared as polynomials) and the simulated raw file layer; a fault goes in only through open/io.open/pathlib.',
    'C17': 'Seeded search. Trusts the pixel reader and the simulated raw file layer; matplotlib and Pillow run for real and are atomic to the scheduler.',
    'C18': 'Seeded search. Trusts the text model; standard output is simulated, one stream per thread.',
    'C19': 'Seeded search over decorated functions of the harness; trusts the plain function as oracle.',
    'C20': 'Seeded search; growth is judged over eight identical rounds after four warm-up rounds, by live objects and by allocations made in this code.',
    'C21': 'Seeded search; git and diff-cover are scripted stubs, the report key read by the script is taken as given.',
}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    na = {x['property'] for x in NA}
    py = '/opt/venv/bin/python'
    man = dict(version=1, setup_cmd=py + ' sim/selftest.py',
               checks=[dict(property=p['id'], quick_cmd='%s sim/check.py %s --tier quick' % (py, p['id']),
                            thorough_cmd='%s sim/check.py %s --tier thorough' % (py, p['id']),
                            evidence_file='evidence/%s.json' % p['id'],
                            technique='deterministic simulation with fault injection: seeded schedules, faults and histories, against a reference model',
                            level='exploration', level_note=SPECIAL.get(p['id'], NOTE))
                       for p in P if p['id'] not in na],
               not_applicable=NA,
               notes='No hooks in /repo: every seam is taken from outside (interpreter line events, patched open, stdout, locks, subprocess).')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for p in P:
        assert len(p['title']) <= 80, p['id']
    try:
        import jsonschema
        sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in P:
            jsonschema.validate(p, sc)
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    except ImportError:
        pass


main()
