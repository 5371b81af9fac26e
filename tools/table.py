# The property table (executed by gen.py).
HOLD = {}

NB = ('Z3 decides every branch and assertion over all symbolic values within '
      'the stated bounds; every counterexample is replayed on the unmodified '
      'code before it is reported; shapes beyond the bounds are not covered.')

prop('G01', 'Grammar types form a free rigid monoid',
     'Tensoring types is associative with the empty type as unit, left and '
     'right adjoints are mutually inverse and reverse the order of factors, '
     'and rotations add up. Length, iteration, indexing, slicing, insertion, '
     'replacement, powers and counting all agree with the list of atomic '
     'factors. Two types are equal, hash equal and print equal exactly when '
     'their factors agree in name and winding number.',
     ['inputs'], 'all types (any factor names, any winding numbers, any '
     'number of factors), all indices and rotation amounts',
     'tests compare a handful of literal types; the laws quantify over every '
     'type and every winding number.',
     [G], [('Ty.tensor/l/r/rotate', G), ('Ty.__getitem__/insert/replace', G),
           ('Ty._equals/__hash__', G)], NB)

prop('G02', 'Diagram combinators only ever build well-typed diagrams',
     'Composing, tensoring, daggering, rotating (adjoints), slicing, '
     'iterating, permuting and n-fold operations on well-typed diagrams give '
     'diagrams whose every layer boundary agrees and whose domain and '
     'codomain are the ones the operation promises. Composition is refused '
     'with an error exactly when the boundary types differ. Composition and '
     'tensor are associative and unital, dagger is an involution that '
     'swaps domain and codomain, and left and right adjoints undo each '
     'other.',
     ['inputs', 'programs'], 'all well-typed diagrams built from boxes, '
     'words, cups, caps, swaps, spiders and daggered boxes, over arbitrary '
     'types',
     'tests build a few literal diagrams; well-typedness is claimed for all '
     'compositions of all diagrams.',
     [G], [('Diagram.then/tensor/dagger/rotate/__getitem__', G),
           ('Box/Daggered/Cup/Cap/Swap/Spider constructors', G)], NB)

prop('G03', 'Permutations, swaps, cups, caps and spiders wire what they say',
     'A permutation diagram connects each input wire to exactly the output '
     'position requested; swapping two composite types exchanges the two '
     'blocks while keeping the order inside each; cups and caps over '
     'composite types connect each wire with its own adjoint, nested; a '
     'spider over a composite type connects like factors. Requests that are '
     'not permutations, or types that are not adjoint to each other, are '
     'refused.',
     ['inputs'], 'all permutations, all pairs of types (any lengths, names, '
     'winding numbers)',
     'tests check a few permutations and two or three types; wiring must be '
     'right for every one.',
     [G], [('Diagram.permutation/permuted/swap/cups/caps/spider', G),
           ('Cup/Cap/Swap/Spider.__new__', G)], NB)

prop('G04', 'Functors preserve types and structure and are history independent',
     'Applying a functor gives a diagram whose domain and codomain are the '
     'images of the original domain and codomain, and it commutes with '
     'composition, tensor, dagger, adjoints, identities and the structural '
     'boxes. A box image of the wrong type is refused every time it is '
     'requested, not just the first time. The image of a type or diagram '
     'does not depend on what the functor was applied to before.',
     ['inputs', 'histories'], 'all diagrams, all object and arrow mappings, '
     'all sequences of applications of one functor object',
     'tests apply a few functors to a few diagrams once; caching and '
     'rotations of boxes need every winding number and application history.',
     [G], [('Functor.__call__/ob_with_cache/ar_with_cache', G),
           ('apply_functor of Box, Diagram, Cup, Cap, Swap, Spider, '
            'Daggered, Frame', G)], NB)

prop('G05', 'Normal forms keep the meaning of a diagram',
     'Normalising a diagram (removing snakes and moving boxes) keeps its '
     'domain, its codomain, its boxes and which ports are connected by '
     'wires; it terminates, and normalising again changes nothing. '
     'Interchanging two boxes does the same, or is refused when the boxes '
     'cannot slide past each other; snakes (a cup against a cap on one '
     'wire, with anything beside it) are always straightened.',
     ['inputs', 'programs'], 'all well-typed diagrams of boxes, words, cups, '
     'caps and swaps',
     'tests cover a few known snakes; rewriting must be sound for all '
     'arrangements of boxes, cups and caps.',
     [G], [('Diagram.normal_form/rigid_normal_form/_remove_snake', G),
           ('Diagram.interchange / remove_snakes', G)], NB)

prop('G06', 'Saving grammar entities to JSON and back is the identity',
     'Every type, box, word, cup, cap, swap, spider, daggered box, frame and '
     'diagram that can be written to JSON is read back as an equal entity of '
     'the same kind, in every nesting. Reading does not modify its input.',
     ['inputs'], 'all grammar entities, any nesting of daggers and frames',
     'tests round-trip single examples; combinations of kinds and nesting '
     'are unbounded.',
     [G], [('to_json/from_json of each entity', G)], NB)

prop('T01', 'Tensor diagrams evaluate to the contraction they denote',
     'Evaluating a tensor diagram gives exactly the array obtained by '
     'composing layers as matrices: composition is matrix product, tensor is '
     'Kronecker product, dagger is conjugate transpose, cups, caps, swaps '
     'and spiders are the usual delta tensors for every dimension. The '
     'result does not depend on how the diagram was written (interchange, '
     'permutation, normal form).',
     ['inputs', 'programs'], 'all tensor diagrams, all array entries, all '
     'dimensions',
     'tests evaluate a few diagrams at a few concrete arrays; equality is '
     'required for all entries and dimensions.',
     [T], [('Diagram.eval / to_tn / Box.to_tn', T),
           ('Cup/Cap/Swap/Spider data', T)],
     NB + ' Array entries are symbolic; arithmetic is exact.')

prop('T02', 'Dimensions behave like products of spaces',
     'The dimension of a product is the concatenation of its factors with '
     'trivial factors removed, adjoints only reverse order, products and '
     'equality agree with the list of factors, and diagrams over dimensions '
     'are type checked by those rules.',
     ['inputs'], 'all dimensions',
     'tests use literal dimensions.',
     [T], [('Dim', T)], NB)

prop('Q01', 'Gates are the unitaries they claim to be',
     'Every gate evaluates to its textbook unitary for every phase; its '
     'dagger is its inverse; a controlled gate applies the gate exactly when '
     'the control is set, at the stated distance and side; kets, bras and '
     'their daggers, discards and measurements are the standard maps.',
     ['inputs'], 'all phases, all control distances, all nestings of '
     'controls and daggers, all bitstrings',
     'tests check sample phases; the identities are over all real phases.',
     [Q], [('Rotation/Controlled/Daggered arrays', Q)],
     NB + ' Phases are symbolic: cos and sin are algebraic variables with '
     'cos^2+sin^2=1.')

prop('Q02', 'Evaluating mixed circuits follows the Born rule',
     'Evaluating a circuit with measurements, discards, encodings and '
     'classical wires gives the completely positive map of its layers: '
     'pure circuits give the doubled map when forced to mixed, discarding '
     'everything preserves the total weight, measurement gives the diagonal '
     'of the density matrix.',
     ['inputs', 'programs'], 'all circuits with symbolic parameters',
     'tests evaluate a few circuits numerically.',
     [Q], [('Diagram.to_tn / eval mixed', Q)], NB)

prop('Q03', 'Circuit conversion to the gate-list form keeps the circuit',
     'Turning a circuit into its flat gate list (qubit registers, '
     'measurements, post-selections, scalars) and back denotes the same '
     'linear map, for any placement of kets, bras, swaps, discards and '
     'measurements; gate qubit indices are within the register and '
     'distinct.',
     ['inputs', 'programs'], 'all circuits',
     'tests convert a few circuits; register bookkeeping under interleaved '
     'preparations, post-selections and swaps has unboundedly many cases.',
     [Q], [('to_circuital / readoff_circuital', Q)], NB)

prop('Q04', 'Conversion to and from tket keeps the circuit',
     'Exporting a circuit to tket and importing it back, and the exported '
     'tket circuit itself, denote the same map (up to the recorded '
     'post-selection and scalar), for all supported gates, phases and wire '
     'placements. Unsupported gates are refused.',
     ['inputs', 'programs'], 'all circuits in the supported gate set, all '
     'phases',
     'tests compare a few circuits; gate and index bookkeeping must be right '
     'for all.',
     [TK], [('to_tk/from_tk/Circuit', TK)], NB)

prop('Q05', 'Free symbols, substitution and lambdify agree',
     'The free symbols of a diagram are exactly those occurring in its '
     'boxes; binding values to symbols by lambdification gives the same '
     'circuit as building it with those values; conjugation, dagger, '
     'control and scaling keep symbols and their scale factors consistent.',
     ['inputs', 'histories'], 'all diagrams, all symbol assignments, all '
     'orders of symbols',
     'tests bind a few symbols to a few values.',
     ['lambeq/backend/symbol.py', T, Q],
     [('Symbol', 'lambeq/backend/symbol.py'),
      ('lambdify/free_symbols', Q)], NB)

prop('Q06', 'Conversion to PennyLane keeps the circuit',
     'A circuit converted to PennyLane returns the amplitudes (or '
     'probabilities) of the lambeq circuit, with its post-selections, '
     'discards and scalars, for every supported gate, phase, scaled symbol '
     'and wire placement; open wires come out in order; unsupported gates '
     'and measurements are refused.',
     ['inputs', 'programs'], 'all circuits in the supported gate set, all '
     'phases',
     'tests compare a few circuits at sample phases.',
     ['lambeq/backend/pennylane.py', Q],
     [('to_pennylane/PennyLaneCircuit', 'lambeq/backend/pennylane.py'),
      ('readoff_circuital', Q)],
     NB + ' PennyLane\'s simulator is replaced by the textbook matrices of '
     'the operations it is given.')

prop('A01', 'Circuit ansaetze turn words into well-typed circuits with their '
     'own parameters',
     'A circuit ansatz maps every diagram to a circuit whose wires are the '
     'ones the object map prescribes, commuting with composition, tensor '
     'and adjoints; every box gets exactly the advertised number of '
     'parameters with names derived from the box; different boxes never '
     'share parameters and equal boxes always do, independent of order of '
     'application.',
     ['inputs', 'configurations', 'histories'], 'all diagrams, object maps, '
     'layer counts, single-qubit parameter counts',
     'tests apply ansaetze to fixed sentences and settings.',
     ['lambeq/ansatz/circuit.py', 'lambeq/ansatz/base.py'],
     [('CircuitAnsatz', 'lambeq/ansatz/circuit.py')], NB)

prop('A02', 'Tensor ansaetze produce equivalent well-typed decompositions',
     'A tensor ansatz maps every type to the product of the prescribed '
     'dimensions and every diagram to a tensor diagram of that shape; the '
     'MPS and spider decompositions keep the boundary dimensions, respect '
     'the requested bond dimension and maximum order, and give each piece '
     'its own symbol derived from the box and its shape.',
     ['inputs', 'configurations', 'histories'], 'all diagrams, object maps, '
     'bond dimensions and maximum orders',
     'tests apply ansaetze to fixed sentences and settings.',
     ['lambeq/ansatz/tensor.py'],
     [('TensorAnsatz/MPSAnsatz/SpiderAnsatz', 'lambeq/ansatz/tensor.py')],
     NB)

prop('R01', 'Rewrite rules replace words by equally-typed diagrams',
     'Each sentence rewrite rule fires exactly on the words and types it '
     'documents, and replaces them by a diagram of the same type; all other '
     'boxes, the wiring of the sentence and its outer type are unchanged. '
     'Rewriting is compatible with adjoint and daggered words.',
     ['inputs', 'programs'], 'all diagrams, all words, all types, all rule '
     'subsets',
     'tests rewrite a few sentences.',
     ['lambeq/rewrite/base.py'], [('RewriteRule/Rewriter',
                                   'lambeq/rewrite/base.py')], NB)

prop('R02', 'Diagram rewriters preserve types and wiring',
     'Removing cups, removing swaps and unifying codomains give a '
     'well-typed diagram of the promised type with the same words, in which '
     'the same wires of the words are joined (removing swaps may reorder '
     'and merge words, keeping the joined types), without the removed '
     'elements; diagrams outside the supported form are refused or left '
     'correctly wired rather than silently miswired.',
     ['inputs', 'programs'], 'all pregroup diagrams of words, cups and swaps',
     'tests rewrite a few sentences.',
     ['lambeq/rewrite/base.py'],
     [('RemoveCupsRewriter/RemoveSwapsRewriter/UnifyCodomainRewriter',
       'lambeq/rewrite/base.py')], NB)

prop('C01', 'CCG categories parse, print and map to types consistently',
     'Parsing the printed form of a category gives an equal category; '
     'categories are equal exactly when they are written the same; the '
     'pregroup image of a category has the '
     'result on the side the slash says and adjoint arguments; '
     'ill-formed category strings are refused.',
     ['inputs'], 'all category strings and categories',
     'tests parse a fixed list.',
     ['lambeq/text2diagram/ccg_type.py'],
     [('CCGType', 'lambeq/text2diagram/ccg_type.py')], NB)

prop('C02', 'Every CCG rule yields a diagram from its inputs to its output',
     'Each CCG rule, applied to categories matching its schema, gives a '
     'diagram from the images of the input categories to the image of the '
     'output category, made only of wires; the rule inferred from a premise '
     'and conclusion is one whose schema they match; resolving the missing '
     'categories is consistent with applying the rule.',
     ['inputs'], 'all categories',
     'tests use a few categories per rule.',
     ['lambeq/text2diagram/ccg_rule.py'],
     [('CCGRule', 'lambeq/text2diagram/ccg_rule.py')], NB)

prop('C03', 'CCG derivations become diagrams of the right sentence',
     'A derivation tree converts to a diagram with exactly its words in '
     'order, from nothing to the image of the root category, planar or not; '
     'serialising the tree and reading it back gives an equal tree; removing '
     'unary rules keeps words and root.',
     ['inputs', 'programs'], 'all derivation trees',
     'tests use a few trees.',
     ['lambeq/text2diagram/ccg_tree.py'],
     [('CCGTree', 'lambeq/text2diagram/ccg_tree.py')], NB)

prop('C04', 'The CCG grammar engine combines categories only as CCG allows',
     'Parsing a category string and printing it are inverse; unification '
     'of categories finds a feature assignment exactly when one exists; '
     'each combinatory rule produces the category CCG prescribes and is '
     'not applied where it does not match.',
     ['inputs'], 'all categories with features and dependency slots',
     'tests use a few categories.',
     ['lambeq/bobcat/lexicon.py', 'lambeq/bobcat/rules.py',
      'lambeq/bobcat/grammar.py'],
     [('Category.parse/matches/translate', 'lambeq/bobcat/lexicon.py'),
      ('Rules.combine', 'lambeq/bobcat/rules.py')], NB)

prop('C05', 'The chart parser returns the best valid derivations',
     'Every returned parse covers exactly the input words with the supplied '
     'categories and allowed root categories; results are ordered by score; '
     'pruning keeps the highest-scoring items and only drops those beyond '
     'the configured limits.',
     ['inputs', 'configurations'], 'all sentences, all supertag scores, all '
     'limits',
     'tests parse a few sentences with a fixed model.',
     ['lambeq/bobcat/parser.py'],
     [('ChartParser/Chart/ChartCell', 'lambeq/bobcat/parser.py')],
     NB + ' The neural tagger is replaced by symbolic scores.')

prop('D01', 'Readers turn any token sequence into a well-typed diagram',
     'The linear, spiders, stairs, cups and tree readers convert every '
     'non-empty token sequence to a diagram containing its words once each '
     'in order, with the reader\'s documented composition and a '
     'codomain of the reader\'s sentence type.',
     ['inputs', 'configurations'], 'all token sequences and reader settings',
     'tests read a few sentences.',
     ['lambeq/text2diagram/linear_reader.py',
      'lambeq/text2diagram/spiders_reader.py',
      'lambeq/text2diagram/tree_reader.py'],
     [('LinearReader', 'lambeq/text2diagram/linear_reader.py'),
      ('SpidersReader', 'lambeq/text2diagram/spiders_reader.py'),
      ('TreeReader', 'lambeq/text2diagram/tree_reader.py')], NB)

prop('D02', 'Pregroup diagrams and dependency-like trees convert faithfully',
     'Converting a pregroup tree to a diagram gives a well-typed diagram '
     'with the tree\'s words, whose wires are the tree\'s head-dependent '
     'edges; tree edits (removing nodes, cycles, self cycles) keep all other '
     'nodes and edges.',
     ['inputs', 'programs'], 'all trees',
     'tests convert a few trees.',
     ['lambeq/text2diagram/pregroup_tree.py',
      'lambeq/text2diagram/pregroup_tree_converter.py'],
     [('PregroupTreeNode', 'lambeq/text2diagram/pregroup_tree.py'),
      ('diagram2tree', 'lambeq/text2diagram/pregroup_tree_converter.py')],
     NB)

prop('D03', 'Every entry of a batch or corpus file gets its own derivation',
     'Parsing a batch of sentences, of CCGBank derivations or a section of '
     'a CCGBank corpus gives one result per entry in its place (or under '
     'its identifier): the derivation or diagram that the entry describes, '
     'with its words, categories and nesting. An entry that cannot be '
     'parsed completely raises the parser\'s error, or gives None and '
     'leaves all others alone when exceptions are suppressed.',
     ['inputs', 'configurations'], 'all batches, derivations, settings',
     'tests parse a few well-formed and malformed entries one at a time.',
     ['lambeq/text2diagram/ccgbank_parser.py',
      'lambeq/text2diagram/ccg_parser.py',
      'lambeq/text2diagram/model_based_reader/oncilla_parser.py',
      'lambeq/text2diagram/model_based_reader/base.py'],
     [('CCGBankParser', 'lambeq/text2diagram/ccgbank_parser.py'),
      ('CCGParser.sentences2diagrams', 'lambeq/text2diagram/ccg_parser.py'),
      ('OncillaParser', 'lambeq/text2diagram/model_based_reader/'
       'oncilla_parser.py')],
     NB + ' The neural model is replaced by arbitrary predictions.')

prop('D04', 'Oncilla decodes scores into one head per word and one root',
     'Whatever scores the Oncilla model gives to heads and types, decoding '
     'gives each word of the sentence the best-scored type and a head that '
     'is another word of the sentence or the root mark, and exactly one '
     'word is the root: the best-scored heads if they have one root, else '
     'the word with the best root score is the root and all other words '
     'get their best other heads.',
     ['inputs'], 'all scores, all cuts of words into sub-tokens',
     'the network in the tests gives one set of scores.',
     ['lambeq/oncilla/parser.py',
      'lambeq/text2diagram/pregroup_tree_converter.py'],
     [('BertForSentenceToTree._sentence2pred', 'lambeq/oncilla/parser.py')],
     NB + ' The neural network is replaced by arbitrary scores.')

prop('M01', 'Datasets deliver every example with its own target',
     'Iterating a dataset yields every example exactly once per epoch, '
     'paired with its own target, in batches of the requested size (the last '
     'may be smaller), shuffled or not; mismatched data and targets are '
     'refused.',
     ['inputs', 'schedules'], 'all data sizes, batch sizes and shuffles',
     'tests iterate a few datasets under one seed.',
     ['lambeq/training/dataset.py'],
     [('Dataset', 'lambeq/training/dataset.py')],
     NB + ' The shuffle is an arbitrary permutation chosen by the solver.')

prop('M02', 'The trainer keeps the best model and resumes where it stopped',
     'Training records one loss per epoch and the requested metrics at the '
     'requested intervals, stops early exactly when the criterion has not '
     'improved for the given number of evaluations, and the model kept as '
     'best is the one with the best criterion. Interrupting after any epoch '
     'and resuming from the checkpoint continues the same run.',
     ['inputs', 'histories', 'crash_points'], 'all loss and metric '
     'sequences, intervals, early-stopping settings and interruption points',
     'tests run one short training with one schedule.',
     ['lambeq/training/trainer.py', 'lambeq/training/checkpoint.py'],
     [('Trainer.fit', 'lambeq/training/trainer.py'),
      ('Checkpoint', 'lambeq/training/checkpoint.py')],
     NB + ' Model, losses and metrics are symbolic stubs.')

prop('M03', 'Gradient-free optimisers follow their update rules',
     'One SPSA step moves the parameters along the simultaneous-perturbation '
     'gradient estimate scaled by the current gains, within the bounds, and '
     'advances the gains; Rotosolve sets each parameter to the minimiser of '
     'its sinusoid; Nelder-Mead never loses its best vertex and '
     'follows the standard simplex moves. Saving and restoring the '
     'optimiser state continues the same run.',
     ['inputs', 'histories', 'crash_points'], 'all loss values, parameters, '
     'perturbation signs, bounds and hyperparameters',
     'tests run a few steps with one seed.',
     ['lambeq/training/spsa_optimizer.py',
      'lambeq/training/nelder_mead_optimizer.py',
      'lambeq/training/rotosolve_optimizer.py'],
     [('SPSAOptimizer', 'lambeq/training/spsa_optimizer.py'),
      ('NelderMeadOptimizer', 'lambeq/training/nelder_mead_optimizer.py'),
      ('RotosolveOptimizer', 'lambeq/training/rotosolve_optimizer.py')],
     NB + ' Exact real arithmetic, losses and parameters symbolic.')

prop('M04', 'Losses compute their formulas',
     'Cross-entropy, binary cross-entropy and mean-squared-error losses '
     'compute their standard formulas averaged over the batch for every '
     'prediction and target, stay finite at the ends of the range, and '
     'refuse predictions and targets of different shapes.',
     ['inputs'], 'all predictions and targets, all batch shapes',
     'tests check a few arrays.',
     ['lambeq/training/loss.py'],
     [('LossFunction', 'lambeq/training/loss.py')], NB)

prop('M05', 'Model weights stay attached to their symbols',
     'A model collects exactly the symbols of its diagrams, keeps weight i '
     'with symbol i in evaluation, saving and loading, evaluates a diagram '
     'to the normalised result of substituting its weights, and returns '
     'results in the order the diagrams were given.',
     ['inputs', 'histories', 'crash_points'], 'all diagrams, weights, '
     'symbol orders',
     'tests use a few diagrams.',
     ['lambeq/training/numpy_model.py', 'lambeq/training/quantum_model.py',
      'lambeq/training/model.py'],
     [('NumpyModel', 'lambeq/training/numpy_model.py'),
      ('QuantumModel', 'lambeq/training/quantum_model.py')], NB)

prop('U01', 'Text drawings show the wiring of the diagram',
     'The text rendering of a pregroup diagram contains the words in order '
     'with their types below, and its cup, swap and straight lines connect '
     'exactly the positions the diagram connects.',
     ['inputs', 'programs'], 'all pregroup diagrams and print options',
     'tests compare a few fixed drawings.',
     ['lambeq/backend/drawing/text_printer.py'],
     [('TextDiagramPrinter', 'lambeq/backend/drawing/text_printer.py')], NB)

prop('U02', 'Conversion to DisCoPy and back is the identity',
     'Converting a lambeq diagram to DisCoPy and back gives an equal '
     'diagram, for every supported kind of box, dagger, adjoint and nesting; '
     'unsupported ones are refused.',
     ['inputs', 'programs'], 'all supported diagrams',
     'tests convert a few diagrams.',
     ['lambeq/backend/converters/discopy.py'],
     [('to_discopy/from_discopy', 'lambeq/backend/converters/discopy.py')],
     NB)

prop('U03', 'Discourse circuits keep nouns on their wires and words in order',
     'Turning a sentence\'s dependency-like tree into a discourse circuit '
     'gives a well-typed circuit in which each noun has its own wire, each '
     'verb acts on the wires of its arguments, and every non-noun word occurs '
     'exactly once; expanding frames into sandwiches keeps the outer types.',
     ['inputs', 'programs'], 'all trees and frames',
     'tests convert a few texts.',
     ['lambeq/experimental/discocirc'],
     [('DisCoCircReader', 'lambeq/experimental/discocirc/reader.py')], NB)

prop('U04', 'Frames and their functors nest consistently',
     'Building, daggering, rotating and mapping a frame acts on the frame '
     'and all nested components, keeps the number and order of components, '
     'and gives well-typed results in every nesting.',
     ['inputs', 'programs'], 'all frames up to any nesting',
     'tests use a few frames.',
     [G, 'lambeq/backend/drawing'], [('Frame/DaggeredFrame', G)], NB)

prop('U05', 'Layouts of drawings follow the diagram',
     'The layout computed for drawing a diagram holds every box once, in '
     'order, and its wires connect exactly the ports the diagram connects, '
     'from top to bottom with the right types; wires that are open at the '
     'same time keep their left-to-right order and never coincide, boxes do '
     'not overlap one another and wires do not run through boxes. Scaling '
     'and padding keep all that. The pregroup layout puts the words on one '
     'line in order and cups and swaps below what they join; diagrams that '
     'are not of pregroup form are refused.',
     ['inputs', 'programs'], 'all diagrams, foliated or not; all scales and '
     'paddings', 'tests compare a few drawings with stored ones.',
     ['lambeq/backend/drawing/drawable.py'],
     [('DrawableDiagram.from_diagram / scale_and_pad',
       'lambeq/backend/drawing/drawable.py'),
      ('DrawablePregroup.from_diagram',
       'lambeq/backend/drawing/drawable.py')], NB)

prop('U06', 'The command line applies the given options to every sentence',
     'An option given on the command line goes before one loaded from a '
     'file, and that before its default; storing the options and loading '
     'them again gives the same run. key=value lists are read with their '
     'types and filled up with their documented defaults, malformed ones '
     'refused; contradictory options are refused and all others accepted. '
     'Every sentence that has a parse is rewritten and turned into a '
     'circuit or tensor with the chosen options, in input order, and the '
     'text, pickle and image outputs hold every result once, in order, '
     'under distinct names that sort.',
     ['inputs', 'programs'], 'all combinations of options, all inputs',
     'tests run a dozen combinations.',
     ['lambeq/cli.py'],
     [('main / validate_args / prepare_parser', 'lambeq/cli.py'),
      ('ParserModule / AnsatzModule / DiagramSaveModule', 'lambeq/cli.py')],
     NB)

prop('U07', 'Drawings show every box, wire and label of the layout',
     'Drawing a diagram draws every box exactly once, spanning the columns '
     'of its wires, with its name in it, every wire between the two points '
     'the layout joins, and the type of every wire, under every scale and '
     'padding; controlled gates show a dot on each control wire and the '
     'gate on its target wires and no others, at every distance and '
     'nesting. The TikZ output has a path for each of these between nodes '
     'at the right coordinates, with well-formed options, distinct node '
     'numbers and each style defined once. The sides of an equation do not '
     'overlap.',
     ['inputs', 'programs'], 'all diagrams and circuits, scales, paddings',
     'tests compare a few drawings with stored ones.',
     ['lambeq/backend/drawing'],
     [('draw / draw_pregroup / draw_equation',
       'lambeq/backend/drawing/drawing.py'),
      ('TikzBackend', 'lambeq/backend/drawing/tikz_backend.py')], NB)

na('N01', 'The statistical parsers return a derivation for every sentence',
   'The neural CCG parsers return a valid derivation for every sentence or '
   'report that the sentence cannot be parsed, never a derivation of other '
   'words.',
   ['inputs'], 'all sentences', 'tests mock or download the model.',
   ['lambeq/text2diagram/bobcat_parser.py',
    'lambeq/text2diagram/oncilla_parser.py', 'lambeq/oncilla',
    'lambeq/bobcat/tagger.py'],
   [('BobcatParser', 'lambeq/text2diagram/bobcat_parser.py')],
   'the behaviour depends on the weights of transformer models that cannot '
   'be downloaded here, run in compiled torch kernels that cannot be encoded '
   'symbolically, and are floating-point computations with millions of '
   'parameters; the symbolic parts behind the tagger are decided in C02-C05')
na('N02', 'Rendered pictures show the layout',
   'The picture that matplotlib or TikZ draws shows every box, label and '
   'wire of the layout where the layout puts it.',
   ['inputs'], 'all diagrams', 'tests compare images.',
   ['lambeq/backend/drawing'], [('drawing', 'lambeq/backend/drawing')],
   'the output is produced by compiled rendering libraries; no oracle for '
   'the picture is reachable by the solver; the layout it starts from is '
   'decided in U05 and the text rendering in U01')
na('N03', 'Remote and web services are queried and decoded correctly',
   'Parsers that call remote services and external tools hand over the '
   'tokens unchanged and decode the answer faithfully.',
   ['inputs', 'fault_sequences'], 'all answers of the service',
   'tests need the network.',
   ['lambeq/text2diagram/web_parser.py',
    'lambeq/text2diagram/depccg_parser.py'],
   [('WebParser', 'lambeq/text2diagram/web_parser.py')],
   'the answers come from services and packages that are not reachable or '
   'installed here; what they decode to (trees) is decided in C03')
