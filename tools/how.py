# How each property is decided: (approach, oracle, why it reaches further).
HOW = {
'G01': ('Ty objects with symbolic atom names and winding numbers are built, combined, indexed, sliced, rotated, powered and compared by the real code.', 'the Python list of (name, winding) factors; equality of lists decided by Z3', 'every equality pattern of names and every winding number in range at once'),
'G02': ('A solver-driven generator builds every well-typed diagram within the bounds (`props/util.py`), the combinators are run on it.', 'an independent walk over the layers that recomputes each boundary; algebraic laws as equalities of the results', 'all compositions of all small diagrams, all names, including refusals exactly at a mismatch'),
'G03': ('Permutation lists with symbolic entries, composite types with symbolic factors.', 'a wire tracer that follows each input through the layers', 'invalid permutations and non-adjoint types are in the domain, refusals are decided exactly'),
'G04': ('Functors whose object map is an uninterpreted choice per atom and whose box map gives boxes of symbolic names; applied in every order of a short history.', 'the functor laws, computed from images of the parts', 'cache behaviour after a refusal and between equal and adjoint types is a history property'),
'G05': ('`remove_snakes`, `normal_form`, `foliation`, interchange on every generated diagram.', 'a wiring graph (ports joined through cups, caps and swaps, boxes up to rotation) computed independently before and after; no cup/cap left that could be pulled straight', 'snake removal with obstructing boxes on both sides needs many layers at once'),
'G06': ('Serialise with names symbolic (dictionary form), or characters enumerated by the solver (string form), and read back.', 'equality and hash of the result, type of the result', 'nested frames, daggers and windings combined'),
'T01': ('The real `eval` runs on numpy object arrays of exact polynomials over symbolic entries (`vsym/poly.py`).', 'an independent layer-by-layer contraction (`props/numref.py`); equality of polynomials normalised syntactically, else decided by Z3', 'an identity of polynomials holds for every array, not for sampled numbers'),
'T02': ('Dim built from entries enumerated by the solver.', 'lists of the entries other than 1', 'trivial entries in every place'),
'Q01': ('Gate arrays evaluated by the real code with cos and sin as algebraic variables (c^2+s^2=1).', 'textbook matrices (`props/qref.py`), unitarity and the dagger/rotation/control laws', 'all phases at once'),
'Q02': ('Circuits evaluated as pure maps and as doubled (CQ) maps by the real code over exact polynomials.', 'independent density-matrix semantics of each box; purity of the type; discard/measure laws', 'mixed circuits with symbolic custom entries'),
'Q03': ('`to_circuital` and `readoff_circuital` on every generated circuit; the gate list is re-evaluated.', 'the independent evaluator on the original and on the converted circuit', 'preparations and post-selections in the middle of circuits at every offset, which is where the register bookkeeping happens'),
'Q04': ('`to_tk`, `from_tk` and `get_counts` with real pytket circuits carrying symbolic parameters; measured bits, renaming and post-selections chosen by the solver.', 'an evaluator of the list of tket commands written for this check', 'every assignment of qubits to bits, register layouts and histories of add_bit/rename/post_select'),
'Q05': ('`lambdify`, `subs`, free symbols on diagrams with symbols of solver-chosen equality.', 'evaluation of the original with the value substituted by the harness', 'coincidences between symbols, scales and nesting'),
'Q06': ('`to_pennylane` extraction run on the real code, PennyLane operations taken as gates.', 'the independent evaluator on the extracted gate list, post-selection and scalar', 'open wires and scaled parameters together'),
'A01': ('Each ansatz applied to words and boxes with symbolic phases; larger ones compared gate by gate, and, where the gates differ, by meaning with two phases symbolic.', 'gate lists written from the documentation and papers; symbol naming law; functor law on sentences', 'all layers, widths, ancilla and post-selection variants'),
'A02': ('Tensor, MPS and spider ansaetze on symbolic types; pieces contracted with symbolic entries.', 'piece shapes from the documentation, equality of the contraction of the pieces with the result', 'windings, uneven splits and long boxes'),
'R01': ('Each rule on one box of symbolic type and sentences with every pair of rules.', 'the wiring of the rewritten box (which output goes to which input), written from the documentation of the rule', 'types outside the usual n.r @ s @ n.l'),
'R02': ('Rewriters on every small pregroup diagram.', 'wiring graph before and after', 'open wires, swaps and crossing cups'),
'U01': ('The printed text is parsed back to joins of columns.', 'the wiring of the diagram', 'all widths of words and types, all layouts'),
'U02': ('Real conversion to the installed DisCoPy objects (its string formatting is replaced by a pure-Python equivalent) and back.', 'equality with the original; evaluation of the image for tensors and gates', 'all sequences of daggers and rotations'),
'U03': ('Reader on every tree shape; frames are traced.', 'an independent account of which nouns each word acts on', 'coreference partitions and pruning in every position'),
'U04': ('Frames of symbolic components.', 'structural recursion on the frame', 'nesting'),
'U05': ('The layout of every generated diagram is computed by the real code; scale and padding are symbolic reals.', 'ports joined by the layers of the diagram, followed independently; order and non-overlap of the coordinates', 'columns are shifted to make space while the diagram is scanned, so each box affects all earlier ones'),
'U06': ('Every pair of options is given on the command line, stored in a file, both or neither (symbolic choices over the real argument parser and main()); sizes of the ansatz are symbolic; the modules run on stub parsers whose results may be missing.', 'precedence and defaults written down from the documentation; the library calls made directly on the same sentences', 'the source of each option interacts with those of all others, and wrong precedence still gives plausible output'),
'U07': ('The real drawing functions run on symbolic choices of diagrams and circuits; their drawing calls are recorded under symbolic real scale and padding, and the printed TikZ code is parsed back.', 'the layout (decided by U05) and the definition of controlled gates', 'controlled gates at every distance and nesting, scaled equations, options that interact'),
'C01': ('Parser run on strings of symbolic characters (`vsym/strs.py`).', 'a recursive-descent grammar of the notation', 'every string over the alphabet, so both acceptance and refusal'),
'C02': ('Rules on most general categories.', 'the schema of each rule (textbook) unified by the harness', 'all categories at once since atoms are symbolic'),
'C03': ('`CCGTree.to_diagram` and planar form on every derivation.', 'compositional wiring semantics of the rules (words\' wires joined by unification of the categories)', 'each pair of rules above one another with retyping'),
'C04': ('Bobcat categories and rules with symbolic features and atoms.', 'unification of features written independently', 'feature variables and every history'),
'C05': ('Chart, cells, beam and tagger outputs with symbolic scores.', 'enumeration of all derivations by the harness with max over the scores', 'ties, infinities and the beam boundary for every real score'),
'D01': ('Readers on symbolic tokens.', 'the composition each reader documents', 'every token count and combining box'),
'D02': ('Pregroup trees to diagrams and back, cycle removal.', 'wiring given by the edges of the tree', 'non-projective trees, several wires per edge, parents lists'),
'D03': ('CCGBank reader and batch parsing on derivation texts with symbolic words, node flags and corruptions; Oncilla with arbitrary predicted parents.', 'the derivation the text was written from; which entries are sound', 'several failures in one batch, text left over after a tree, escaped brackets'),
'D04': ('The Oncilla decoder on symbolic scores of every token and head.', 'best admissible head per word; best root if there is not exactly one', 'scores of special tokens and later sub-tokens, several or no predicted roots'),
'M01': ('Dataset with symbolic targets and a shuffle that the solver chooses.', 'multiset of examples per epoch and chunk sizes', 'every permutation'),
'M02': ('The real Trainer.fit with stub model, symbolic losses and metrics; interruption after every epoch and resumption from the real checkpoint file.', 'reference history computed from the documentation; equality of the resumed and uninterrupted run', 'every order relation of the losses'),
'M03': ('One to three optimiser steps over exact reals.', 'published update formulas', 'all losses, gains and perturbations'),
'M04': ('Losses over exact reals, log uninterpreted.', 'textbook formulas and bounds', 'all probabilities'),
'M05': ('Models run with symbolic weights.', 'evaluation of the circuit with the weights put in place by the harness', 'every order and coincidence of symbols'),
}
