"""what each check's verdict rests on (goes into MANIFEST.json)"""
REPLAY = ' Every trace of the enumeration is replayed on the real headers, compiled from /repo with g++ in C++98, 11, 14 and 17 (C++14 and C++17 select the same implementation and share the cases in the quick tier). Trusted: g++, the model in mc/model.py, the observing code in mc/prelude*.hpp. Nothing is said beyond the bounds.'
U = {
 'C01': 'Explores every input history over {a, space, LF, CR} up to the bound from 12 start positions, plus each of the 256 characters as a single step.',
 'C02': 'All 256 character values (and the empty input) against every single-character parser and predicate, and lists/ranges over boundary characters.',
 'C03': 'All argument lists of the sequencing combinators over a small parser alphabet x all short inputs.',
 'C04': 'All ordered lists of alternatives from 7 parsers up to 3, families up to 24, x all short inputs.',
 'C05': 'All combinations of failure depths 0..3 for up to 4 alternatives, a deep failure at each place of up to 20.',
 'C06': 'All left-fold shapes over 13 element and 9 start parsers x all inputs over 3 letters up to length 4 (5), every repetition count up to 48 (64).',
 'C07': 'All right-fold shapes over 13 element and 9 final parsers x all inputs over 3 letters up to length 4 (5), every repetition count up to 48 (64).',
 'C08': 'All strict folds/repetitions over 17 element parsers failing after 0, 1 or 2 characters x all short inputs.',
 'C09': 'All repetition combinators over 13 element parsers x all short inputs, every count of iterate up to 51.',
 'C10': 'All error-shaping wrappers over 14 parsers, nested to depth 2, x all short inputs.',
 'C11': 'The union of the universes of the other properties; the four standards are compared with each other, with no oracle but agreement.',
 'C12': 'Breadth-first exploration of operation sequences on strings against a Python list; all lengths up to the limit; all 256 characters.',
 'C13': 'Every limit 0..2048 x lengths at and around the block boundaries; all 256 characters; over-long literals have to be rejected.',
 'C14': 'All small parsers x inputs: accepted ones give the value, rejected ones a diagnostic of g++ naming line, column and reason.',
 'C15': 'All small parsers x inputs: the program is run, its output and exit status compared with the text computed from the model.',
 'C16': 'All token sequences of the rule notation up to length 4, well-formed ones against the model of the meaning, malformed ones against the model of the notation.',
 'C17': 'All orders of the definitions and all start symbols of a family of grammars with imports and actions x all short inputs.',
 'C18': 'All digit strings up to length 3, boundary values, leading zeros, all 256 characters after and before.',
 'C19': 'All ordered pairs of 66 positions, all six comparisons, and the axioms of a total order on all triples.',
 'C20': 'All messages for all 256 characters and all tuples of boundary integers; nested messages to depth 2.',
 'C21': 'All public headers alone and in all rotations of the header list, both directions; multi-unit programs; pairs in the thorough tier. States are distinct inclusion sequences.',
 'C22': 'Every value of each limit macro in its range x every size up to it.',
 'C23': '21 representations of the same text x parsers x all short inputs.',
 'C24': 'A parser whose instantiation is a compile error placed in every argument of every combinator x all inputs on which the model says that control does not reach it.',
 'C25': 'All combinator shapes to nesting depth 2-3 x all short inputs, contract invariants and model result.',
 'C26': '18 small languages x all texts up to the bound; the model and an independent recursive-descent interpreter have to agree before the library is asked.',
 'C27': 'All (maximum, step) pairs of the enumerated family: the generator is run, and each literal length around each boundary compiled with its output.',
 'C28': 'All combinator shapes, each parser and each result evaluated 0 to 2 times; all groupings of curried arguments; all tags.',
 'C29': 'All documents of the enumerated family x three runs of the generator (again on its own output; to an edited document and back).',
 'C30': 'All assignments of commits to projects, all references, and every git command of a run as the one that fails, is killed, at which the tool is killed, or before which the remote moves.',
}
NOTE = {k: v + REPLAY for k, v in U.items()}
NOTE['C11'] = U['C11'] + ' Trusted: g++ and the observing code. Which of several equally far messages a failed choice reports is not compared (C++98 and C++11 differ there, and the documentation leaves it open).'
NOTE['C21'] = U['C21'] + ' The verdict is the compiler\'s and the linked program\'s; no behavioural model is needed beyond the expected text. Trusted: g++, ld.'
NOTE['C27'] = U['C27'] + ' The generator is Python 2; it is run under Python 3 through mc/py2shim.py, which translates print, tuple parameters, xrange and integer division. Trusted: that translation, g++.'
NOTE['C30'] = U['C30'] + ' The real tool (Python 2, through mc/py2shim.py) runs with the real git on local repositories as an unprivileged process in a scratch directory; faults are injected by a git wrapper. Trusted: git, that translation. Torn writes of the dependency file itself are not modelled.'
NOTE['C29'] = U['C29'] + ' The model builds the document and what has to come of it from the same list of events; headers are read by a small preprocessor. Every document is run through the real generator as an unprivileged process that cannot write outside its scratch directory. Trusted: Python, that model.'
TECH = {
 'C30': 'exhaustive enumeration of dependency files and of all fault points of every run of the real tool, explicit model of the pinned commits',
 'C29': 'exhaustive enumeration of documents and run/edit histories on the real generator, explicit model of the resulting files',
 'C11': 'exhaustive enumeration of parser terms and inputs on the real templates, differential between the language standards',
 'C21': 'exhaustive enumeration of inclusion sequences and link combinations on the real headers',
 'C22': 'exhaustive enumeration of limit values and sizes, explicit-state model, traces replayed on the real templates',
 'C27': 'exhaustive enumeration of generator arguments, generated headers compiled and their literals compared',
}
NOT_APPLICABLE = {}
