CLAIMED = {
 "C01": ("proof", "encodings' converters and constructors under contract; parents2startsstops and uniques2offsetsparents bounded only"),
 "C02": ("proof", "outer selection by integer, slice, mask, integer array and field proved for flat content; deeper content and chained selections also bounded"),
 "C03": ("proof", "array[:, k], array[:, a:b:c] for steps of -2, -1, 1, 2 and open/negative bounds, per-list selectors proved; other steps and deeper nesting bounded only"),
 "C04": ("proof", "selection by jagged integers proved for every combination of layouts (the slower combinations in the thorough tier); jagged masks and assignment bounded only"),
 "C05": ("proof", "flatten, compact, relayout onto other starts/stops and broadcast of a flat array proved; flatten(axis=1), regular and nested content bounded only"),
 "C11": ("proof", "MaskedArray and IndexedMaskedArray: every selector, boolmask, ismasked, indexed(), fromcontent proved for flat content; BitMaskedArray, count and tolist bounded only"),
 "C13": ("proof", "IndexedArray: every selector, invert, ufuncs, concatenate; SparseArray: every selector, boolmask, dense, ufunc, proved for flat content; deeper content, flatten and reductions bounded"),
 "C14": ("proof", "every selector over two (integer and positions: three) flat contents, fromtags for up to three contents, ufuncs with scalar and flat operands, issequential, boolmask proved; more contents, structured contents and two unions in one ufunc bounded only"),
 "C16": ("proof", "a table of two columns in any state (no view, start/step/length view, positions): every selector preserves the representation invariant and gives the right rows, so every chain does; columns, ufuncs, column setting proved; other column types bounded"),
 "C06": ("proof", "unary, scalar, flat and jagged-with-jagged operands in every combination of layouts proved (slower combinations in the thorough tier); records, objects, nested and regular operands bounded only"),
 "C17": ("proof", "ObjectArray over flat content: every selector, iteration, ufuncs, copy, concatenate; StringArray: every selector proved; encoders (CPython codecs) and comparisons bounded only"),
 "C10": ("proof", "concatenate(axis=0) of jagged, table, masked, indexed and object arrays, pad (any length; clip for lengths 0 to 3) and zip of two jagged columns proved for every combination of layouts; concatenate(axis=1), zip with flat operands, other clip lengths and nested content bounded only"),
 "C12": ("proof", "elementwise operations over every pair of encodings, the values a reduction uses (_prepare), fillna and concatenation proved for flat content; flattening and jagged reduction of masked content, and BitMaskedArray, bounded only"),
 "C25": ("proof", "JaggedArray, IndexedArray, SparseArray, MaskedArray, IndexedMaskedArray, UnionArray: construction or first use raises ValueError exactly when the one-dimensional structure is inconsistent, also after a part was replaced; dtypes, dimensionality and the other classes bounded only"),
 "C24": ("proof", "frame obligations of every contract of the other properties (input buffers and structural attributes keep their values on every path); operations without a contract bounded only"),
 "C18": ("proof", "state machine of cache, held array and edits under a cache that may evict at any access: reads, copies, selections, ufuncs, column edits proved; the remaining delegations bounded"),
}
NA = {"C07": "the reducers fold with ufunc.reduceat and per-dtype identities: no contract for that fold was built, so the property is only exercised by bounded run-time contracts (bounded/c07.py), which are not a proof",
 "C08": "argsort is a while loop whose number of rounds depends on the data (the verifier unrolls Python loops and takes no invariant), argmin and argmax rest on selection by jagged masks and on reduceat, for which no contract was built; bounded run-time contracts only (bounded/c08.py)",
 "C09": "tuple positions are computed by inverting triangular numbers in floating point; elements are exact reals in the verifier, so the rounding argument cannot be expressed",
 "C15": "contracts over chunk-boundary arithmetic (searchsorted over symbolic chunk sizes, ranks of masks per chunk) were drafted and not discharged; bounded run-time contracts only (bounded/c15.py)",
 "C19": "serialization walks recursive Python structures (JSON schema, reference tables) and zlib/pickle bytes; the verifier has arrays and integers, no inductive datatypes",
 "C20": "the whitelist is decided by strings, fnmatch and importlib; the verifier has no string theory",
 "C21": "fromiter is a recursive builder over arbitrary nested Python values, dispatching on their types; no inductive datatypes in the verifier",
 "C23": "types are recursive trees compared up to cycles through identity maps; no inductive datatypes in the verifier",
 "C22": "awkward0/arrow.py is written against an older pyarrow API than the one installed (14 of its baseline tests fail; struct and union conversion call methods that no longer exist), and every obligation of the property would rest on assumed contracts of Arrow's C++ buffers and types, which no contract on /repo's code can discharge"}
