import json
J="awkward0/array/jagged.py"; B="awkward0/array/base.py"; M="awkward0/array/masked.py"; I="awkward0/array/indexed.py"
U="awkward0/array/union.py"; K="awkward0/array/chunked.py"; T="awkward0/array/table.py"; O="awkward0/array/objects.py"; V="awkward0/array/virtual.py"; P="awkward0/persist.py"; G="awkward0/generate.py"
props=[]
def p(id,title,statement,over,text,why,files,state,mech,observe=None):
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
LAYST=[("starts/stops/content","half-open ranges of content, one per list; any order, gaps and overlaps allowed; stops may be longer than starts",J+":JaggedArray"),
       ("offsets/counts/parents","derived, lazily cached alternative encodings of the same structure",J+":JaggedArray.offsets,counts,parents")]
p("C01","Jagged layout encodings are interconvertible without loss",
 "counts, offsets, parents, uniques, starts/stops and localindex are encodings of the same list structure: building a JaggedArray from any one of them and reading any other back yields the value the lists themselves define (offsets[0]=0 and offsets[i+1]=offsets[i]+counts[i]; parents[k]=i exactly when content position k lies in list i, -1 when in none; localindex[i]=0..counts[i]-1). This holds for every number of lists, every mix of empty and non-empty lists, and content that the lists do not fully cover.",
 ["inputs"],"all counts/offsets/parents/uniques/starts-stops/localindex arrays of any length that describe a list structure",
 "tests use a handful of literal arrays of length <= 10; the relation is between index arithmetic functions over unbounded arrays",
 [J],LAYST,[("counts2offsets/offsets2parents/startsstops2parents/parents2startsstops/uniques2offsetsparents",J),("fromcounts/fromoffsets/fromparents/fromuniques/fromlocalindex/fromfolding",J),("offsets/counts/parents/localindex properties and setters",J)],["JaggedArray.from*","JaggedArray.offsets/counts/parents/index"])
p("C02","Indexing a JaggedArray's outer dimension is list indexing",
 "For every valid JaggedArray (lists contiguous, overlapping, out of order, with gaps or with surplus stops), indexing with an integer, slice, boolean mask, integer array, or field name returns exactly the lists that indexing the equivalent Python list of lists would, in that order, and an out-of-range integer raises IndexError. Iteration and len agree with it.",
 ["inputs"],"all jagged layouts x all outer selectors",
 "tests index a few small literal arrays; selectors times layouts is unbounded",
 [J],LAYST,[("__getitem__ (head on starts/stops)",J),("__iter__/__len__",J)],["array[where]","iter(array)"])
p("C03","Indexing inside the lists is per-list Python indexing",
 "array[:, k] returns element k of every list (negative k counts from each list's own end) and raises IndexError if any list is too short; array[:, a:b:c] returns list[a:b:c] for every list, for every start, stop and non-zero step of either sign, including missing ones; integer-array and mask selectors in the second dimension select per list in the same sense.",
 ["inputs"],"all jagged layouts x all integers, slices (all start/stop/step sign combinations) and per-list selectors",
 "tests cover a few slices on one or two literals; correctness depends on clipping against every list's own length",
 [J],LAYST,[("__getitem__ (tail loop: integer, slice, array branches)",J)],["array[:, where]"])
p("C04","Jagged masks and jagged integer indexes select per list",
 "Indexing a JaggedArray by a jagged boolean array keeps, list by list and in order, exactly the elements whose mask is true; by a jagged integer array it gathers, list by list, the elements at those positions, negative ones counting from the end of that list; anything out of range or of a different structure raises. The result does not depend on how either operand is laid out in memory.",
 ["inputs"],"all pairs (jagged array, jagged mask or index) with matching outer structure, every layout of both",
 "tests use compact operands of a few lists; the code realigns the two layouts by index arithmetic whose cases tests do not enumerate",
 [J],LAYST,[("__getitem__ (JaggedArray head)",J),("_tojagged",J),("__setitem__ (JaggedArray where)",J)],["array[jagged]"])
p("C05","Flatten, compact and relayout preserve the list contents",
 "flatten() is the concatenation of the lists in order, compact() and conversion to other starts/stops yield an array with equal lists (and gap-free in-order storage for compact), flatten(axis=1) concatenates one level deeper, regular() returns the same values as a rectangular array exactly when all lists have equal length, and tojagged(x), for lists that share no content positions, repeats x[i] once per element of list i. None of these depends on the layout of the input.",
 ["inputs"],"all valid jagged layouts of any length",
 "tests hold a few literals; layout independence quantifies over all starts/stops permutations, gaps and overlaps",
 [J,B],LAYST,[("flatten/compact/_tojagged/tojagged/regular/iscompact/_canuseoffset",J)],["flatten","compact","regular","tojagged"])
p("C06","Ufuncs and operators on jagged arrays act element by element",
 "Applying a NumPy ufunc or operator to JaggedArrays of equal counts, or to a JaggedArray and a flat array or scalar, gives a JaggedArray with the same counts whose element [i][k] is the ufunc of the operands' [i][k] (a flat operand supplying its element i to the whole list i, a scalar itself). Operands may have different memory layouts; operands with different counts are rejected.",
 ["inputs"],"all operand tuples of jagged, flat and scalar operands, all layouts, all ufuncs",
 "tests check a few literals with one or two layouts; alignment of differing layouts is universally quantified",
 [J],LAYST,[("__array_ufunc__",J),("_tojagged/tojagged",J)],["numpy ufuncs","arithmetic operators"])
p("C07","Jagged reducers fold each list, identity for empty lists",
 "sum, prod, min, max, any, all, count and count_nonzero (and reduce with any ufunc) return one value per list equal to the ufunc folded over exactly that list's elements (NaN ignored), and the identity (type's extreme for min/max) for an empty list wherever it occurs; nested jagged arrays reduce at the innermost level; mean, var, std and moment follow from them.",
 ["inputs"],"all jagged layouts incl. leading, trailing and consecutive empty lists; all reducers",
 "ufunc.reduceat has special behaviour for empty and trailing segments that depends on the position of empties; tests sample few positions",
 [J,B],LAYST,[("_reduce (reduceat on nonterminal offsets, identity fill)",J),("any/all/count/sum/.../moment/mean/var/std",B)],["array.sum() etc."])
p("C08","argmin, argmax and argsort pick positions inside each list",
 "argmin/argmax return, per list, an empty list for an empty list and otherwise the single smallest local position holding the list's minimum/maximum; argsort returns per list a permutation of its local positions that sorts it (descending by default), so that indexing the array by the result yields the extremum, respectively the sorted list.",
 ["inputs"],"all jagged layouts and element values, including ties",
 "tests use a few literals without ties or unusual layouts",
 [J],LAYST,[("argmin/argmax/_argminmax/argsort/_argsort",J)],["argmin","argmax","argsort"])
p("C09","Combinatorics enumerate exactly the intended tuples per list",
 "pairs, distincts, cross and choose(n), and their arg- and nested variants, produce for every list exactly the tuples a Python double loop (combinations with replacement, combinations, product, n-combinations) over that list produces, each once, in the documented order; the arg- variants give local indices that select the same tuples.",
 ["inputs"],"all jagged layouts, all list lengths (within exact float64 square root for the closed forms)",
 "closed-form index arithmetic (quadratic roots, integer division) must be right for every list length, tests try lengths up to about 4",
 [J],LAYST,[("_argpairs/_argdistincts/_argcross/_argchoose",J),("pairs/distincts/cross/choose and arg*, nested",J)],["pairs","distincts","cross","choose"])
p("C10","Concatenate, zip and pad keep every element in its place",
 "concatenate(axis=0) yields the lists of the inputs one after another; concatenate(axis=1) yields, per list, the inputs' lists joined in order; zip yields per element the record of the inputs' elements at that place; pad(n) makes every list at least (clip: exactly) n long, keeping the original elements first and filling only with missing values.",
 ["inputs"],"all tuples of jagged arrays with any layouts; all pad lengths",
 "tests concatenate or pad a few compact literals",
 [J,B],LAYST,[("_concatenate_axis0/_concatenate_axis1/zip/pad",J),("concatenate, _util_pad, _util_concatenate",B)],["concatenate","zip","pad"])
MST=[("mask/index + maskedwhen","which entries are missing; bool, packed bits (either bit order), or index sentinel",M)]
p("C11","All masked-array encodings mean the same list with holes",
 "A MaskedArray, BitMaskedArray (either bit order) and IndexedMaskedArray built from the same values and the same missing positions, with either maskedwhen convention, are the same list with None in it: element access, slices, masks, integer-array selection, boolmask, tolist, count and conversion between the encodings all agree with that list, for every length including those not divisible by 8.",
 ["inputs"],"all masks, lengths, maskedwhen values, bit orders, and selectors",
 "tests use one or two literals per class; bit packing is only exercised for few lengths",
 [M],MST,[("MaskedArray/BitMaskedArray/IndexedMaskedArray __getitem__, boolmask, isunmasked, _maskat, _maskwhere, bool2bit, bit2bool, fromcontent",M)],["masked[where]","boolmask","tolist"])
p("C12","Missing values propagate through operations and never leak data",
 "Elementwise operations on masked arrays are missing exactly where some operand is missing and otherwise equal the operation on the values; reductions and fillna use only unmasked values (fillna(x) replaces exactly the missing ones, NaN counting as missing there); flattening, jagged reduction and slicing of arrays with masked content ignore or keep the holes, and the hidden value behind a masked entry never influences any result.",
 ["inputs"],"all masks, hidden values and operand combinations",
 "tests compare few literals; independence of the hidden values is a hyperproperty",
 [M,J,B],MST,[("__array_ufunc__/_reduce/_prepare/fillna/flatten/argmin/argmax",M),("_reduce with masked content",J)],["ufuncs","reducers","fillna"])
p("C13","IndexedArray and SparseArray are gather views",
 "IndexedArray(index, content) is the list [content[j] for j in index]; indexing, masking, slicing, flattening, ufuncs and reductions on it equal those on that list, and invert(permutation) is its inverse; SparseArray(length, index, content, default) is the dense list with default wherever no index entry exists, for every selector and for negative and out-of-range positions.",
 ["inputs"],"all index arrays and selectors",
 "tests use a few literals; sparse lookup depends on searchsorted boundary cases",
 [I],[("index","positions in content (IndexedArray) or sorted dense positions (SparseArray)",I)],[("IndexedArray.__getitem__/invert",I),("SparseArray.__getitem__/dense/inverse index",I)],["indexed[where]","sparse[where]"])
p("C14","UnionArray picks each element from its tagged content",
 "A UnionArray's element i is contents[tags[i]][index[i]]; integer, slice, mask and integer-array selection, iteration, tolist and elementwise operations with scalars, flat arrays or other unions agree with that list, whatever the order in which tags interleave; fromtags builds the union whose element i is the next unused element of contents[tags[i]].",
 ["inputs"],"all tags/index arrays, any number and type of contents, all selectors",
 "tests use two literals; the recombination of per-tag results is index arithmetic over arbitrary interleavings",
 [U],[("tags/index/contents","dense-union encoding",U)],[("fromtags/__getitem__/__array_ufunc__/_hasjagged/simplify",U)],["union[where]","ufuncs"])
p("C15","Chunk boundaries are invisible",
 "A ChunkedArray behaves as the concatenation of its chunks: length, integer (positive and negative), slice, mask and integer-array indexing, global/local index conversion, iteration, ufuncs with flat, scalar or equally chunked operands (a differently chunked operand is either handled correctly or refused with ValueError) and flattening all equal those on the concatenated list, for every placement of chunk boundaries including empty chunks; an AppendableArray after any sequence of append/extend calls is the list of what was appended.",
 ["inputs","histories"],"all chunkings, all selectors, all append/extend sequences",
 "tests fix one chunking; boundary positions and append histories are unbounded",
 [K],[("chunks/chunksizes/offsets","known chunk sizes, lazily discovered",K)],[("global2chunkid/global2local/local2global/__getitem__/__array_ufunc__/_mergeable",K),("AppendableArray.append/extend",K)],["chunked[where]","append/extend"])
p("C16","Table views compose like slicing a list of rows",
 "Any chain of row selections (slices with any step, masks, integer arrays, integers) and column selections applied to a Table yields exactly the rows and columns the same chain applied to the list of rows yields; columns stay aligned with each other; columns longer than the table contribute only their first len(table) values to its rows and views; setting a column on a view-free table makes it readable back and ufuncs act column by column.",
 ["inputs","histories"],"all tables and all chains of selections",
 "tests chain at most two literal slices; composition of (start, step, length) views is universally quantified arithmetic",
 [T],[("_view","None, (start, step, length) or index array; lazily applied to all columns",T)],[("_newslice/_index/_length/__getitem__/Row",T)],["table[where]","table[column]"])
p("C17","ObjectArray and StringArray present their content elementwise",
 "ObjectArray(content, f) is the list [f(x) for x in content] under every selector, generating objects only from the selected content; StringArray is the list of decoded strings: fromstr/fromiter/fromnumpy round-trip any strings including empty and non-ASCII ones, selections and equality comparisons agree with the Python list of strings.",
 ["inputs"],"all contents, generators, strings, encodings and selectors",
 "tests use a few ASCII literals",
 [O],[("_generator/_content","element factory and its arguments",O)],[("ObjectArray.__getitem__/__iter__",O),("StringArray.fromstr/fromnumpy/fromiter/__getitem__/__array_ufunc__",O)],["objects[where]","strings[where]"])
p("C18","VirtualArray is indistinguishable from what it generates",
 "A VirtualArray behaves as the array its generator returns under every read operation, whatever the state of the cache (absent, kept, or evicting at any moment); the generator is called at most once while a cached or held value persists and again after eviction; columns set or deleted on it stay set or deleted after the value is evicted and regenerated.",
 ["inputs","histories"],"all generators, cache behaviours (including eviction between any two calls), and sequences of reads, column sets and deletes",
 "histories of eviction, set and delete are unbounded; tests try a few",
 [V],[("_array/_cache/_setitem/_delitem","held value, optional external cache and recorded edits to replay",V)],[("materialize/array/ismaterialized/__setitem__/__delitem__/__getitem__",V)],["virtual.array","virtual[where]"])
p("C19","Serialization round-trips every array",
 "Serializing an array (to a dict, file, pickle or HDF5-style storage) and reading it back, eagerly or lazily and with or without compression, gives an array with the same elements, whatever the memory layout (views, gaps, non-contiguous or strided buffers); several arrays stored in the same container under different, non-overlapping names never disturb each other.",
 ["inputs","configurations"],"all arrays of all classes and layouts, all name combinations and storage options",
 "tests round-trip one literal per class",
 [P,J,M,I,U,K,T,O,V],[("schema","JSON-like tree of calls and references",P)],[("serialize/deserialize",P),("__awkward_serialize__ of each class","awkward0/array/*.py")],["persist.serialize/deserialize","save/load","pickle"])
p("C20","Deserialization runs only whitelisted callables",
 "Loading serialized data calls nothing but functions and classes whose dotted path starts with an entry of the given whitelist, component by component with wildcards (by default awkward arrays, NumPy constructors and the decompressors they need), and reading any schema that names anything else raises an error before that thing is imported or called.",
 ["inputs"],"all schemas (including adversarial ones) and whitelists",
 "an adversarial schema can be anything; tests contain no hostile schema",
 [P],[("whitelist","list of dotted-path patterns",P)],[("spec2function/deserialize",P)],["persist.deserialize"])
p("C21","fromiter and tolist are inverse",
 "For every finite nested Python structure of numbers, booleans, strings, None, lists, dicts and tuples, fromiter builds an array whose tolist() equals it (with numbers promoted within one column, tuples returned as lists and empty dicts as None), whatever the order in which types, missing values or fields first appear.",
 ["inputs"],"all nested Python data, all first-appearance orders of types",
 "state machine of type promotions over arbitrary sequences; tests sample a few",
 [G],[("fillable chain","Unknown/Bool/Number/String/List/Table/Masked/Union fillables that evolve",G)],[("Fillable.append and finalize",G),("fromiter/fromiterchunks",G)],["fromiter","tolist"])
p("C22","Arrow conversion preserves elements",
 "Converting an awkward array to an Arrow array and back, or reading any Arrow array of supported type, yields the same nested list of values and nulls.",
 ["inputs"],"all convertible arrays, null placements and chunkings",
 "tests cover single literals and do not pass with the installed pyarrow",
 ["awkward0/arrow.py"],[],[("toarrow/fromarrow","awkward0/arrow.py")],["toarrow","fromarrow"])
p("C23","An array's type describes its data and ignores its layout",
 "array.type, dtype and shape depend only on the elements and not on how they are stored: relayout, compaction, chunking, indexing through views or virtualization leave the item type equal; type equality and hashing are consistent, and a type's claim about each level (list, record fields, optional, union possibilities) is true of every element.",
 ["inputs"],"all arrays and all pairs of types, including recursive ones",
 "equality of recursive types and layout independence quantify over all structures",
 ["awkward0/type.py",B,J],[],[("ArrayType/TableType/UnionType/OptionType equality","awkward0/type.py"),("_gettype of each class","awkward0/array/*.py")],["array.type"])
p("C24","Reading operations never modify their operands",
 "Indexing, ufuncs, reducers, flatten, compact, pad, concatenate, combinatorics and every other non-assignment operation leave the contents of every array and index passed to them unchanged (values of all buffers, shapes and element views), so repeating an operation gives the same result.",
 ["inputs","histories"],"all arrays, indexes and read operations",
 "tests rarely look at the operands afterwards; aliasing between operands and results is universally quantified",
 [J,M,I,U,K,T],[("shared buffers","results may alias operands' buffers",J)],[("copy-on-write of index arrays in __getitem__","awkward0/array/*.py")],["all read operations"])
p("C25","Malformed layouts are rejected, never read out of bounds",
 "An array whose structure arrays are inconsistent (negative or non-integer starts, stops, index or tags; stops before starts; positions at or beyond the content; parts too short; wrong dimensionality) raises a clear error on construction or on first use and never returns data from outside its content; every consistent layout is accepted.",
 ["inputs"],"all structure arrays, consistent or not",
 "the boundary between valid and invalid is a universally quantified predicate; tests try a handful of invalid literals",
 [J,M,I,U,K,T],[("_isvalid","cached result of whole-array validity check, reset by setters",J)],[("_valid/_validstartsstops and property setters","awkward0/array/*.py")],["constructors","valid()","first use"])
with open("/verif/properties.jsonl","w") as f:
    for x in props: f.write(json.dumps(x)+"\n")
print(len(props))
