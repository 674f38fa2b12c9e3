J="awkward0/array/jagged.py"
PLANTS=[
dict(id="C01-stale-parents", property="C01", edits=[(J,"        self._counts = value\n        self._parents = None\n        self._isvalid = False","        self._counts = value\n        self._isvalid = False")],
 demo='''
a = awkward0.JaggedArray.fromcounts([2, 0, 3], numpy.arange(5))
a.parents
a.counts = [1, 2, 2]
ok = a.parents.tolist() == [0, 1, 1, 2, 2]
print(a.parents.tolist())
sys.exit(0 if ok else 1)
''', needs="parents read before counts is assigned, then read again", breaks="the parents encoding describes the old structure after counts is assigned"),
dict(id="C01-parents-length", property="C01", edits=[(J,"out = cls.numpy.full(stops.max(), -1, dtype=dtype)","out = cls.numpy.full(stops[counts_last], -1, dtype=dtype)"),(J,"        dtype = cls.JaggedArray.fget(None).INDEXTYPE\n        out = cls","        dtype = cls.JaggedArray.fget(None).INDEXTYPE\n        counts_last = starts.argmax()\n        out = cls")],
 demo='''
a = awkward0.JaggedArray([0, 4, 4], [4, 7, 4], numpy.arange(10))
try:
    got = a.parents.tolist()
except Exception as err:
    got = repr(err)
print(got)
b = awkward0.JaggedArray([4, 4, 0], [4, 7, 4], numpy.arange(10))
try:
    got2 = b.parents.tolist()
except Exception as err:
    got2 = repr(err)
print(got2)
sys.exit(0 if got == [0, 0, 0, 0, 1, 1, 1] and got2 == [2, 2, 2, 2, 1, 1, 1] else 1)
''', needs="non-contiguous layout in which an empty list ties for the greatest start", breaks="parents is too short and the last list's elements are lost or an exception is raised"),
dict(id="C02-surplus-stops", property="C02", edits=[(J,"            return self._stops[:len(self._starts)]","            return self._stops[len(self._stops) - len(self._starts):]")],
 demo='''
a = awkward0.JaggedArray([0, 2, 2], [2, 2, 4, 6, 6], numpy.arange(6))
print(a[::-1].tolist())
sys.exit(0 if a[::-1].tolist() == [[2, 3], [], [0, 1]] and a[0].tolist() == [0, 1] else 1)
''', needs="an array with more stops than starts", breaks="lists end at another list's stop"),

dict(id="C03-backstop", property="C03", edits=[(J,"stops = self.numpy.maximum(-1, self.numpy.minimum(counts - 1, counts + head.stop))","stops = self.numpy.maximum(0, self.numpy.minimum(counts - 1, counts + head.stop))")],
 demo="""
a = awkward0.JaggedArray.fromiter([[0, 1, 2, 3, 4], [5, 6], [9]])
got = a[:, ::-1].tolist(), a[:, :-4:-1].tolist()
print(got)
sys.exit(0 if got == ([x[::-1] for x in a.tolist()], [x[:-4:-1] for x in a.tolist()]) else 1)
""", needs="a negative step with a negative stop that reaches before the beginning of some list", breaks="array[:, :-k:-1] loses element 0 of lists shorter than k"),
dict(id="C03-columns-negative", property="C03", edits=[(J,"if (index < 0).any() or (index.reshape(numrows, len(head)) >= node.counts.reshape(-1, 1)).any():","if (index.reshape(numrows, len(head)) >= node.counts.reshape(-1, 1)).any():")],
 demo="""
a = awkward0.JaggedArray.fromiter([[0, 1, 2], [3], [4, 5]])
try:
    print(a[:, [-2]].tolist())
    sys.exit(1)
except IndexError:
    sys.exit(0)
""", needs="a list of columns with a negative one reaching before the start of a list other than the first", breaks="an element of the preceding list is returned instead of IndexError"),
dict(id="C04-negative", property="C04", edits=[(J,"                if not self.numpy.bitwise_and(0 <= indexes, indexes < counts).all():\n                    raise IndexError(\"jagged array used as index contains out-of-bounds values\")\n\n                indexes += head","                if not (indexes < counts).all():\n                    raise IndexError(\"jagged array used as index contains out-of-bounds values\")\n\n                indexes += head")],
 demo="""
a = awkward0.JaggedArray.fromiter([[0, 1, 2], [3], [4, 5]])
i = awkward0.JaggedArray.fromiter([[0], [-2], [1]])
try:
    print(a[i].tolist())
    sys.exit(1)
except IndexError:
    sys.exit(0)
""", needs="a jagged index that is negative beyond the length of its list", breaks="an element of a neighbouring list is returned instead of IndexError"),
dict(id="C04-mask-gap", property="C04", edits=[(J,"                headcontent_indices_to_ignore[len(head.parents):] = True\n","")],
 demo="""
a = awkward0.JaggedArray([0, 2], [2, 3], numpy.arange(8))
m = awkward0.JaggedArray([0, 2], [2, 3], numpy.array([True, False, True, True, True, True, True, True]))
got = a[m].tolist()
print(got)
a2 = awkward0.JaggedArray([1, 3], [3, 4], numpy.arange(8))
m2 = awkward0.JaggedArray([1, 3], [3, 4], numpy.array([True, True, False, True, True, True, False, True]))
got2 = a2[m2].tolist()
print(got2, a2[m2].content.tolist())
sys.exit(0 if got == [[0], [2]] and got2 == [[1], [3]] and a2[m2].content.tolist() == [1, 3] and a[m].flatten().tolist() == [0, 2] else 1)
""", needs="mask content longer than its last list", breaks="masked content"),
dict(id="C05-flatten-first", property="C05", edits=[(J,"                return self._content[self._starts[0]:self.stops[-1]]\n            else:\n                offsets","                return self._content[self._starts.min():self.stops[-1]] if len(self._content) == 0 else self._content[:self.stops[-1]]\n            else:\n                offsets")],
 demo="""
a = awkward0.JaggedArray.fromoffsets([2, 3, 5], numpy.arange(6))
print(a.flatten().tolist())
sys.exit(0 if a.flatten().tolist() == [2, 3, 4] else 1)
""", needs="contiguous lists that do not start at position 0", breaks="flatten returns elements that are in no list"),
dict(id="C05-keep-content", property="C05", edits=[(J,"if not self.numpy.array_equal(stops - starts, self.counts):","if (stops - starts).sum() != self.counts.sum():")],
 demo="""
a = awkward0.JaggedArray.fromiter([[0, 1, 2], [3], [4, 5]])
b = awkward0.JaggedArray.fromiter([[0, 1], [2, 3], [4, 5]])
try:
    print((a + b).tolist())
    sys.exit(1)
except ValueError:
    sys.exit(0)
""", needs="two arrays with the same total number of elements but different counts", breaks="arrays of different list lengths are aligned instead of refused"),
]
