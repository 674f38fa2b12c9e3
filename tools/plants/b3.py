A="awkward0/array/"
J=A+"jagged.py"; M=A+"masked.py"; X=A+"indexed.py"; U=A+"union.py"; T=A+"table.py"; V=A+"virtual.py"; O=A+"objects.py"
PLANTS=[
dict(id="C12-fillna-maskedwhen", property="C12", edits=[(M,"            out = self.numpy.array(out)\n        out[self.boolmask(maskedwhen=True)] = value\n        return out","            out = self.numpy.array(out)\n        out[self.boolmask()] = value\n        return out")],
 demo="""
a = awkward0.MaskedArray([True, False, True, True], [1.1, 2.2, 3.3, 4.4], maskedwhen=False)
b = awkward0.MaskedArray([True, False, False], [1.1, 2.2, 3.3])
print(a.fillna(9.9).tolist(), b.fillna(9.9).tolist())
sys.exit(0 if a.fillna(9.9).tolist() == [1.1, 9.9, 3.3, 4.4] and b.fillna(9.9).tolist() == [9.9, 2.2, 3.3] else 1)
""", needs="a MaskedArray whose mask marks the present values (maskedwhen=False)", breaks="fillna replaces the present values and leaves the data hidden behind the missing ones"),
dict(id="C24-prepare-in-place", property="C24", edits=[(M,"        if content is self._content or not content.flags.owndata:\n            content = content.copy()\n","        if content is self._content:\n            content = content.copy()\n")],
 demo="""
data = numpy.array([1.0, 5.0, 3.0, 7.0])
a = awkward0.MaskedArray([False, True, False, False], data)
s = a.sum()
a.max()
print(s, data)
sys.exit(0 if s == 11.0 and data.tolist() == [1.0, 5.0, 3.0, 7.0] else 1)
""", needs="a reduction of a masked array whose content is NumPy data of the same type", breaks="the reduction writes the identity into the buffer the array was built from"),
dict(id="C14-negative-long-index", property="C14", edits=[(U,"        index = self._index[:len(self._tags)][head]\n\n        if len(tags.shape)","        index = self._index[head]\n\n        if len(tags.shape)")],
 demo="""
a = awkward0.UnionArray([0, 1, 0], [0, 0, 1, 9, 9], [numpy.array([1.1, 2.2]), numpy.array([10])])
try:
    got = [a[-1], a[-2], a[-3], a[::-1].tolist(), a[[-1, -2]].tolist()]
except Exception as err:
    got = repr(err)
print(got)
sys.exit(0 if got == [2.2, 10, 1.1, [2.2, 10, 1.1], [2.2, 10]] else 1)
""", needs="a union whose index is longer than its tags, selected by a position counted from the end", breaks="the position is taken from the surplus part of the index"),
dict(id="C18-shared-edits", property="C18", edits=[(V,"            out._setitem = OrderedDict(self._setitem.items())\n","            out._setitem = self._setitem\n")],
 demo="""
def gen():
    return awkward0.Table(x=[1, 2, 3], y=[4, 5, 6])
class NoCache(dict):
    def __setitem__(self, k, x): pass
v = awkward0.VirtualArray(gen, cache=NoCache())
v["z"] = numpy.array([7, 8, 9])
w = v.copy()
w["q"] = numpy.array([0, 0, 1])
print(v.columns, w.columns)
sys.exit(0 if v.columns == ["x", "y", "z"] and w.columns == ["x", "y", "z", "q"] else 1)
""", needs="a column set on a virtual array, a copy of it, a column set on the copy, and the original regenerated afterwards", breaks="the column set on the copy appears on the original after its value is evicted"),
dict(id="C10-pad-clip-order", property="C10", edits=[(J,"            index = localindex + flatstarts[parents]\n            comparator = self.counts.reshape(-1)[parents]\n","            index = localindex + self._content_start(parents)\n            comparator = self.counts.reshape(-1)[parents]\n"),(J,"    def pad(self, length, maskedwhen=True, clip=False, axis=0):\n","    def _content_start(self, parents):\n        return (self.offsets[:-1] if self._canuseoffset() else self.counts2offsets(self.counts.reshape(-1))[:-1])[parents]\n\n    def pad(self, length, maskedwhen=True, clip=False, axis=0):\n")],
 demo="""
a = awkward0.JaggedArray([3, 0], [5, 1], numpy.array([0., 1., 2., 3., 4.]))
got = a.pad(2).tolist()
b = awkward0.JaggedArray.fromoffsets([0, 2, 3], numpy.array([1., 2., 3.])).pad(2).tolist()
print(got, b)
sys.exit(0 if got == [[3., 4.], [0., None]] and b == [[1., 2.], [3., None]] else 1)
""", needs="lists stored out of order or with gaps", breaks="pad takes the elements from where a compact layout would have them"),
dict(id="C25-content-revalidation", property="C25", edits=[(J,"    def content(self, value):\n        self._content = self._util_toarray(value, self.DEFAULTTYPE)\n        self._isvalid = False","    def content(self, value):\n        old = self.__dict__.get(\"_content\")\n        self._content = self._util_toarray(value, self.DEFAULTTYPE)\n        self._isvalid = self.__dict__.get(\"_isvalid\", False) and type(old) is type(self._content)")],
 demo="""
a = awkward0.JaggedArray([0, 2], [2, 5], numpy.arange(5))
a.tolist()
a.content = numpy.arange(3)
try:
    print(a.tolist(), a[1])
    sys.exit(1)
except ValueError as err:
    print("refused:", err)
b = awkward0.JaggedArray([0, 2], [2, 5], numpy.arange(5))
b.content = numpy.arange(6) * 10
sys.exit(0 if b.tolist() == [[0, 10], [20, 30, 40]] else 1)
""", needs="an array that has been used, whose content is then replaced by a shorter one", breaks="the lists that reach beyond the new content are silently cut"),
dict(id="C12-concat-offset", property="C12", edits=[(M,"            masks.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, x._mask + offset))\n            offset += len(x._content)","            masks.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, x._mask + offset))\n            offset += len(x._mask)")],
 demo="""
a = awkward0.IndexedMaskedArray([0, -1, 2], numpy.array([1., 2., 3.]))
b = awkward0.IndexedMaskedArray([1, -1], numpy.array([4., 5., 6.]))
c = awkward0.IndexedMaskedArray([-1, 0], numpy.array([7.]))
got = awkward0.concatenate([b, a]).tolist(), awkward0.concatenate([c, a]).tolist(), awkward0.concatenate([a, b]).tolist()
print(got)
sys.exit(0 if got == ([5., None, 1., None, 3.], [None, 7., 1., None, 3.], [1., None, 3., 5., None]) else 1)
""", needs="IndexedMaskedArrays whose content is not as long as their mask", breaks="the second operand's entries point at the wrong values"),
dict(id="C17-object-args", property="C17", edits=[(O,"            if isinstance(tail, tuple) and tail == ():\n                return self.generator(content, *self._args, **self._kwargs)\n            else:\n                return self.generator(content, *self._args, **self._kwargs)[tail]","            if isinstance(tail, tuple) and tail == ():\n                return self.generator(content, *self._args)\n            else:\n                return self.generator(content, *self._args, **self._kwargs)[tail]")],
 demo="""
f = lambda x, scale=1: ("obj", x * scale)
a = awkward0.ObjectArray(numpy.array([1, 2, 3]), f, (), {"scale": 10})
got = [a[0], a[-1]], list(a), [x for x in a[1:]]
print(got)
sys.exit(0 if got == ([("obj", 10), ("obj", 30)], [("obj", 10), ("obj", 20), ("obj", 30)], [("obj", 20), ("obj", 30)]) else 1)
""", needs="a generator with keyword arguments, and an element taken by position", breaks="the element is generated without the keyword arguments"),
dict(id="C06-same-total", property="C06", edits=[(J,"            if isinstance(inputs[i], JaggedArray):\n                inputs[i] = inputs[i]._tojagged(starts, stops, copy=False)\n","            if isinstance(inputs[i], JaggedArray):\n                if inputs[i]._canuseoffset() and len(offsets) == len(inputs[i].offsets) and offsets[0] == inputs[i].offsets[0] and offsets[-1] == inputs[i].offsets[-1] and len(inputs) == 2:\n                    inputs[i] = inputs[i].copy(starts=starts, stops=stops)\n                else:\n                    inputs[i] = inputs[i]._tojagged(starts, stops, copy=False)\n")],
 demo="""
a = awkward0.JaggedArray.fromcounts([2, 1, 0], numpy.array([1., 2., 3.]))
b = awkward0.JaggedArray.fromcounts([1, 2, 0], numpy.array([10., 20., 30.]))
try:
    print((a + b).tolist())
    sys.exit(1)
except ValueError as err:
    print("refused:", err)
sys.exit(0 if (a + a).tolist() == [[2., 4.], [6.], []] else 1)
""", needs="two operands with the same number of lists and the same total number of elements, differently divided", breaks="operands of different counts are combined instead of refused"),
]
