J="awkward0/array/jagged.py"
PLANTS=[
dict(id="C03-empty-reverse", property="C03", edits=[(J,"                    stops = self.numpy.minimum(starts, stops)\n\n                    start = starts.max()\n                    stop = stops.min()\n","                    start = starts.max()\n                    stop = min(stops.min(), start)\n")],
 demo="""
a = awkward0.JaggedArray.fromiter([[0, 1, 2, 3, 4], [5, 6], [7]])
try:
    got = a[:, 1:3:-1].tolist(), a[:, 3:1:-1].tolist(), a[:, 0:-1:-1].tolist()
except Exception as err:
    got = repr(err)
print(got)
b = awkward0.JaggedArray.fromiter([[0, 1, 2, 3, 4], [5, 6, 7, 8, 9]])
got2 = b[:, 3:1:-1].tolist()
sys.exit(0 if got == ([x[1:3:-1] for x in a.tolist()], [x[3:1:-1] for x in a.tolist()], [x[0:-1:-1] for x in a.tolist()]) else 1)
""", needs="", breaks=""),
dict(id="C05-compact-gap", property="C05", edits=[(J,"not self.numpy.array_equal(flatstarts[1:], flatstops[:-1])","not (flatstarts[1:] >= flatstops[:-1]).all()")],
 demo="""
a = awkward0.JaggedArray([0, 4], [2, 6], numpy.arange(6))
b = a.compact()
print(b.starts, b.stops)
sys.exit(0 if b.tolist() == [[0, 1], [4, 5]] and b.stops[0] == b.starts[1] and a.iscompact is False else 1)
""", needs="lists stored in order but with gaps between them", breaks="compact() keeps the gaps (and iscompact claims there are none)"),
dict(id="C03-lists-select", property="C03", edits=[(J,"                        mask = (index < 0)\n                        if mask.any():\n                            index[mask] += node.counts[mask]\n                        if (index < 0).any() or (index >= node.counts).any():\n                            raise IndexError","                        mask = (index < 0)\n                        if mask.any():\n                            index[mask] += node.counts[mask]\n                        if (index < 0).any() or (index > node.counts).any():\n                            raise IndexError")],
 demo="""
a = awkward0.JaggedArray.fromiter([[0, 1, 2], [3], [4, 5]])
try:
    print(a[[0, 1, 2], [0, 1, 1]].tolist())
    sys.exit(1)
except IndexError:
    sys.exit(0)
""", needs="per-list positions, one of which equals the length of its list (not the last list)", breaks="the first element of the next list is returned instead of IndexError"),
]
