"""Results as plain data, to be compared or sent from one process to another."""


def plain(sx, x):
    """x as nested lists of numbers, strings, truth values and None."""
    br = sx.br
    if isinstance(x, br.BibleVerse):
        return ["verse", sx.pos(x.book), x.chap_num, x.verse_num]
    if isinstance(x, br.BibleRange):
        return ["range", plain(sx, x.start), plain(sx, x.end)]
    if isinstance(x, br.BibleRangeList):
        return ["list", [[plain(sx, r) for r in g] for g in x.to_nested_lists()], [plain(sx, r) for r in x], len(x), [len(g) for g in x.groups]]
    if isinstance(x, br.BibleBook):
        return ["book", sx.pos(x)]
    if isinstance(x, br.BibleFlag):
        return ["flags", x.value]
    if isinstance(x, BaseException):
        return ["exception", type(x).__name__]
    if isinstance(x, dict):
        return ["dict", [[plain(sx, k), plain(sx, v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [plain(sx, y) for y in x]
    return x
