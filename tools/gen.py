"""Writes properties.jsonl and MANIFEST.json (run after changing a property)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF, UTIL, PARSER, DATA, INIT = ("src/bibleref/%s.py" % x for x in ("ref", "util", "parser", "data", "__init__"))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), level_note))


I, C, H = "inputs", "configurations", "histories"
N = "Symbolic execution of the package's own source; z3 decides every branch and assertion. "

prop("C01", "A verse object exists exactly for the verses of the Bible data",
     "Constructing a verse from a book, chapter and verse number succeeds exactly when the book has that chapter and the chapter has that verse, where verse number 0 counts only in chapters that have a verse 0 and only while verse 0s are allowed; any other combination raises the invalid-reference error. "
     "The first and last chapter and verse numbers, and the first and last verses, reported for books, chapters and verses agree with the same data, as do the questions whether a verse is first or last in a chapter or book.",
     [I, C], "all books, all integers for chapter and verse, all flag settings, arbitrary verse tables",
     "Tests construct a few dozen verses; the boundary of every chapter of every book under every flag setting is never reached.",
     [REF, DATA], [("BibleVerse.__init__ validation", REF + ":308"), ("min_verse_num / max_verse_num / first_verse / last_verse", REF + ":176")],
     N + "Any book, chapter and verse number, arbitrary verse tables: no bound but the 16-bit-size number ranges stated in the evidence.")
prop("C02", "Verses and ranges have a consistent total order, equality and hash",
     "Verses compare in canonical order (book order, then chapter, then verse) and ranges by start and then end; equality is exactly equality of the position, equal values have equal hashes, and all six comparison operators agree; each book's next and previous book follow the book order. "
     "Verses and ranges are immutable values: assigning to or deleting their parts is refused; they equal no value of another type, and ordering them with one is a TypeError.",
     [I], "all pairs and triples of verses, ranges and books", "Tests compare single hand-picked pairs.",
     [REF], [("dataclass ordering of BibleVerse and BibleRange", REF + ":293"), ("BibleBook.__lt__ and friends", REF + ":244")],
     N + "All pairs/triples of verses and ranges.")
prop("C03", "Adding or subtracting a number of verses lands on the right verse",
     "For any n >= 0, a verse plus n is the verse reached by moving n verses forward, and minus n the verse n back, across chapter boundaries, and across book boundaries when multi-book ranges are allowed; verse 0s are stepped on exactly when they are allowed (or the starting verse is itself a verse 0). "
     "Moving off the end of the book (or of the Bible when multi-book is allowed) gives no verse (None); adding or subtracting anything but a number (or subtracting a verse) is a TypeError.",
     [I, C], "all verses, all amounts crossing a bounded number of chapters, all flag settings given globally or as an argument", "Tests step across a handful of boundaries of fixed books.",
     [REF], [("BibleVerse.add / subtract", REF + ":461")], N + "Bounded number of chapters crossed; any size of chapters and books.")
prop("C04", "The difference of two verses is their distance",
     "Subtracting one verse from another gives the signed number of verses between them, within a book and across books, counting verse 0s exactly when they are allowed or either verse is one. It is the inverse of addition: adding the difference to the earlier verse gives the later one, and swapping the operands only changes the sign.",
     [I, C], "all pairs of verses a bounded number of chapters apart, all flag settings", "Tests subtract a handful of fixed pairs.",
     [REF], [("BibleVerse.subtract", REF + ":496")], N + "Bounded number of chapters between the verses.")
prop("C05", "A range is built exactly as given, or refused",
     "Every way of constructing a range (from start and end verses, from another range, or from a start book, chapter and verse and an end book, chapter and verse of which parts may be left out) spans exactly the verses named, where a book or chapter stands for all its verses, including its verse 0 when verse 0s are allowed. "
     "Ends given in the wrong order are swapped; parts that do not exist, or more than one book while multi-book ranges are not allowed are refused with the documented errors.",
     [I, C], "all books, all integer arguments, every form of constructor call, all flag settings", "Tests construct a few ranges of each form.",
     [REF], [("BibleRange.__init__", REF + ":621")], N + "Any books, chapters and verses.")
prop("C06", "Iterating over a range yields each of its verses once, in order",
     "Iterating over a range yields its start verse, then every following verse in order up to and including its end verse, each exactly once, across chapters and books, with verse 0s exactly when they are allowed or already part of the range. "
     "The verse count of a range is the number of verses so yielded, whatever flags are given.",
     [I, C], "all ranges of a bounded number of verses / chapters, all flag settings, repeated iteration", "Tests iterate over two short ranges.",
     [REF], [("BibleRange.__iter__ / verse_count", REF + ":1116")], N + "Iteration bounded by the number of verses, counting by chapters.")
prop("C07", "Splitting a range partitions it where asked",
     "Splitting a range by book, by chapter, by a maximum number of verses, or any combination gives consecutive non-empty pieces that together are exactly the range. "
     "No piece crosses a boundary it was asked to be split at or has more than the maximum number of verses, and pieces are cut only where one of the criteria requires it; the chapters of a book are its split by chapter.",
     [I, C], "all ranges over a bounded number of chapters or books, all maximum sizes, all combinations of criteria and flags", "Tests split a few fixed ranges.",
     [REF], [("BibleRange.split", REF + ":873"), ("BibleBook.chap_ranges", REF + ":235")], N + "Bounded number of pieces and chapters.")
prop("C08", "Disjoint, adjacent, contains and surrounds mean what the verses say",
     "Two references are disjoint exactly when they share no verse; adjacent exactly when disjoint and no verse lies between them (books are adjacent only when multi-book is allowed); one contains another exactly when every verse of the other is in it, and surrounds it when it also extends beyond it at both ends. "
     "This holds between ranges and verses, ranges and lists of ranges, and the `in` operator agrees with contains.",
     [I, C], "all pairs of references, all flag settings", "Tests check a few fixed pairs.",
     [REF], [("BibleRange.is_disjoint / is_adjacent / contains / surrounds", REF + ":934"), ("BibleRangeList.is_disjoint / contains", REF + ":1380")], N + "Lists of bounded length, ranges of any extent.")
prop("C09", "Set operations on ranges are the set operations on their verses",
     "The union, intersection, difference and symmetric difference of a range with a verse, a range or a list of ranges contain exactly the verses the set operation prescribes, as a list of disjoint, non-adjacent ranges in ascending order. "
     "The operators give the same results as the named methods and neither operand is changed.",
     [I, C], "all pairs of operands, all verses, all flag settings", "Tests check a few fixed pairs.",
     [REF], [("BibleRange.union / intersection / difference / sym_difference", REF + ":1002")], N + "A universally quantified probe verse; list operands of bounded length.")
prop("C10", "Set operations on lists are the set operations on their verses",
     "The union, intersection, difference and symmetric difference of a list of ranges with a verse, a range or another list (or itself) contain exactly the verses the set operation prescribes, as disjoint, non-adjacent ranges in ascending order. "
     "The plain methods and operators return a new list and change no operand; the in-place ones change only the list they are called on, and give the same result.",
     [I, C], "all lists of bounded length (also overlapping, unsorted or duplicate ranges), all verses, all flag settings", "Tests check a few fixed lists.",
     [REF], [("BibleRangeList.union_update ... sym_difference_update", REF + ":1407")], N + "Lists of bounded length.")
prop("C11", "Sorting and merging a list keeps its verses",
     "Sorting a list of ranges rearranges it into ascending order without losing, adding or changing a range, whatever its groups were. "
     "Merging leaves the smallest list of disjoint, non-adjacent ranges in ascending order that spans exactly the same verses.",
     [I, C], "all lists of bounded length, in any order, overlapping or not, all flag settings", "Tests sort and merge one or two fixed lists.",
     [REF, UTIL], [("BibleRangeList.sort / merge", REF + ":1354"), ("GroupedList merge sort", UTIL + ":sort")], N + "Lists of bounded length.")
prop("C12", "Chapter and book counts",
     "The chapter count of a range is the number of chapters it touches, or with whole=True the number it covers entirely (from the first verse, verse 0 included when allowed, to the last), and likewise the book count for books. "
     "The verse, chapter and book counts of a list are the sums over its ranges, and a book's counts are its chapters and the verses in them.",
     [I, C], "all ranges over a bounded number of chapters or books, all flag settings", "Tests count a few fixed ranges.",
     [REF], [("chap_count / book_count / verse_count", REF + ":817")], N + "Bounded number of chapters or books.")
prop("C13", "Whole-chapter, whole-book and spanning ranges are exact",
     "The chapter and book ranges of a verse, range or list of ranges, and the overall range of a list, are the smallest ranges with those boundaries that include every verse; they start at verse 0 when verse 0s are allowed (or the reference itself starts at one) and the chapter has one. "
     "A range is reported as a whole chapter or book, or as spanning its first or last chapter or book, exactly when its verses do so.",
     [I, C], "all verses, ranges and lists of bounded length (in any order, nested or overlapping), all flag settings", "Tests check a few fixed references.",
     [REF], [("chap_range / book_range / range", REF + ":855"), ("is_whole_chap / spans_start_chap ...", REF + ":781")], N + "Ranges of any extent, lists of bounded length.")
prop("C14", "Converting between verse 0 and verse 1 changes nothing else",
     "Converting 0 to 1 turns a verse 0 into verse 1 of the same chapter and leaves any other verse as it is; converting 1 to 0 turns a verse 1 into verse 0 exactly in chapters that have one, regardless of the flags. "
     "For ranges both ends are converted; for lists every range is converted in place, keeping order and groups.",
     [I, C], "all verses, ranges and lists of bounded length, all flag settings", "Tests convert a few fixed references.",
     [REF], [("verse_0_to_1 / verse_1_to_0", REF + ":361")], N + "Ranges of any extent, lists of bounded length.")
prop("C15", "Strings of verses and ranges parse back to the same reference",
     "The string of any verse or range, in every format (abbreviated or full book names, standard or alternate separator, with or without spaces, start verses forced or not), parses under the same flags to exactly that verse or range. "
     "This covers every book's names, single-chapter books, whole chapters and books, verse 0s and multi-book ranges.",
     [I, C], "all verses and ranges, all string formats, all flag settings", "Tests format and parse a few dozen fixed references.",
     [REF, PARSER], [("BibleVerse.str / BibleRange.str", REF + ":557"), ("grammar and transformer", PARSER + ":64")], N + "Numbers are symbolic inside the strings, parsed by the real grammar; every book name, representative pairs of books for multi-book ranges.")
prop("C16", "Strings of lists parse back to the same list and groups",
     "The string of a non-empty list of ranges parses, under the same flags, to the same ranges in the same order; when groups are preserved the parsed list also has the same groups and equals the original. "
     "This holds for every string format, in whatever order the ranges stand and whatever chapters or books they switch between; making a string does not change the list.",
     [I, C], "all lists of bounded length in all groupings, all string formats, all flag settings", "Tests format and parse a few fixed lists.",
     [REF, PARSER], [("BibleRangeList.str", REF + ":1638"), ("grammar and transformer", PARSER + ":64")], N + "Lists of bounded length; ranges of bounded extent.")
exec(open(os.path.join(ROOT, "tools", "gen_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "gen_more.py")) else None

P.sort(key=lambda x: x[0]["id"])
NOT = []
checks, lines = [], []
for p, note in P:
    lines.append(json.dumps(p))
    id = p["id"]
    if not os.path.exists(os.path.join(ROOT, "harness", id.lower() + ".py")):
        NOT.append(dict(property=id, reason="machinery not built yet"))
        continue
    checks.append(dict(property=id, quick_cmd="python3 run.py %s --tier quick" % id,
                       thorough_cmd="python3 run.py %s --tier thorough" % id,
                       technique="symbolic execution of the package's source with z3 (bounded), counterexamples replayed on the real package",
                       level="model_checking", level_note=note))
open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="python3 -c \"print('nothing to build')\"", checks=checks, not_applicable=NOT),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NOT), "n/a")
for p, n in P:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["statement"]
