prop("C19", "A reference text means what the grammar documents, for any numbers",
     "A text of references (books with or without chapter and verse numbers, bare numbers, ranges, separated by major and minor separators) parses to exactly the ranges it names: the book is the last one named, a bare number after a major separator is a chapter (a verse in a one-chapter book), and after a minor one it is a chapter or verse like the number before it; a range written with its ends in the wrong order is the range between them; each major separator starts a new group. White space around the parts, the choice of verse separator and leading zeros of numbers make no difference. "
     "A text naming a chapter or verse that does not exist, no book at all, or several books in a range while that is not allowed, is refused with the parsing error; the range and verse constructors given a text accept it exactly when it names a single range or verse.",
     [I, C], "all numbers in texts of a bounded number of references, all flag settings", "Tests parse a few dozen fixed texts.",
     [PARSER, REF], [("grammar", PARSER + ":20"), ("BibleRefTransformer", PARSER + ":64")], N + "Texts of up to three references with symbolic numbers, parsed by the real grammar and transformer, against an independent interpreter.")
prop("C20", "What a text means does not depend on what was parsed before",
     "Parsing a text gives the same ranges, or the same refusal, whatever texts were parsed before it, with success or failure, under whatever flags. "
     "A later parse never changes the results of an earlier one.",
     [H, I, C], "all sequences of two or more texts of bounded size with arbitrary numbers, valid or not", "Tests parse each text from a fresh start or in one order.",
     [PARSER], [("transformer state (book, chapter, verse context)", PARSER + ":64")], N + "Sequences of texts with symbolic numbers.")
prop("C21", "Texts that are not references are refused with a position in the text",
     "A text that does not follow the grammar, or names an unknown book or a chapter or verse that does not exist, raises the package's parsing error and nothing else, and leaves no partial result. "
     "The error's start and end positions lie in the text and mark the first part that could not be understood.",
     [I, C], "all sequences of a bounded number of words, numbers and punctuation marks, all flag settings", "Tests try a few malformed texts.",
     [PARSER], [("_parse error handling", PARSER + ":200")], N + "All short sequences of text pieces with symbolic numbers, against an independent recogniser.")
prop("C22", "A list of ranges behaves as a list under every sequence of operations",
     "Appending, prepending, inserting, replacing, deleting, popping, extending, removing, clearing, reversing and sorting change a list (grouped or not) exactly as they change an ordinary list, with the same errors for bad indices and absent values; lookups, searches within bounds, counts, membership and iteration in both directions show the same elements. "
     "Lists made in any of the documented ways hold the elements given. Lists are equal exactly when their elements and groups are, copies are independent, and a list of ranges refuses anything that is not a range and stays as it was.",
     [H, I], "all sequences of a bounded number of operations with arbitrary indices and values on lists of bounded size in any grouping", "Tests run a few fixed sequences of operations.",
     [UTIL, REF], [("LinkedList / GroupedList", UTIL + ":1"), ("BibleRangeList", REF + ":1200")], N + "Histories of bounded length; values, indices and operations are symbolic.")
prop("C23", "Groups always partition the list, and group views never show stale data",
     "After any sequence of operations the groups of a list are non-empty, consecutive and together are exactly the list, and each operation changes the groups only as documented (which group an element joins, when a group starts or disappears). "
     "A view of a group shows a current group of the list, changes through it are made to the list, and a view whose group is gone raises the group-view error instead of showing anything. The text shown for a list and for its groups lists exactly these groups.",
     [H, I], "all sequences of a bounded number of operations, arbitrary indices and values, on lists of bounded size in any grouping", "Tests run a few fixed sequences of operations.",
     [UTIL], [("GroupedList / GroupViews", UTIL + ":400")], N + "Histories of bounded length.")
prop("C17", "Regrouping puts a list into its natural groups and changes nothing else",
     "Regrouping keeps the ranges and their order, and a range joins the group before it exactly when it lies within one chapter, is not the whole of that chapter, and the range before it ends at a verse of the same chapter in its conventional text; regrouping again changes nothing, and the string made without preserving groups has, and parses to, the same groups. "
     "Sorting, merging, splitting and the set operations on lists, in place or not, leave their results in these natural groups unless told not to regroup, and a flags argument decides about verse 0s as the global flags would.",
     [I, C], "all lists of bounded length in every grouping, all flag settings given globally or as an argument", "Tests regroup a few fixed lists.",
     [REF], [("BibleRangeList.regroup", REF + ":1570")], N + "Lists of up to three ranges, each of bounded extent; arbitrary tables.")
prop("C18", "A string names a book exactly when it is one of the book's names",
     "A string gives a book exactly when, apart from surrounding white space and case, it is the book's abbreviation, one of its extra abbreviations, or a beginning of its title at least as long as the book's minimum, with any white space or none for the spaces in the name, and a leading number written as a digit or as a Roman numeral followed by white space; no string names two books. "
     "Any other string gives None, or the invalid-reference error where a book is required; every name works the same in the verse and range constructors and in reference texts.",
     [I], "all ASCII strings of any length", "Tests try a few spellings of each book; that no other string is accepted cannot be sampled.",
     [REF, DATA, PARSER], [("BibleBook.from_str", REF + ":120"), ("_set_regexes", DATA + ":120")], N + "Strings are z3 sequences constrained by the regular expressions the package itself builds; no bound on their length.")
prop("C24", "A flags argument acts for one call exactly as the global flags would",
     "Every method and constructor that takes a flags argument gives, with that argument, the same result or the same error as the same call without it while those flags are set globally, whatever the global flags are. "
     "No call changes the global flags.",
     [I, C], "every method that takes flags, every pair of global and given flags, all arguments within bounds", "Tests pass flags to a few methods, almost always with the global flags unset.",
     [REF], [("flags parameters throughout", REF + ":120")], N + "Both calls are executed with the same symbolic arguments and compared.")
prop("C25", "Changed Bible data takes effect everywhere at once",
     "After setting the book order, the verse counts, the verse 0s or the book names, every later answer follows the new data: which verses exist, numbers of chapters and verses, order and neighbours of books, comparisons, ranges, stepping and the whole Bible, names in strings and texts. "
     "Books left out of the new data have no place in the order, no verses (an invalid reference) or no names.",
     [C, I], "all verse counts and orders of a few books of bounded size, all verses, two sets of names with all ASCII strings", "Tests use only the shipped data.",
     [DATA, REF], [("BibleData setters", DATA + ":79")], N + "Verse counts are symbolic; orders of up to four books.")
prop("C27", "Strings of verses, ranges and lists are the conventional ones",
     "A verse is written as book, chapter and verse (no chapter in one-chapter books), with abbreviation, alternate separator or no spaces as asked, and any parts asked for alone; a range that is a verse, chapter or book is written as that single reference, any other as start and end, leaving out what follows from the context: a whole book or chapter at the start shows no verse unless start verses are forced and the end shows one, the end repeats neither the book nor the chapter it shares with the start. "
     "In a list the pieces are separated by major separators between groups and minor ones within, a book is named exactly when it is not the one before or the piece starts with a whole book, and nothing is named twice; within a group the start of a range repeats its chapter except in a run of verses of one chapter.",
     [I, C], "all verses and ranges within and across books, all lists of bounded length and grouping, all formats and flag settings", "Tests compare a few dozen fixed strings.",
     [REF], [("BibleVerse.str", REF + ":560"), ("BibleRange.str", REF + ":1060"), ("BibleRangeList.str", REF + ":1638")], N + "Strings built by the real code compared with those of an independent formatter.")
prop("C26", "Separators set by the user are the ones written and read",
     "After setting any of the five separators to any other marks, every string has the new separators exactly where it had the old ones and parses back to the same ranges and groups; a text with the new separators has the same meaning, or the same refusal and position, that the text with the old separators had. "
     "A mark that is no longer a separator is refused with the parsing error.",
     [C, I], "each separator replaced by each of 28 marks, several changed together, lists of bounded length, texts with any numbers", "Tests never change a separator.",
     [DATA, PARSER, REF], [("separator properties of BibleData", DATA + ":25"), ("_recreate_parser", PARSER + ":195")], N + "The grammar is rebuilt by the real code for each setting.")
prop("C29", "An answer depends on the question, not on earlier questions",
     "Asking anything of a book, verse, range or list gives the same answer whatever was asked before: the same question with other flags or other keyword arguments, the same question about another reference, or the same question about the list before it was changed in any way. "
     "Asking changes neither what is asked about, nor the flags, nor the Bible data.",
     [H, I, C], "every method and operator, asked after itself with other flags, other keyword arguments, about another book, chapter or verse, or before a change of the list by any operation", "Tests ask each question once, of an object made for it.",
     [REF, UTIL], [("methods of BibleBook, BibleVerse, BibleRange and BibleRangeList", REF + ":148"), ("GroupedList operations", UTIL + ":1")], N + "Each history is executed together with the last question alone on a fresh package, with the same symbolic inputs, and the answers compared.")
prop("C28", "The shipped data is the 66-book canon with the standard verses and names",
     "With the data the package ships, the books are the 66 in the usual order, exactly the chapters and verses of the standard English versification (1189 chapters, 31102 verses) exist, verse 0 exists exactly for the 116 psalms with a title, and the separators are the usual ones. "
     "Every book has its usual title and abbreviation and is recognised by each of its usual names: the beginnings of its title and the abbreviations in common use.",
     [I], "all books, all chapter and verse numbers, all spellings of the listed names", "Tests touch a few verses of a few books; a wrong number in one of 1189 chapters goes unnoticed.",
     [DATA], [("default tables", DATA + ":205")], N + "Tables pinned to the shipped data, compared with an independent copy in /verif for every chapter and verse number.")
