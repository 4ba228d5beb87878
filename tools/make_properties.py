"""Writes /verif/properties.jsonl.  The one place where the property texts are edited."""
import json, os

P = []


def add(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe, "hook_needed": hook,
        },
    })


D = "discretehelpers/"

add("C01", "A set partition always answers for the changes accepted so far",
    "After any sequence of merges and refinements, with questions asked at any point in between, every question about a "
    "set partition (its blocks, whether two different elements share a block, the block of an element, the pairs, the "
    "numeric code, the length, the singletons, the listing with singletons) is answered exactly for the partition that "
    "the accepted changes produce. Asking a question never changes a later answer.",
    ["histories", "inputs"],
    "every history of merge/refine/label/query calls on one partition, over the natural numbers, the integers or a finite set",
    "The tests build a partition, apply two or three fixed changes and compare once at the end; no test asks a question, "
    "changes the partition and asks again, so remembered answers that outlive a change are invisible to them.",
    [D + "set_part/__init__.py", D + "set_part/methods", D + "set_part/metributes"],
    [("the object is re-initialised from its new blocks after each change", D + "set_part/methods/merge_pair/__init__.py"),
     ("derived values are kept on the object and dropped on re-initialisation", D + "set_part/__init__.py: set_dummies")],
    ["SetPart public attributes and methods"],
    [("blocks", "sorted list of the sorted non-singleton blocks", D + "set_part/__init__.py"),
     ("element index", "element to position of its block", D + "set_part/__init__.py")])

add("C02", "Block labels follow their blocks through every change",
    "At every moment each labelled block of a set partition has one label and each label belongs to one block; merging a "
    "labelled with an unlabelled block keeps the label on the merged block, giving the label of one block to an element "
    "of an unlabelled block merges the two blocks, and merging two blocks with different labels is refused. "
    "Splitting a block gives exactly the new labels to exactly the new blocks, and blocks that are not involved in a "
    "change keep their labels.",
    ["histories", "inputs"],
    "every history of label, merge and refine calls, singletons and blocks of any size, all domains",
    "The label tests follow one fixed story with a handful of labels; the interplay of label moves with merges, splits "
    "and singletons over longer histories is not reached.",
    [D + "set_part/methods/block_labels/__init__.py", D + "set_part/methods/merge_pair/__init__.py",
     D + "set_part/methods/refine_block/__init__.py"],
    [("labels are keyed by block in a two-way dictionary that every change must re-key", D + "set_part/methods/block_labels/__init__.py")],
    ["label questions by block, by element and by label"],
    [("block labels", "two-way mapping between block and label", D + "set_part/__init__.py")])

add("C03", "A refused change leaves no trace",
    "When a change to a set partition or to an equality-and-complement relation is refused with an exception (element "
    "outside the domain, contradicting labels, wrong new blocks or labels, equal elements declared complementary or the "
    "other way round), the object answers every question as before the call. "
    "The changes made afterwards work as if the refused call had never been made.",
    ["histories", "fault_sequences"],
    "every history in which refused calls, including ones that fail part way through several merges, are placed anywhere",
    "The tests only assert that the exception is raised and then throw the object away.",
    [D + "set_part/methods", D + "set_part_comp/methods"],
    [("arguments are checked before the first assignment", D + "set_part/methods/refine_block/__init__.py"),
     ("a failed series of merges is rolled back", D + "set_part/methods/merge_many/__init__.py")],
    ["SetPart and SetPartComp before and after the refused call"])

add("C04", "Equality and complement statements are closed under their consequences",
    "After any sequence of accepted statements 'a equals b' and 'a is the complement of b', in any order, two elements "
    "are reported equal, complementary or unrelated exactly as it follows from the statements (complement of the "
    "complement is equal), and a contradicting statement is refused. "
    "Blocks, complement pairs, representatives, related elements, matching integers, the characteristic Boolean "
    "function and the comparison of relations all describe this same relation.",
    ["histories", "inputs"],
    "every history of statements and questions over small and large, also negative, integers",
    "Tests use three fixed scripts of statements; the case split (none, one or both sides already have complements) times "
    "order of statements times questions in between is far larger.",
    [D + "set_part_comp"],
    [("four-way case split for a new statement", D + "set_part_comp/methods/set_comp/__init__.py"),
     ("pairs of block representatives re-keyed on each merge", D + "set_part_comp/methods/set_equal/__init__.py")],
    ["SetPartComp public methods"],
    [("equality partition", "which elements are equal", D + "set_part_comp/__init__.py"),
     ("complement pairs", "pairs of representatives of complementary blocks", D + "set_part_comp/__init__.py")])

add("C05", "Meet, join and refinement order hold for partitions that keep changing",
    "At any moment in the life of several set partitions over the same domain, their meet and join are the greatest "
    "lower and least upper bound of their current states in the same domain, and the comparisons agree with refinement. "
    "The results are independent objects: later changes of an operand never show in a result, nor the other way round.",
    ["histories", "inputs"],
    "every interleaved history of changes to a pool of partitions with meets, joins and comparisons in between",
    "Meet and join are tested on fixed pairs of freshly built partitions over the natural numbers only.",
    [D + "set_part/methods/meet_and_join/__init__.py", D + "set_part/__init__.py"],
    [("join by repeated merging on a fresh partition", D + "set_part/methods/meet_and_join/__init__.py")],
    ["meet, join, <=, <, == between pool members"])

add("C06", "Answers do not depend on what was asked or computed before",
    "Whatever questions were asked before, in whatever order, of the same object or of other objects, a question to a "
    "Boolean function, permutation, signed permutation, Walsh permutation, binary vector or set partition gives the same "
    "answer as it gives when asked first in a fresh process. Asking twice gives the same answer twice.",
    ["histories"],
    "every order and repetition of the public questions over a growing pool of shared and derived objects",
    "Each test asks a fresh object a few questions in one order; there are hundreds of remembered answers and the order of "
    "filling them is never varied.",
    [D + "boolf", D + "perm", D + "sig_perm", D + "walsh_perm", D + "binv", D + "set_part", D + "a"],
    [("remembered answers on the object", D + "boolf/metributes"),
     ("several answers filled by one shared computation", D + "boolf/metributes/_fissions")],
    ["all public properties and methods"])

add("C07", "Threads sharing objects get the single-threaded answers",
    "When several threads put questions to the same objects at the same time, or build and change objects of their own, "
    "every answer equals the one given when the same calls are made one after another. "
    "No interleaving makes a call fail, hang or see a half-finished value.",
    ["schedules", "histories"],
    "every interleaving, at the granularity of single source lines and single bytecode instructions, of two to four threads",
    "The tests are single-threaded.",
    [D + "boolf", D + "perm", D + "walsh_perm", D + "set_part", D + "a"],
    [("remembered answers are stored complete, in one assignment", D + "boolf/metributes")],
    ["answers received by each thread"])

add("C08", "An interrupted question does not spoil later answers",
    "If a question or an operation is cut off at any instant by an exception from outside (interrupt, out of memory, "
    "stack exhausted, output stream failing), all objects involved still give the right answers to every question asked "
    "afterwards, including the one that was cut off.",
    ["crash_points", "fault_sequences", "histories"],
    "every instant inside every public question or operation, once or several times in a row",
    "No test interrupts anything.",
    [D + "boolf", D + "perm", D + "sig_perm", D + "walsh_perm", D + "binv", D + "set_part"],
    [("a remembered answer is stored only when its computation has finished", D + "boolf/metributes")],
    ["all public properties and methods after the fault"])

add("C09", "Operations leave operands and arguments alone",
    "No constructor, operator, question or method that returns a result changes the objects it is applied to or the "
    "lists, dictionaries and other values passed to it. A value built from a caller's container or a copied object stays "
    "the same when the caller changes the container or the original afterwards.",
    ["histories", "inputs"],
    "every history of constructions, operations and copies over a pool of shared objects and caller-owned containers, "
    "including later changes to those containers",
    "Tests compare the result of an operation and never look at the operands again.",
    [D + "boolf/subinit_methods", D + "boolf/methods/bitwise", D + "perm", D + "binv", D + "sig_perm", D + "set_part", D + "set_part_comp", D + "walsh_perm"],
    [("arguments are copied on construction", D + "boolf/subinit_methods"),
     ("operators build new objects", D + "boolf/methods/bitwise")],
    ["operands, arguments and results after each operation"])

add("C10", "Equality, order and hash stay fixed and consistent for an object's lifetime",
    "Among Boolean functions, among binary vectors, among permutations and among signed permutations, equality is an "
    "equivalence that does not depend on the route by which the same value was built, equal objects have equal hashes, and "
    "the order of two objects and the hash of an object never change, whatever was computed with them in between. "
    "An object put into a set or dictionary is found there later.",
    ["histories"],
    "every history of building equal and unequal objects by different routes, questions, and container operations",
    "Tests use equality only to compare one result with one expectation.",
    [D + "boolf/methods/bitwise", D + "binv/__init__.py", D + "perm/__init__.py", D + "sig_perm/__init__.py"],
    [("equality by canonical root and atoms, hash by text", D + "boolf/__init__.py")],
    ["==, !=, <, hash(), set and dict membership"])

add("C11", "The same calls give the same results in every process",
    "The same sequence of calls gives the same values, in the same order, and the same printed text in every process, "
    "whatever the hash seed of the interpreter.",
    ["configurations", "histories"],
    "every script of public calls, every hash seed, every worker process",
    "The tests run once with one fixed hash seed.",
    [D + "boolf", D + "set_part", D + "set_part_comp", D + "a"],
    [("results are sorted or built in index order where sets are involved", D + "boolf")],
    ["canonical text of every answer, captured standard output"])

add("C12", "Files written and read by the library survive I/O faults",
    "Appending text to a file keeps everything already in it and, when the call returns normally, the file ends with "
    "exactly the new text; when the write fails the failure is reported, the old content is intact and followed by at "
    "most a prefix of the new text, and the next append works. A table row that needs a template file is either complete "
    "or the failure is reported, and is complete again when the fault is gone. No file stays open after any of these calls.",
    ["fault_sequences", "histories", "crash_points"],
    "every sequence of appends and row renderings by several callers with open, write, read, flush and close faults placed anywhere",
    "Neither function is tested for failures; the append function is not tested at all.",
    [D + "a/misc.py", D + "boolf/methods"],
    [("append mode", D + "a/misc.py"), ("template read on each call", D + "boolf/methods/wiki_table_row/__init__.py")],
    ["file contents in a scratch directory, exceptions, open file handles"])

add("C13", "Every class can be imported first, in any order, also after a failed import",
    "Each of the public classes can be imported in a fresh interpreter as the first one and after any of the others, and "
    "the classes behave the same whatever the order. An import that is cut off part way by an error can be repeated in "
    "the same process and then works.",
    ["histories", "crash_points", "schedules"],
    "every order of importing the public classes, every instant of interruption, concurrent imports",
    "The test session imports everything in one fixed order.",
    [D + "a/__init__.py", D + "boolf/__init__.py", D + "binv/__init__.py", D + "perm/__init__.py"],
    [("imports inside functions break the import cycles", D + "a")],
    ["import statements and first calls in fresh interpreters"])

add("C14", "A segment collection has the same content in whatever order it is filled",
    "The segments, spots and links of a Boolean function's segment collection do not depend on the order or "
    "repetition in which segments are requested, and requesting something already contained changes nothing. "
    "Every contained segment comes with all its boundary parts, neighbourhood is mutual, and each segment keeps describing itself whatever happens to the list it was requested with.",
    ["histories", "inputs"],
    "every order and repetition of add, demand and inquire calls on a collection",
    "The tests fill collections in one order.",
    [D + "boolf/methods/find_segments"],
    [("recursive insertion of the boundary", D + "boolf/methods/find_segments")],
    ["segment collection public methods"])

add("C15", "Sequences handed out step by step do not disturb each other",
    "Generators and lazily consumed results can be advanced in any interleaving, abandoned half way or started again, and "
    "each one yields exactly the sequence it yields when consumed alone. Functions that take any iterable treat a generator as its list.",
    ["schedules", "histories"],
    "every interleaving of advancing, abandoning and restarting several generators with other calls in between",
    "Tests exhaust each generator at once in isolation.",
    [D + "boolf/a/twin_misc", D + "boolf/a/simple_gens", D + "a/_atompatterns", D + "a/schoute_coset_gen", D + "a/powerset"],
    [("all state in local variables of the generator", D + "boolf/a/simple_gens")],
    ["yielded values"])

add("C16", "A Boolean function keeps denoting its truth table through any history",
    "However a Boolean function was built (truth table, spots, Zhegalkin index, Walsh spectrum, operators, composition of "
    "several functions, renaming or negating arguments, projection to some of the arguments) and whatever was asked or "
    "interrupted before, it evaluates on every input as plain Boolean algebra on its ingredients says. Truth tables of "
    "any arity, spots, weights, atoms, Zhegalkin index, spectrum and comparisons all describe this one function.",
    ["histories", "fault_sequences", "inputs"],
    "every history of operations and questions with interruptions over a pool of functions that are built from each other",
    "Tests check single operations on fresh functions of at most three or four atoms; chains over shared, already "
    "questioned and once interrupted objects are not reached.",
    [D + "boolf"],
    [("canonical form: reduced truth table plus list of atoms", D + "boolf/subinit_methods")],
    ["evaluation, truth tables and conversions of every pool member"])

add("C17", "Permutations keep denoting their mapping through any history",
    "However a finite or periodic permutation, a signed permutation or a Walsh permutation was built (sequence, cycles, "
    "rank, product, power, inverse, transpose) and whatever was asked or interrupted before, it maps every number as "
    "composition of its ingredients says. Inverse, cycles, order, parity and ranks all describe this one mapping.",
    ["histories", "fault_sequences", "inputs"],
    "every history of products, powers, inverses, questions and interruptions over a pool of permutations built from each other",
    "Tests check single products and conversions of fresh objects.",
    [D + "perm", D + "sig_perm", D + "walsh_perm"],
    [("products return an operand itself when the other one is neutral", D + "perm/__init__.py"),
     ("remembered inverse, cycles, ranks", D + "perm/metributes")],
    ["image of every number, conversions"])

add("C18", "Binary vectors keep denoting their digits through any history",
    "However a binary vector was built (digits, number, set of places, concatenation, complement, bitwise combination, "
    "flipped digit) and whatever was asked or interrupted before, its digits are those which the ingredients determine, and "
    "number, places, weight, reversal, complement, run changes and comparisons all describe these digits.",
    ["histories", "fault_sequences", "inputs"],
    "every history of operations, questions and interruptions over a pool of vectors built from each other",
    "Tests check single operations on fresh vectors.",
    [D + "binv"],
    [("remembered derived values over a digit list that may be shared", D + "binv/__init__.py")],
    ["digits and derived values of every pool member"])

add("C19", "Objects can be saved, copied and written down at any moment",
    "At any moment of its life, whatever was asked, changed or cut off before, an object of each public class can be deeply "
    "copied or saved with the standard means of the language and loaded in another process; what comes back equals the "
    "original, answers every question like it, is found in saved sets and dictionaries by equal objects, and is independent "
    "of the original: later changes of one do not show in the other. The printed text of a Boolean function (without "
    "superfluous arguments), binary vector, permutation, signed permutation, Walsh permutation, set partition without labels "
    "over numbers or relation over the integers, read as an expression, gives an equal object.",
    ["histories", "fault_sequences", "configurations"],
    "every history of questions, changes, interruptions, copies and failing saves, cut into phases by any number of restarts "
    "in processes with any hash seeds",
    "No test saves or copies an object; what is saved depends on the answers remembered so far, and hashes of loaded objects "
    "matter only in a process with another hash seed.",
    [D + "boolf", D + "binv", D + "perm", D + "sig_perm", D + "walsh_perm", D + "set_part", D + "set_part_comp"],
    [("objects keep remembered answers in their instance dictionary, which is what is saved", D + "boolf/__init__.py"),
     ("text as constructor expression, also the base of the hash", D + "boolf/methods/str")],
    ["answers, equality, lookups and text after loading"])

# ---------------------------------------------------------------- pure functions: stated, not claimed

add("P01", "Conversions between representations are inverse to each other",
    "Converting a number, a set of places, a digit string, a permutation rank or a block code to another representation and "
    "back gives the original value, for every value of every size.",
    ["inputs"], "every value",
    "Tests use a few small values; sizes beyond 2**48 are not reached.",
    [D + "a", D + "binv", D + "perm", D + "set_part"],
    [("pairwise conversion functions", D + "a")], ["return values"])
add("P02", "Zhegalkin twin, reversal and Walsh transform are mutually consistent",
    "The twin of the twin is the original function, the truth table can be recovered from the Walsh spectrum, and the "
    "quadrant extensions and consul follow the documented identities for every truth table.",
    ["inputs"], "every truth table", "Exhaustive for arity three only.",
    [D + "boolf/metributes"], [("matrix products and bit tricks", D + "boolf/metributes")], ["return values"])
add("P03", "Class representatives are minimal and the same for all members",
    "For every equivalence class of Boolean functions the representative belongs to the class, is its smallest member and is "
    "found from every member.",
    ["inputs"], "every Boolean function", "Exhaustive for arity three only.",
    [D + "boolf/methods"], [("enumeration of the class", D + "boolf/methods")], ["return values"])
add("P04", "Splits, bundles, segments and fissions describe the function's geometry",
    "The hypersplits, bundles, fission and segments reported for a function are exactly those of its set of true places in "
    "the hypercube.",
    ["inputs"], "every Boolean function", "Exhaustive for arity three only.",
    [D + "boolf/metributes", D + "boolf/methods"], [("enumeration of sub-cubes", D + "boolf/methods")], ["return values"])
add("P05", "Walsh permutations correspond to invertible binary matrices",
    "Vectors, matrices, transposes, inverses and complement patterns of Walsh permutations agree with linear algebra over the "
    "two-element field; singular matrices are refused.",
    ["inputs"], "every binary matrix", "A few fixed matrices.",
    [D + "walsh_perm"], [("matrix arithmetic", D + "walsh_perm")], ["return values"])
add("P06", "Number helpers are exact for integers of any size",
    "Lengths, logarithms, binomials, odious and evil indices, bit reversals and similar number helpers are exact for "
    "integers of every size.",
    ["inputs"], "every integer", "Small integers only.",
    [D + "a"], [("integer and floating point arithmetic", D + "a")], ["return values"])
add("P07", "Invalid arguments are refused with the documented exceptions",
    "Every constructor and function refuses contradictory, malformed or out-of-range arguments with the documented exception "
    "and accepts all valid ones.",
    ["inputs"], "every argument combination", "A few negative tests per class.",
    [D + "ex.py", D + "boolf/subinit_methods", D + "perm", D + "binv"], [("argument guards", D + "a")], ["exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    a = p["anchors"]
    for w in a["files"] + [_["where"] for _ in a["mechanism"] + a["state"]]:
        assert os.path.exists(os.path.join("/repo", w.split(":")[0])), (p["id"], w)
print(len(P), "properties")
