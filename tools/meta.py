"""The listed properties; tools/gen.py writes properties.jsonl and MANIFEST.json from this and props.py."""
H = "hypothesis-python/src/hypothesis/"
C = H + "internal/conjecture/"
META = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    META.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=[f if f.startswith("hypothesis-python") else H + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)))


p("C01", "Choice values and shrink indices are in exact correspondence",
  "For every set of constraints on an integer, boolean, byte string or text, each permitted value has exactly one nonnegative index, turning that index back gives the same value, and every index in range gives a permitted value. The simplest permitted value has index 0; for integers the order is by distance from the shrink target (upwards first) until one bound is reached, and for strings shorter comes first. An index too large to be turned back is refused, never answered wrongly.",
  ["inputs"], "all permitted values, all indices, all bounds, shrink targets, alphabets and sizes",
  "tests/conjecture/test_choice.py samples some constraints with small sizes; boundaries of the geometric size computation (floating-point logarithms) and huge bounds are out of its reach",
  ["internal/conjecture/choice.py"],
  [("choice_to_index / choice_from_index", C + "choice.py"), ("zigzag_index / zigzag_value", C + "choice.py"), ("_size_to_index / _index_to_size, collection_index / collection_value", C + "choice.py"), ("choice_permitted", C + "choice.py")],
  observe=["choice_to_index(value, constraints)", "choice_from_index(index, type, constraints)"])
p("C02", "The float shrink encoding is lossless and ordered",
  "Every nonnegative float, including infinity and every NaN with a clear sign bit, survives encoding to a 64-bit code and back, bit for bit. Integers below 2**56 are their own code and come before all other floats, infinity after every finite float, NaN last; among floats of at least 1 a smaller integer part comes first. Clamping a float into bounds always gives a value those bounds permit and leaves a permitted value unchanged.",
  ["inputs"], "all 2**64 bit patterns, all float bounds and smallest magnitudes",
  "tests sample floats; 2**64 patterns cannot be enumerated and boundary exponents and mantissas are easy to miss",
  ["internal/conjecture/floats.py", "internal/floats.py", "internal/conjecture/choice.py"],
  [("float_to_lex / lex_to_float", C + "floats.py"), ("exponent tables, reverse_bits, update_mantissa", C + "floats.py"), ("make_float_clamper", H + "internal/floats.py")])
p("C03", "Interval sets: exact set algebra and a character order that is a permutation",
  "Union, difference and intersection of character interval sets have exactly the members of the corresponding set operation and a normalised (sorted, disjoint, non-adjacent) form. Length, membership, indexing (negative too) and searching agree with the sorted list of members. The simplicity order of the characters of a set is a permutation in which position and character determine each other, starting with '0' where present.",
  ["inputs"], "all interval sets and all indices", "tests use a few small interval sets", ["internal/intervalsets.py"],
  [("IntervalSet.union / difference / intersection", H + "internal/intervalsets.py"), ("IntervalSet.__getitem__ / index / index_above", H + "internal/intervalsets.py"), ("char_in_shrink_order / index_from_char_in_shrink_order", H + "internal/intervalsets.py")])
p("C04", "Character queries select exactly the characters asked for",
  "For every combination of code point bounds, categories, included and excluded characters and codec, the characters that can be generated are exactly those that lie in the bounds and categories and the codec, plus the included and minus the excluded ones. The answer does not depend on what was asked before.",
  ["inputs", "histories"], "all combinations of arguments, all orders of earlier queries (caches)", "tests check a handful of categories and bounds",
  ["internal/charmap.py", "strategies/_internal/core.py", "strategies/_internal/strings.py"],
  [("charmap.query, categories_key, caches", H + "internal/charmap.py"), ("characters()", H + "strategies/_internal/core.py")])
p("C05", "Choice sequences survive storage exactly",
  "Serialising any sequence of choices to bytes and reading it back gives the identical sequence: same types, same length, floats bit for bit. The same holds for failure blobs printed for @reproduce_failure; bytes that no sequence was written to are never an uncaught error.",
  ["inputs"], "all finite sequences of booleans, integers, floats, byte strings and texts; all byte strings as inputs to reading", "tests round-trip sampled sequences; length encodings at 5-bit and 7-bit boundaries, negative integers and surrogates are rarely hit",
  ["database.py", "core.py"], [("choices_to_bytes / choices_from_bytes, uleb128", H + "database.py"), ("encode_failure / decode_failure", H + "core.py")])
p("C06", "Replaying recorded choices reproduces the test case",
  "Running the same test on the choices recorded in a previous run gives the same drawn values, the same status, the same recorded choices and the same structure. A choice that no longer fits is replaced by the simplest (zero-index) permitted one and counted as misaligned; choices are consumed strictly in order, running out stops the test as an overrun, and a frozen result never changes.",
  ["inputs", "histories"], "all choice sequences, all tests that are deterministic functions of their draws", "tests replay particular sequences", ["internal/conjecture/data.py"],
  [("ConjectureData._draw / _pop_choice", C + "data.py"), ("ConjectureData.freeze / as_result / conclude_test", C + "data.py"), ("SpanRecord, Spans", C + "data.py")],
  state=[("index", "position in the choice prefix", "ConjectureData"), ("nodes", "recorded choices", "ConjectureData"), ("length", "budget used", "ConjectureData")])
p("C07", "Every drawn choice satisfies its constraints",
  "Whatever provider draws it and whatever its constraints (bounds, weights, shrink target, excluded NaN, smallest magnitude, alphabets, sizes), a generated integer, float, boolean, byte string or text is one the constraints permit. A forced value is what is returned. This also holds for the random mutation of bytes and for values taken from constant pools.",
  ["inputs", "configurations"], "all constraints and all random streams", "tests sample constraints and streams", ["internal/conjecture/providers.py", "internal/conjecture/choice.py", "internal/conjecture/utils.py"],
  [("HypothesisProvider.draw_*", C + "providers.py"), ("BytestringProvider.draw_*", C + "providers.py"), ("choice_permitted", C + "choice.py"), ("constant pools", C + "providers.py")])
p("C08", "Generated collections respect size bounds and uniqueness",
  "Lists, sets, frozensets, dictionaries, tuples, iterables and fixed dictionaries always have between min_size and max_size elements (all required keys and only optional ones), every element from its strategy; with uniqueness, no two elements are equal under any of the given keys. Rejected elements never let a finished collection end below its minimum.",
  ["inputs"], "all bounds, element strategies, key functions and random streams", "tests sample sizes", ["internal/conjecture/utils.py", "strategies/_internal/collections.py", "strategies/_internal/core.py"],
  [("many.more / reject", C + "utils.py"), ("ListStrategy, UniqueListStrategy, UniqueSampledListStrategy, FixedDictStrategy", H + "strategies/_internal/collections.py")])
p("C09", "Rewriting a filter never changes which values pass",
  "Filtering a strategy gives exactly the values of the unfiltered strategy that satisfy the predicate: a value the predicate rejects is never generated, and a value it accepts is not lost, whichever form the predicate has (comparison lambdas, partial operators, method references, regular expressions). This holds for integers, floats, collections, text and any chain of filters.",
  ["inputs", "programs"], "all recognised predicates, bounds of any numeric type, and all values", "tests compare particular predicates and bounds", ["internal/filtering.py", "strategies/_internal/numbers.py", "strategies/_internal/strategies.py", "strategies/_internal/collections.py", "strategies/_internal/strings.py"],
  [("get_integer_predicate_bounds / get_float_predicate_bounds", H + "internal/filtering.py"), ("IntegersStrategy.filter / FloatStrategy.filter", H + "strategies/_internal/numbers.py"), ("FilteredStrategy", H + "strategies/_internal/strategies.py")])
p("C10", "Weighted choices have the requested distribution",
  "The weighted sampler's table represents the requested weights exactly up to rounding, never selects an index of weight zero, and forcing an index yields it. Integer ranges are drawn within bounds for any centre, and a biased coin with probability 0 or 1 is deterministic.",
  ["inputs"], "all weight vectors, all random streams", "tests check a few weight vectors statistically", ["internal/conjecture/utils.py", "internal/conjecture/providers.py"],
  [("Sampler", C + "utils.py"), ("HypothesisProvider._draw_bounded_integer", C + "providers.py")])
p("C11", "Caches return what was stored and respect their size",
  "A cache never holds more entries than its limit, a lookup returns the value most recently stored under that key, pinned entries are never evicted, and the evicted entry is one with the lowest score (for LRU, the least recently used). Every mix of operations keeps the structure consistent.",
  ["histories", "inputs"], "all sequences of operations on all keys", "tests run bounded random sequences", ["internal/cache.py"],
  [("GenericCache heap maintenance", H + "internal/cache.py"), ("LRUReusedCache, LRUCache", H + "internal/cache.py")],
  state=[("data", "heap ordered by sort key", "GenericCache"), ("keys_to_indices", "position of each key", "GenericCache")])
p("C12", "Shrinking only ever replaces a failure by a simpler one",
  "Starting from an interesting test case, every improvement the shrinker adopts is itself interesting and strictly simpler (shorter, then smaller in the choice order), and the value-level minimisers for integers, floats, strings and sequences return a value that satisfies their predicate, is no more complex than the start, and terminates. Searching helpers return exactly the boundary they promise.",
  ["inputs", "histories"], "all predicates, all starting values", "tests check shrinking results on selected predicates", ["internal/conjecture/shrinker.py", "internal/conjecture/shrinking/common.py", "internal/conjecture/shrinking/integer.py", "internal/conjecture/junkdrawer.py"],
  [("Shrinker.consider_new_nodes / sort_key", C + "shrinker.py"), ("Shrinker classes (Integer, Float, Collection, Ordering...)", C + "shrinking/"), ("find_integer, binary_search", C + "junkdrawer.py")])
p("C13", "The tree of tried choices never proposes a duplicate nor calls itself done early",
  "After any history of executed test cases, a proposed novel prefix is not the prefix of a fully explored branch, replaying it stays possible under the recorded constraints, and the tree is exhausted only when every permitted choice sequence has been tried. Simulating a recorded sequence reproduces its outcome; a test whose draws change under the same choices is reported as flaky.",
  ["histories", "inputs"], "all sets of executed choice sequences", "tests run short scripted histories", ["internal/conjecture/datatree.py"],
  [("DataTree.generate_novel_prefix / rewrite / simulate_test_function", C + "datatree.py"), ("TreeNode.check_exhausted / split_at", C + "datatree.py"), ("compute_max_children / all_children", C + "datatree.py"), ("TreeRecordingObserver", C + "datatree.py")])
p("C14", "Example databases are faithful multimaps",
  "Saving, deleting and moving values and then fetching a key gives exactly the set of values saved and not removed, for every database kind and composition of wrappers; keys do not interfere with one another. A value is never lost or altered by moving it, and read-only wrappers never write.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations over arbitrary byte keys and values", "tests run a fixed set of operations and a bounded state machine", ["database.py"],
  [("InMemoryExampleDatabase, DirectoryBasedExampleDatabase", H + "database.py"), ("MultiplexedDatabase, ReadOnlyDatabase, BackgroundWriteDatabase", H + "database.py")])
p("C15", "Numeric strategies generate only values in their bounds",
  "integers, floats (all widths, exclusive bounds, subnormals, NaN and infinity switches), decimals, fractions and complex numbers generate only values satisfying every documented restriction of their arguments, and refuse arguments that no value can satisfy. Every bound that can be attained is allowed.",
  ["inputs", "configurations"], "all argument combinations and all random streams", "tests sample bounds", ["strategies/_internal/numbers.py", "strategies/_internal/core.py", "internal/floats.py"],
  [("floats(), FloatStrategy, IntegersStrategy", H + "strategies/_internal/numbers.py"), ("decimals(), fractions(), complex_numbers()", H + "strategies/_internal/core.py")])
p("C16", "Floating-point helpers are exact",
  "The next float up or down is the adjacent value of its width with no value between, counting floats between two bounds is exact, rounding to a width gives the nearest representable value or an overflow error, and the sign-aware comparison is the total order with -0.0 before 0.0.",
  ["inputs"], "all floats of widths 16, 32 and 64", "tests sample floats", ["internal/floats.py"], [("next_up / next_down (+_normal)", H + "internal/floats.py"), ("count_between_floats, float_of, sign_aware_lte, clamp", H + "internal/floats.py")])
p("C17", "A run executes within its budget and reports every distinct failure",
  "A run calls the test with no more than max_examples valid examples while generating, never generates when that phase is disabled, replays saved examples first, and if any call fails then a failure with the same cause is reported, with the simplest example found for it; if it reports success no executed example failed. A saved failure is found again on the next run.",
  ["programs", "configurations", "histories"], "all test functions, settings and database contents", "tests use particular settings", ["internal/conjecture/engine.py", "core.py"],
  [("ConjectureRunner.run / test_function / should_generate_more", C + "engine.py"), ("StateForActualGivenExecution", H + "core.py")])
p("C18", "State machines run only legal steps",
  "A rule runs only when its preconditions hold, every bundle argument is a value some earlier step put in that bundle and was not consumed, initialize rules run once each before any other rule, and invariants are checked after every step. No more than the configured number of steps run; teardown always runs.",
  ["histories", "programs"], "all machines and all choice streams", "tests use example machines", ["stateful.py"], [("run_state_machine, RuleBasedStateMachine, RuleStrategy, Bundle", H + "stateful.py")])
p("C19", "Dates, times and durations are valid and in bounds",
  "Generated dates, times, datetimes and timedeltas always lie between the given bounds, are real calendar values, and carry the requested timezone and fold; disallowed imaginary times never appear. Bounds themselves can be generated.",
  ["inputs"], "all bounds and all random streams", "tests sample a few bounds", ["strategies/_internal/datetime.py"], [("draw_capped_multipart, DatetimeStrategy, DateStrategy, TimedeltaStrategy", H + "strategies/_internal/datetime.py")])
p("C20", "Text and pattern strategies generate only matching strings",
  "text, characters, binary, from_regex, emails, domains, uuids, ip_addresses and identifiers generate only strings with the requested alphabet, length and form; from_regex gives strings in which the pattern is found (or which it matches entirely), for text and byte patterns with any flags and alphabet. Exclusions are always honoured.",
  ["inputs", "programs"], "all patterns, alphabets, sizes and random streams", "tests use a fixed list of patterns", ["strategies/_internal/strings.py", "strategies/_internal/regex.py", "strategies/_internal/ipaddress.py", "provisional.py"],
  [("TextStrategy, OneCharStringStrategy, BytesStrategy", H + "strategies/_internal/strings.py"), ("regex_strategy", H + "strategies/_internal/regex.py")])
p("C21", "Internal sequence containers behave as their list models",
  "The compact integer list, the lazy copy-on-write sequence and the self-organising list behave exactly as ordinary lists under every sequence of reads, writes, slices, insertions, pops and deletions, and never disturb the sequence they were made from. Replacing slices by index and related helpers agree with their definition.",
  ["histories", "inputs"], "all operation sequences", "tests run short sequences", ["internal/conjecture/junkdrawer.py"],
  [("IntList, LazySequenceCopy, SelfOrganisingList", C + "junkdrawer.py"), ("replace_all, startswith, endswith, binary_search, find_integer", C + "junkdrawer.py")])
p("C22", "Random state is controlled and restored",
  "While a test runs, registered and global pseudo-random generators are seeded the same way on every replay, and afterwards each is back in the state it had before. Generated Random objects and functions behave as pure functions of the choices: same choices, same values.",
  ["histories", "programs"], "all uses of random generators inside tests, nested or not", "tests check single cases", ["internal/entropy.py", "strategies/_internal/random.py", "strategies/_internal/functions.py"],
  [("deterministic_PRNG, register_random", H + "internal/entropy.py"), ("ArtificialRandom", H + "strategies/_internal/random.py")])
p("C23", "Composed strategies generate only values of their parts",
  "sampled_from, one_of, just, builds, map, flatmap, filter, tuples, permutations, recursive, deferred, shared and data generate only values that their definition allows: filters always hold, permutations keep the elements, recursive structures have at most max_leaves leaves, shared strategies give one value per test, slices index within the size given.",
  ["inputs", "programs"], "all compositions and random streams", "tests sample compositions", ["strategies/_internal/strategies.py", "strategies/_internal/recursive.py", "strategies/_internal/core.py", "strategies/_internal/misc.py"],
  [("SampledFromStrategy, OneOfStrategy, FilteredStrategy, MappedStrategy", H + "strategies/_internal/strategies.py"), ("RecursiveStrategy, LimitedStrategy", H + "strategies/_internal/recursive.py")])
p("C24", "Automata agree with the languages they stand for",
  "Operations on deterministic automata (matching, dead states, counting and enumerating strings, shortest strings, equivalence, canonical form) agree with the set of accepted byte strings. A learned automaton agrees with the membership function on everything it was asked.",
  ["inputs", "histories"], "all finite automata and strings", "tests use small automata", ["internal/conjecture/dfa/__init__.py", "internal/conjecture/dfa/lstar.py"], [("DFA, ConcreteDFA", C + "dfa/__init__.py"), ("LStar, Normalizer, IntegerNormalizer", C + "dfa/lstar.py")])
p("C25", "Array helper strategies respect shape and axis limits",
  "Generated array shapes, broadcastable shapes, mutually broadcastable shapes, axis tuples and index expressions satisfy their dimension and side limits, really broadcast together to the reported result, and never index out of range. Generated arrays have the requested shape, dtype and element restrictions.",
  ["inputs"], "all limits and random streams", "tests sample limits", ["extra/_array_helpers.py", "extra/numpy.py"], [("array_shapes, broadcastable_shapes, mutually_broadcastable_shapes, valid_tuple_axes, BasicIndexStrategy", H + "extra/_array_helpers.py")])
p("C26", "Targeted search keeps a consistent Pareto front and its best scores",
  "After any sequence of additions, the front holds test cases it was given, in order and once each, with their own target scores; it drops one only if another it keeps is no more complex and no worse, and with up to nine cases it is exact. The best observed score of each target only rises, and the hill-climber never keeps a worse example than it started from.",
  ["histories"], "all sequences of test cases with arbitrary scores", "tests use few targets and cases", ["internal/conjecture/pareto.py", "internal/conjecture/optimiser.py", "internal/conjecture/engine.py"], [("ParetoFront.add, dominance", C + "pareto.py"), ("Optimiser", C + "optimiser.py")])
